IDS = ["C08", "C06", "C17"]
ST = "utils/stat.go"
CASES = {
 "nocopy": [(ST, "\t\tif docopy {\n\t\t\tadd = make([]float64, len(ori.Data[v]))\n\t\t\tcopy(add, ori.Data[v])\n\t\t} else {\n\t\t\tadd = ori.Data[v]\n\t\t}\n", "\t\tadd = ori.Data[v]\n")],
 "nocopykeys": [(ST, "\t\tif docopy {\n\t\t\tdest.Keys = make([]string, len(ori.Keys))\n\t\t\tcopy(dest.Keys, ori.Keys)\n\t\t} else {\n\t\t\tdest.Keys = ori.Keys\n\t\t}\n", "\t\tdest.Keys = ori.Keys\n")],
 "short-row": [(ST, "add = make([]float64, len(ori.Data[v]))", "add = make([]float64, len(ori.Data[0]))")],
 "label-pos": [(ST, "\tfor _, v := range toadd {", "\tfor i, v := range toadd {"), (ST, "ori.Labels[v])", "ori.Labels[i])")],
 "shared-buf": [(ST, "\tfor _, v := range toadd {\n\t\tvar add []float64\n\t\tif docopy {\n\t\t\tadd = make([]float64, len(ori.Data[v]))\n", "\tvar buf []float64\n\tfor _, v := range toadd {\n\t\tvar add []float64\n\t\tif docopy {\n\t\t\tif len(buf) != len(ori.Data[v]) {\n\t\t\t\tbuf = make([]float64, len(ori.Data[v]))\n\t\t\t}\n\t\t\tadd = buf\n")],
 "last-only": [(ST, "isInPrevious(n, folds)", "isInPrevious(n, folds[:i])")],
 "last-fold": [(ST, "isInPrevious(n, folds)", "isInPrevious(n, folds[i:])")],
 "no-remaining": [(ST, "\tfolds = fillRemaining(folds, tot)", "\t//folds = fillRemaining(folds, tot)")],
 "remaining-off": [(ST, "for i := 0; i < tot; i++ {\n\t\tif !isIn", "for i := 1; i < tot; i++ {\n\t\tif !isIn")],
 "calls-gt": [(ST, "calls >= nf", "calls > nf-1+len(usecopies)")],
 "train-all": [(ST, "\t\t\tif i == calls {\n\t\t\t\tcontinue\n\t\t\t}\n", "\t\t\tif i == calls && nf > 2 {\n\t\t\t\tcontinue\n\t\t\t}\n")],
 "train-break": [(ST, "\t\t\tif i == calls {\n\t\t\t\tcontinue\n\t\t\t}\n", "\t\t\tif i == calls {\n\t\t\t\tif i == nf-2 {\n\t\t\t\t\tbreak\n\t\t\t\t}\n\t\t\t\tcontinue\n\t\t\t}\n")],
 "rand-short": [(ST, "for n = rand.IntN(tot); isIn", "for n = rand.IntN(nsamples*nf); isIn")],
 "minfold": [(ST, "if nf < minfold {", "if nf < minfold-1 {")],
 "contains-bin": [(ST, "slices.Contains(v, i)", "len(v) > 0 && slices.Contains(v[1:], i)")],
 "swap-ret": [(ST, "return train, test", "if calls == nf && nf == 2 {\n\t\t\treturn test, train\n\t\t}\n\t\treturn train, test")],
 "nf-report": [(ST, "return nf, ret, err\n", "if nfold > nf {\n\t\treturn nfold, ret, err\n\t}\n\treturn nf, ret, err\n")],
 "no-nonneg": [(ST, "for ; nf > 0 && tot/nf < minleftout; nf--", "for ; tot/nf < minleftout; nf--")],
 "append-alias": [(ST, "trainindexes := make([]int, 0, nsamples*nf-1)", "trainindexes := folds[0][:0]")],
}
