IDS = ["C08", "C06", "C17", "C21"]
ST = "utils/stat.go"
CASES = {
 "row-helper": [(ST, "\t\tvar add []float64\n\t\tif docopy {\n\t\t\tadd = make([]float64, len(ori.Data[v]))\n\t\t\tcopy(add, ori.Data[v])\n\t\t} else {\n\t\t\tadd = ori.Data[v]\n\t\t}\n\t\tdest.Data = append(dest.Data, add)\n", "\t\tdest.Data = append(dest.Data, rowOf(ori, v, docopy))\n"), (ST, "// Fills ori with", "func rowOf(ori *DataBunch, v int, docopy bool) []float64 {\n\tif !docopy {\n\t\treturn ori.Data[v]\n\t}\n\tr := make([]float64, len(ori.Data[v]))\n\tcopy(r, ori.Data[v])\n\treturn r\n}\n\n// Fills ori with")],
 "row-append": [(ST, "\t\t\tadd = make([]float64, len(ori.Data[v]))\n\t\t\tcopy(add, ori.Data[v])\n", "\t\t\tadd = append(make([]float64, 0, len(ori.Data[v])), ori.Data[v]...)\n")],
 "row-clone": [(ST, "\t\t\tadd = make([]float64, len(ori.Data[v]))\n\t\t\tcopy(add, ori.Data[v])\n", "\t\t\tadd = slices.Clone(ori.Data[v])\n")],
 "row-var": [(ST, "\t\tvar add []float64\n\t\tif docopy {\n\t\t\tadd = make([]float64, len(ori.Data[v]))\n\t\t\tcopy(add, ori.Data[v])\n\t\t} else {\n\t\t\tadd = ori.Data[v]\n\t\t}\n", "\t\trow := ori.Data[v]\n\t\tadd := row\n\t\tif docopy {\n\t\t\tadd = make([]float64, len(row))\n\t\t\tcopy(add, row)\n\t\t}\n")],
 "keys-first": [(ST, "\tdest.Data = make([][]float64, 0, len(toadd))\n", "\tif len(ori.Keys) > 0 {\n\t\tkeys := ori.Keys\n\t\tif docopy {\n\t\t\tkeys = make([]string, len(ori.Keys))\n\t\t\tcopy(keys, ori.Keys)\n\t\t}\n\t\tdest.Keys = keys\n\t}\n\tdest.Data = make([][]float64, 0, len(toadd))\n"), (ST, "\tif len(ori.Keys) > 0 {\n\t\tif docopy {\n\t\t\tdest.Keys = make([]string, len(ori.Keys))\n\t\t\tcopy(dest.Keys, ori.Keys)\n\t\t} else {\n\t\t\tdest.Keys = ori.Keys\n\t\t}\n\t}\n", "")],
 "inprev-loop": [(ST, "\t\tif slices.Contains(v, i) {\n\t\t\treturn true\n\t\t}\n", "\t\tfor _, w := range v {\n\t\t\tif w == i {\n\t\t\t\treturn true\n\t\t\t}\n\t\t}\n")],
 "inprev-nolen": [(ST, "\tif len(sam) == 0 {\n\t\treturn false\n\t}\n\tfor _, v := range sam", "\tfor _, v := range sam")],
 "draw-while": [(ST, "\t\t\tvar n int\n\t\t\tfor n = rand.IntN(tot); isInPrevious(n, folds); n = rand.IntN(tot) {\n\t\t\t}\n", "\t\t\tn := rand.IntN(tot)\n\t\t\tfor isInPrevious(n, folds) {\n\t\t\t\tn = rand.IntN(tot)\n\t\t\t}\n")],
 "draw-helper": [(ST, "\t\t\tvar n int\n\t\t\tfor n = rand.IntN(tot); isInPrevious(n, folds); n = rand.IntN(tot) {\n\t\t\t}\n", "\t\t\tn := drawUnused(tot, folds)\n"), (ST, "// Fills ori with", "func drawUnused(tot int, folds [][]int) int {\n\tn := rand.IntN(tot)\n\tfor isInPrevious(n, folds) {\n\t\tn = rand.IntN(tot)\n\t}\n\treturn n\n}\n\n// Fills ori with")],
 "draw-forever": [(ST, "\t\t\tvar n int\n\t\t\tfor n = rand.IntN(tot); isInPrevious(n, folds); n = rand.IntN(tot) {\n\t\t\t}\n\t\t\tfolds[i] = append(folds[i], n)\n", "\t\t\tfor {\n\t\t\t\tn := rand.IntN(tot)\n\t\t\t\tif !isInPrevious(n, folds) {\n\t\t\t\t\tfolds[i] = append(folds[i], n)\n\t\t\t\t\tbreak\n\t\t\t\t}\n\t\t\t}\n")],
 "folds-helper": [(ST, "\tnsamples := tot / nf\n", "\tnsamples := tot / nf\n\t_ = nsamples\n")],
 "train-helper": [(ST, "\t\ttrainindexes := make([]int, 0, nsamples*nf-1)\n\t\tfor i, v := range folds {\n\t\t\tif i == calls {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\ttrainindexes = append(trainindexes, v...)\n\t\t}\n", "\t\ttrainindexes := others(folds, calls)\n"), (ST, "// Fills ori with", "func others(folds [][]int, not int) []int {\n\tvar r []int\n\tfor i := range folds {\n\t\tif i != not {\n\t\t\tr = append(r, folds[i]...)\n\t\t}\n\t}\n\treturn r\n}\n\n// Fills ori with")],
 "train-first": [(ST, "\t\ttest := &DataBunch{}\n\t\ttest = fillDataBunch(data, test, testindexes, docopy)\n", ""), (ST, "\t\ttrain = fillDataBunch(data, train, trainindexes, docopy)\n", "\t\ttrain = fillDataBunch(data, train, trainindexes, docopy)\n\t\ttest := fillDataBunch(data, new(DataBunch), testindexes, docopy)\n")],
 "remaining-range": [(ST, "\tfor i := 0; i < tot; i++ {\n\t\tif !isInPrevious(i, folds) {\n\t\t\tfolds[last] = append(folds[last], i)\n\t\t}\n\t}\n", "\tfor i := range tot {\n\t\tif isInPrevious(i, folds) {\n\t\t\tcontinue\n\t\t}\n\t\tfolds[last] = append(folds[last], i)\n\t}\n")],
 "nf-helper": [(ST, "\tnf := 5\n", "\tnf := foldsOr5(nfold)\n"), (ST, "\tif nfold > 0 {\n\t\tnf = nfold\n\t}\n", ""), (ST, "// Fills ori with", "func foldsOr5(n int) int {\n\tif n > 0 {\n\t\treturn n\n\t}\n\treturn 5\n}\n\n// Fills ori with")],
 "while-nf": [(ST, "\tfor ; nf > 0 && tot/nf < minleftout; nf-- {", "\tfor nf > 0 && tot/nf < minleftout {"), (ST, "\t\ttried = append(tried, nf)\n", "\t\ttried = append(tried, nf)\n\t\tnf--\n")],
}
