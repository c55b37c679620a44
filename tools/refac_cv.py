IDS = ["C10", "C11", "C17"]
CV, GR, HY = "cv/cv.go", "cv/grad.go", "cv/hybrid.go"
NEST = open("/repo/cv/cv.go").read()
a = NEST.index("\t\t\t\t\t\t\t\t\tt := defaultoptions()"); b = NEST.index("\t\t\t\t\t\t\t\t\tcpus++\n")
BODY = NEST[a:b]
c = NEST.index("\t\t\t\t\t\t\t\t\tif cpus == ncpus {"); d = NEST.index("\n\t\t\t\t\t\t\t\t}\n\n\t\t\t\t\t\t\t}")
COLL = NEST[c:d]
G = open("/repo/cv/grad.go").read()
e = G.index("\t\t\tCompareAccs := func"); f = G.index("\t\t\tt, err := CompareAccs(t, tprev)")
CMP = G[e:f]
CASES = {
 "candidate-helper": [(CV, BODY, "\t\t\t\t\t\t\t\t\tt := candidate(o, rounds, md, cw, css, lr, lam, gam, ss)\n\t\t\t\t\t\t\t\t\tgo MultiClassCrossValidation(data, nfold, &Options{O: t, Acc: accs[cpus], Err: errs[cpus], Ochan: os[cpus], Conc: true})\n"),
   (CV, "\tdefaultoptions := boo.DefaultGOptions\n\tif o.XGB {\n\t\tdefaultoptions = boo.DefaultXOptions\n\t}\n", ""),
   (CV, "// Rescues cross", "func candidate(o *GridOptions, rounds, md int, cw, css, lr, lam, gam, ss float64) *boo.Options {\n\tt := boo.DefaultGOptions()\n\tif o.XGB {\n\t\tt = boo.DefaultXOptions()\n\t}\n\tt.XGB = o.XGB\n\tt.EarlyStop = o.EarlyStop\n\tt.Gamma, t.Lambda = gam, lam\n\tt.SubSample, t.ColSubSample = ss, css\n\tt.LearningRate = lr\n\tt.Rounds, t.MaxDepth = rounds, md\n\tt.MinChildWeight = cw\n\treturn t\n}\n\n// Rescues cross")],
 "collect-closure": [(CV, COLL, "\t\t\t\t\t\t\t\t\tif cpus == ncpus {\n\t\t\t\t\t\t\t\t\t\tif err := collect(ncpus); err != nil {\n\t\t\t\t\t\t\t\t\t\t\treturn -1, nil, nil, err\n\t\t\t\t\t\t\t\t\t\t}\n\t\t\t\t\t\t\t\t\t\tcpus = 0\n\t\t\t\t\t\t\t\t\t}\n"),
   (CV, "\t//welcome to nested-hell. Sorry.\n", "\tcollect := func(n int) error {\n\t\tvar err error\n\t\tbestacc, finaloptions, accuracies, err = rescueConcValues(errs[:n], accs[:n], os[:n], bestacc, finaloptions, accuracies, o.Verbose, o.WriteBest, data)\n\t\treturn err\n\t}\n"),
   (CV, "\tif cpus > 0 { //the last combinations might not use all CPUs\n\t\tvar err error\n\t\tbestacc, finaloptions, accuracies, err = rescueConcValues(errs[:cpus], accs[:cpus], os[:cpus], bestacc, finaloptions, accuracies, o.Verbose, o.WriteBest, data)\n\t\tif err != nil {", "\tif cpus > 0 {\n\t\tif err := collect(cpus); err != nil {")],
 "gridopts-helper": [(CV, "\tvar o *GridOptions\n\tif len(options) > 0 && options[0] != nil {\n\t\to = options[0]\n\t} else {\n\t\to = DefaultXGridOptions()\n\t}\n", "\to := pick(options)\n"), (CV, "// Rescues cross", "func pick(options []*GridOptions) *GridOptions {\n\tif len(options) == 0 || options[0] == nil {\n\t\treturn DefaultXGridOptions()\n\t}\n\treturn options[0]\n}\n\n// Rescues cross")],
 "channels-helper": [(CV, "\tfor i := range ncpus {\n\t\taccs[i] = make(chan float64)\n\t\terrs[i] = make(chan error)\n\t\tos[i] = make(chan *boo.Options)\n\t}\n", "\tfor i := 0; i < ncpus; i++ {\n\t\tos[i], errs[i], accs[i] = make(chan *boo.Options), make(chan error), make(chan float64)\n\t}\n")],
 "inv-if": [(CV, "\t\tif err != nil {\n\t\t\tif firsterr == nil {\n\t\t\t\tfirsterr = err\n\t\t\t}\n\t\t\tcontinue\n\t\t}\n\t\taccuracies = append(accuracies, tmpacc)\n\t\tif tmpacc > bestacc {", "\t\tif err != nil && firsterr == nil {\n\t\t\tfirsterr = err\n\t\t}\n\t\tif err != nil {\n\t\t\tcontinue\n\t\t}\n\t\taccuracies = append(accuracies, tmpacc)\n\t\tif bestacc < tmpacc {")],
 "rescue-idx": [(CV, "\tfor i, v := range errors {\n\t\t//everything is always received, so no gorutine is left waiting.\n\t\terr = <-v\n\t\ttmpacc = <-accs[i]\n\t\ttmpop = <-opts[i]\n", "\tfor i := range errors {\n\t\terr, tmpacc, tmpop = receive(errors[i], accs[i], opts[i])\n"), (CV, "func writeBest(", "func receive(e chan error, a chan float64, o chan *boo.Options) (error, float64, *boo.Options) {\n\terr := <-e\n\tacc := <-a\n\treturn err, acc, <-o\n}\n\nfunc writeBest(")],
 "mccv-helper": [(CV, "\t\tvar b *boo.MultiClass\n\t\ttrain, test := sampler()\n\t\tif opts.O == nil {\n\t\t\tb = boo.NewMultiClass(train)\n\t\t} else {\n\t\t\tb = boo.NewMultiClass(train, opts.O)\n\t\t}\n", "\t\ttrain, test := sampler()\n\t\tb := fit(train, opts.O)\n"), (CV, "// Contains options limiting", "func fit(train *utils.DataBunch, o *boo.Options) *boo.MultiClass {\n\tif o != nil {\n\t\treturn boo.NewMultiClass(train, o)\n\t}\n\treturn boo.NewMultiClass(train)\n}\n\n// Contains options limiting")],
 "mccv-report": [(CV, "\t\t\tif opts.Conc {\n\t\t\t\topts.Err <- err\n\t\t\t\topts.Acc <- -1\n\t\t\t\topts.Ochan <- nil\n\t\t\t}\n", "\t\t\topts.report(err, -1, nil)\n"), (CV, "\tif opts.Conc {\n\t\topts.Err <- nil\n\t\topts.Acc <- mean\n\t\topts.Ochan <- opts.O\n\t}\n", "\topts.report(nil, mean, opts.O)\n"), (CV, "// Runs a nfold-cross-validation-based", "func (o *Options) report(err error, acc float64, opt *boo.Options) {\n\tif !o.Conc {\n\t\treturn\n\t}\n\to.Err <- err\n\to.Acc <- acc\n\to.Ochan <- opt\n}\n\n// Runs a nfold-cross-validation-based")],
 "mccv-noval": [(CV, "\t\tif b.Rounds() <= 0 {\n\t\t\tlog.Printf(\"The %d-th fold didn't produce a boosting ensemble, will continue with the others\", n)\n\n\t\t\tcontinue\n\t\t}\n\t\ta := b.Accuracy(test)\n\t\taccus += a\n\t\tevaluated++\n", "\t\tif b.Rounds() > 0 {\n\t\t\taccus += b.Accuracy(test)\n\t\t\tevaluated++\n\t\t} else {\n\t\t\tlog.Printf(\"The %d-th fold didn't produce a boosting ensemble, will continue with the others\", n)\n\t\t}\n")],
 "cmp-outside": [(GR, CMP, ""), (GR, "\tbestacc := 0.0\n", "\tbestacc := 0.0\n" + CMP)],
 "grad-else": [(GR, "\t\t\t\tif t.Equal(t1) {\n\t\t\t\t\tstrikes++\n\t\t\t\t\tt = fuzzOptions(t, 0.2) //switch to 0.1\n\t\t\t\t\tif strikes == maxstrikes {\n\t\t\t\t\t\tstrikes = 0\n\t\t\t\t\t\tbreak\n\t\t\t\t\t}\n\t\t\t\t\tcontinue\n\t\t\t\t}\n", "\t\t\t\tif t.Equal(t1) {\n\t\t\t\t\tt = fuzzOptions(t, 0.2)\n\t\t\t\t\tif strikes++; strikes >= maxstrikes {\n\t\t\t\t\t\tbreak\n\t\t\t\t\t}\n\t\t\t\t\tcontinue\n\t\t\t\t}\n")],
 "grad-start": [(GR, "\t\t\tt := defaultoptions()\n\t\t\tt = setSomeOptionsToMid(t, o)\n\t\t\tt.MaxDepth = md\n\t\t\tt.MinChildWeight = cw\n\t\t\tt.XGB = o.XGB\n\t\t\tt.EarlyStop = o.EarlyStop\n", "\t\t\tt := startingPoint(defaultoptions(), o, md, cw)\n"), (GR, "// returns f plus or", "func startingPoint(t *boo.Options, o *GridOptions, md int, cw float64) *boo.Options {\n\tt.XGB, t.EarlyStop = o.XGB, o.EarlyStop\n\tt.MaxDepth, t.MinChildWeight = md, cw\n\treturn setSomeOptionsToMid(t, o)\n}\n\n// returns f plus or")],
 "save-helper": [(GR, "\t\t\t\t\tif o.WriteBest {\n\t\t\t\t\t\tif err := writeBest(data, bestacc, finaloptions); err != nil {\n\t\t\t\t\t\t\tlog.Printf(\"Couldn't write the best model: %v\", err)\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n", "\t\t\t\t\tsaveIf(o.WriteBest, data, bestacc, finaloptions)\n"), (GR, "// returns f plus or", "func saveIf(write bool, data *utils.DataBunch, acc float64, op *boo.Options) {\n\tif !write {\n\t\treturn\n\t}\n\tif err := writeBest(data, acc, op); err != nil {\n\t\tlog.Printf(\"Couldn't write the best model: %v\", err)\n\t}\n}\n\n// returns f plus or")],
 "while-steps": [(GR, "\t\t\tfor s := 0; s < o.NSteps; s++ {\n\t\t\t\tt1", "\t\t\tfor range max(o.NSteps, 0) {\n\t\t\t\tt1")],
 "while-steps2": [(GR, "\t\t\tfor s := 0; s < o.NSteps; s++ {\n\t\t\t\tt1", "\t\t\tfor left := o.NSteps; left > 0; left-- {\n\t\t\t\tt1")],
 "grid-while": [(CV, "for gam := o.Gamma[0]; gam <= o.Gamma[1]; gam += o.Gamma[2] {\n", "gam := o.Gamma[0]\n\t\t\t\t\t\t\tfor ; gam <= o.Gamma[1]; gam += o.Gamma[2] {\n")],
 "grid-locals": [(CV, "\t//welcome to nested-hell. Sorry.\n", "\tlamMin, lamMax, lamStep := o.Lambda[0], o.Lambda[1], o.Lambda[2]\n"), (CV, "for lam := o.Lambda[0]; lam <= o.Lambda[1]; lam += o.Lambda[2] {", "for lam := lamMin; lam <= lamMax; lam += lamStep {")],
}
