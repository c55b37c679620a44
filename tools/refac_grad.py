IDS = ["C09", "C29", "C10", "C18", "C06"]
CV, GR, HY = "cv/cv.go", "cv/grad.go", "cv/hybrid.go"
LOOP0 = "\tprev := O.Clone()\n\n\tfor st := step;"
CASES = {
 "drain-helper": [(GR, "\t\t\t<-pluserr\n\t\t\t<-plusacc\n\t\t\t<-pluso\n", "\t\t\tdrain(conc)\n"), (GR, "func ParamaterGradStep(", "func drain(c *Options) {\n\t<-c.Err\n\t<-c.Acc\n\t<-c.Ochan\n}\n\nfunc ParamaterGradStep(")],
 "recv-helper": [(GR, "\terr := <-pluserr\n\tpacc := <-plusacc\n\tvar der float64\n\t_ = <-pluso\n", "\tpacc, err := collect(conc)\n\tvar der float64\n"), (GR, "func ParamaterGradStep(", "func collect(c *Options) (float64, error) {\n\terr := <-c.Err\n\tacc := <-c.Acc\n\t<-c.Ochan\n\treturn acc, err\n}\n\nfunc ParamaterGradStep(")],
 "buffered": [(GR, "pluserr := make(chan error)\n", "pluserr := make(chan error, 1)\n")],
 "newconc": [(GR, "\tpluserr := make(chan error)\n\tpluso := make(chan *boo.Options)\n\tplusacc := make(chan float64)\n\tconc := &Options{O: pO, Acc: plusacc, Err: pluserr, Ochan: pluso, Conc: true}\n", "\tconc := newConc(pO)\n\tpluserr, pluso, plusacc := conc.Err, conc.Ochan, conc.Acc\n"), (GR, "func ParamaterGradStep(", "func newConc(o *boo.Options) *Options {\n\treturn &Options{O: o, Acc: make(chan float64), Err: make(chan error), Ochan: make(chan *boo.Options), Conc: true}\n}\n\nfunc ParamaterGradStep(")],
 "in-range-helper": [(GR, "\tif o.Lambda < co.Lambda[0] || o.Lambda > co.Lambda[1] {", "\tif !within(o.Lambda, co.Lambda) {"), (GR, "\tif o.Gamma < co.Gamma[0] || o.Gamma > co.Gamma[1] {", "\tif !within(o.Gamma, co.Gamma) {"), (GR, "func checkAgainstOptions(", "func within(v float64, r [3]float64) bool {\n\treturn v >= r[0] && v <= r[1]\n}\n\nfunc checkAgainstOptions(")],
 "in-range-ptr": [(GR, "\tif o.Lambda < co.Lambda[0] || o.Lambda > co.Lambda[1] {", "\tif outside(o.Lambda, co.Lambda[:]) {"), (GR, "func checkAgainstOptions(", "func outside(v float64, r []float64) bool {\n\treturn v < r[0] || v > r[1]\n}\n\nfunc checkAgainstOptions(")],
 "check-switch": [(GR, "\tif o.Gamma < co.Gamma[0] || o.Gamma > co.Gamma[1] {\n\t\treturn n(\"Gamma %v\", o.Gamma)\n\t}\n\tif o.MaxDepth < co.MaxDepth[0] || o.MaxDepth > co.MaxDepth[1] {\n\t\treturn n(\"MaxDepth %v\", o.MaxDepth)\n\t}\n\tif o.MinSample < 1 {\n\t\treturn n(\"MinSample %v\", o.MinSample)\n\t}\n\treturn nil", "\tswitch {\n\tcase o.MinSample < 1:\n\t\treturn n(\"MinSample %v\", o.MinSample)\n\tcase o.MaxDepth < co.MaxDepth[0], o.MaxDepth > co.MaxDepth[1]:\n\t\treturn n(\"MaxDepth %v\", o.MaxDepth)\n\tcase o.Gamma < co.Gamma[0] || o.Gamma > co.Gamma[1]:\n\t\treturn n(\"Gamma %v\", o.Gamma)\n\t}\n\treturn nil")],
 "recv-reorder": [(GR, "\tO.Gamma = (<-gm[\"Gamma\"]).Gamma\n\tO.Lambda = (<-gm[\"Lambda\"]).Lambda\n", "\tO.Lambda = (<-gm[\"Lambda\"]).Lambda\n\tO.Gamma = (<-gm[\"Gamma\"]).Gamma\n")],
 "recv-locals": [(GR, "\tO.Rounds = (<-gm[\"Rounds\"]).Rounds\n", "\tstepped := <-gm[\"Rounds\"]\n\tO.Rounds = stepped.Rounds\n")],
 "params-slice": [(GR, "\tgm := map[string]chan *boo.Options{\"Gamma\": make(chan *boo.Options), \"Lambda\": make(chan *boo.Options), \"SubSample\": make(chan *boo.Options), \"ColSubSample\": make(chan *boo.Options), \"LearningRate\": make(chan *boo.Options), \"Rounds\": make(chan *boo.Options)}\n\n\tfor k, v := range gm {\n", "\tgm := make(map[string]chan *boo.Options)\n\tfor _, k := range []string{\"Gamma\", \"Lambda\", \"SubSample\", \"ColSubSample\", \"LearningRate\", \"Rounds\"} {\n\t\tv := make(chan *boo.Options)\n\t\tgm[k] = v\n")],
 "apply-helper": [(GR, "\t\tswitch param {\n\t\tcase \"Gamma\":\n\t\t\tO.Gamma += der * CVO.Gamma[2] * st\n\t\tcase \"Lambda\":\n\t\t\tO.Lambda += der * CVO.Lambda[2] * st\n\t\tcase \"SubSample\":\n\t\t\tO.SubSample += der * CVO.SubSample[2] * st\n\t\tcase \"ColSubSample\":\n\t\t\tO.ColSubSample += der * CVO.ColSubSample[2] * st\n\t\tcase \"LearningRate\":\n\t\t\tO.LearningRate += der * CVO.LearningRate[2] * st\n\t\tcase \"Rounds\":\n\t\t\tO.Rounds += int(der * float64(CVO.Rounds[2]) * st)\n\t\tdefault:\n\t\t\tout <- O\n\t\t\treturn\n\t\t}\n", "\t\tif !applyStep(O, CVO, param, der, st) {\n\t\t\tout <- O\n\t\t\treturn\n\t\t}\n"), (GR, "func ParamaterGradStep(", "func applyStep(O *boo.Options, CVO *GridOptions, param string, der, st float64) bool {\n\t\tswitch param {\n\t\tcase \"Gamma\":\n\t\t\tO.Gamma += der * CVO.Gamma[2] * st\n\t\tcase \"Lambda\":\n\t\t\tO.Lambda += der * CVO.Lambda[2] * st\n\t\tcase \"SubSample\":\n\t\t\tO.SubSample += der * CVO.SubSample[2] * st\n\t\tcase \"ColSubSample\":\n\t\t\tO.ColSubSample += der * CVO.ColSubSample[2] * st\n\t\tcase \"LearningRate\":\n\t\t\tO.LearningRate += der * CVO.LearningRate[2] * st\n\t\tcase \"Rounds\":\n\t\t\tO.Rounds += int(der * float64(CVO.Rounds[2]) * st)\n\t\tdefault:\n\t\t\treturn false\n\t\t}\n\treturn true\n}\n\nfunc ParamaterGradStep(")],
 "backtrack-helper": [(GR, "\tprev := O.Clone()\n\n\tfor st := step;", "\tout <- backtrack(O, CVO, param, step, der)\n}\n\nfunc backtrack(O *boo.Options, CVO *GridOptions, param string, step, der float64) *boo.Options {\n\tprev := O.Clone()\n\n\tfor st := step;"), (GR, "\t\tdefault:\n\t\t\tout <- O\n\t\t\treturn\n\t\t}\n\t\tif check", "\t\tdefault:\n\t\t\treturn O\n\t\t}\n\t\tif check"), (GR, "\t\tO = prev\n\t}\n\tout <- O\n\treturn\n}\n", "\t\tO = prev\n\t}\n\treturn O\n}\n")],
 "while-st": [(GR, "\tfor st := step; st > 0.1*step; st -= st * 0.2 {\n", "\tst := step\n\tfor st > 0.1*step {\n"), (GR, "\t\tO = prev.Clone() //the previous check failed\n", "\t\tO = prev.Clone() //the previous check failed\n\t\tst -= st * 0.2\n")],
 "ok-flag": [(GR, "\t\tif checkAgainstOptions(O, CVO) == nil {\n\t\t\tbreak\n\t\t}\n", "\t\tok := checkAgainstOptions(O, CVO) == nil\n\t\tif ok {\n\t\t\tbreak\n\t\t}\n")],
 "deliver-closure": [(GR, "\tfd := fractiondelta\n", "\tfd := fractiondelta\n\tdeliver := func(o *boo.Options) { out <- o }\n"), (GR, "\tif err != nil {\n\t\tout <- O\n\t\treturn\n\t}\n\th :=", "\tif err != nil {\n\t\tdeliver(O)\n\t\treturn\n\t}\n\th :=")],
 "go-closure": [(GR, "\tgo MultiClassCrossValidation(D, nfold, conc)\n\n\tvar minerr", "\tgo func() { MultiClassCrossValidation(D, nfold, conc) }()\n\n\tvar minerr")],
 "go-closure-grid": [(CV, "go MultiClassCrossValidation(data, nfold, conc)", "go func() {\n\t\t\t\t\t\t\t\t\t\tMultiClassCrossValidation(data, nfold, conc)\n\t\t\t\t\t\t\t\t\t}()")],
 "shift-if": [(GR, "\tf := make(map[string][2]myf, 11)\n", "\t_ = \"table of changes\"\n\tf := make(map[string][2]myf, 11)\n")],
 "shift-switch": [(GR, "\tpO := f[param][1](O.Clone())\n", "\tpO := O.Clone()\n\tpO = f[param][1](pO)\n")],
 "gradacc-helper": [(GR, "\t\tvar err error\n\t\tconc := &Options{O: O, Acc: nil, Err: nil, Ochan: nil, Conc: false}\n\t\tcurracc, err = MultiClassCrossValidation(D, nfold, conc)\n", "\t\tvar err error\n\t\tcurracc, err = MultiClassCrossValidation(D, nfold, &Options{O: O})\n")],
 "report-defer": [(CV, "\tif opts.Conc {\n\t\topts.Err <- nil\n\t\topts.Acc <- mean\n\t\topts.Ochan <- opts.O\n\t}\n", "\topts.report(nil, mean, opts.O)\n"), (CV, "\t\t\tif opts.Conc {\n\t\t\t\topts.Err <- err\n\t\t\t\topts.Acc <- -1\n\t\t\t\topts.Ochan <- nil\n\t\t\t}\n", "\t\t\topts.report(err, -1, nil)\n"), (CV, "// Runs a nfold-cross-validation test", "func (o *Options) report(err error, acc float64, op *boo.Options) {\n\tif !o.Conc {\n\t\treturn\n\t}\n\to.Err <- err\n\to.Acc <- acc\n\to.Ochan <- op\n}\n\n// Runs a nfold-cross-validation test")],
}
