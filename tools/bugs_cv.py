IDS = ["C10", "C11", "C17"]
CV, GR, HY = "cv/cv.go", "cv/grad.go", "cv/hybrid.go"
CASES = {
 "noclone": [(GR, "finaloptions = t.Clone() //t itself is changed by the next steps", "finaloptions = t")],
 "lt-lambda": [(CV, "lam <= o.Lambda[1]; lam += o.Lambda[2]", "lam < o.Lambda[1]; lam += o.Lambda[2]")],
 "step-swap": [(CV, "css <= o.ColSubSample[1]; css += o.ColSubSample[2]", "css <= o.ColSubSample[1]; css += o.SubSample[2]")],
 "swap-lam-gam": [(CV, "t.Lambda = lam\n\t\t\t\t\t\t\t\t\tt.Gamma = gam", "t.Lambda = gam\n\t\t\t\t\t\t\t\t\tt.Gamma = lam")],
 "nfold": [(HY, "MultiClassCrossValidation(data, nfold,", "MultiClassCrossValidation(data, 5,")],
 "noearly": [(CV, "\t\t\t\t\t\t\t\t\tt.EarlyStop = o.EarlyStop\n", "")],
 "bestop-stale": [(CV, "\t\t\tbestop = tmpop\n", "\t\t\tif tmpop != nil && bestop == nil {\n\t\t\t\tbestop = tmpop\n\t\t\t}\n")],
 "best-reset": [(CV, "\tfor rounds := o.Rounds[0]; rounds <= o.Rounds[1]; rounds += o.Rounds[2] {\n\t\tfor cw", "\tfor rounds := o.Rounds[0]; rounds <= o.Rounds[1]; rounds += o.Rounds[2] {\n\t\tbestacc = 0\n\t\tfor cw")],
 "ge-best": [(CV, "if tmpacc > bestacc {", "if tmpacc >= bestacc-1e-9 {")],
 "gradstep-nfold": [(GR, "t = GradStep(t, o, data, o.Step, o.DeltaFraction, nfold, o.Central, nil)", "t = GradStep(t, o, data, o.Step, o.DeltaFraction, max(nfold, 2), o.Central, nil)")],
 "acc-all": [(CV, "mean = accus / float64(evaluated)", "mean = accus / float64(n)")],
 "train-acc": [(CV, "a := b.Accuracy(test)", "a := b.Accuracy(train)")],
 "drop-last": [(CV, "for i := 0; i < n; i++ {\n\t\tvar b", "for i := 0; i < n-1; i++ {\n\t\tvar b")],
 "reuse-t": [(CV, "\t//welcome to nested-hell. Sorry.\n", "\tshared := defaultoptions()\n"), (CV, "t := defaultoptions()\n\t\t\t\t\t\t\t\t\tt.ColSubSample", "t := shared\n\t\t\t\t\t\t\t\t\tt.ColSubSample")],
 "prev-acc": [(GR, "bestacc = acc\n", "bestacc = max(acc, accuracies[0])\n")],
 "worse-ok": [(GR, "if acc > bestacc {", "if acc > bestacc || finaloptions == nil {")],
 "defaults-x": [(CV, "\tif o.XGB {\n\t\tdefaultoptions = boo.DefaultXOptions\n\t}", "\tif o.XGB || o.NCPUs > 1 {\n\t\tdefaultoptions = boo.DefaultXOptions\n\t}")],
 "sent-acc": [(CV, "opts.Acc <- mean", "opts.Acc <- accus / float64(n)")],
 "leftover": [(CV, "rescueConcValues(errs[:cpus], accs[:cpus], os[:cpus], bestacc, finaloptions", "rescueConcValues(errs[:cpus], accs[:cpus], os[:cpus], bestacc, nil")],
 "hy-final-prev": [(HY, "finaloptions = t.Clone()", "finaloptions = tprev.Clone()")],
}
CASES["gr-final-prev"] = [(GR, "finaloptions = t.Clone()", "finaloptions = tprev.Clone()")]
CASES["hy-noclone"] = [(HY, "finaloptions = t.Clone()", "finaloptions = t")]
CASES["hy-fuzz-t"] = [(HY, "return fuzzOptions(tprev), nil", "return fuzzOptions(t), nil")]
