IDS = ["C09", "C29", "C10", "C18"]
CV, GR, HY = "cv/cv.go", "cv/grad.go", "cv/hybrid.go"
CASES = {
 "param-nfold": [(GR, "conc := &Options{O: pO, Acc: plusacc, Err: pluserr, Ochan: pluso, Conc: true}\n\tgo MultiClassCrossValidation(D, nfold, conc)", "conc := &Options{O: pO, Acc: plusacc, Err: pluserr, Ochan: pluso, Conc: true}\n\tgo MultiClassCrossValidation(D, nfold+1, conc)")],
 "swap-recv": [(GR, "\terr := <-pluserr\n\tpacc := <-plusacc\n", "\tpacc := <-plusacc\n\terr := <-pluserr\n")],
 "no-drain": [(GR, "\t\t\t<-pluserr\n\t\t\t<-plusacc\n\t\t\t<-pluso\n", "\t\t\t<-pluserr\n\t\t\t<-plusacc\n")],
 "no-drain-all": [(GR, "\t\t\t<-pluserr\n\t\t\t<-plusacc\n\t\t\t<-pluso\n", "")],
 "no-restore": [(GR, "\tif checkAgainstOptions(O, CVO) != nil {\n\t\tO = prev\n\t}\n", "")],
 "no-restore-iter": [(GR, "\t\tO = prev.Clone() //the previous check failed\n", "")],
 "no-prevclone": [(GR, "\t\tO = prev.Clone() //the previous check failed\n", "\t\tO = prev\n")],
 "noclone-prev": [(GR, "\tprev := O.Clone()\n", "\tprev := O\n")],
 "send-order": [(CV, "\t\topts.Err <- nil\n\t\topts.Acc <- mean\n", "\t\topts.Acc <- mean\n\t\topts.Err <- nil\n")],
 "no-send-err": [(CV, "\t\t\tif opts.Conc {\n\t\t\t\topts.Err <- err\n\t\t\t\topts.Acc <- -1\n\t\t\t\topts.Ochan <- nil\n\t\t\t}\n", "\t\t\tif opts.Conc {\n\t\t\t\topts.Err <- err\n\t\t\t}\n")],
 "check-gamma": [(GR, "o.Gamma < co.Gamma[0] || o.Gamma > co.Gamma[1]", "o.Gamma < co.Gamma[0] || o.Gamma > co.Lambda[1]")],
 "check-col": [(GR, "o.SubSample > co.SubSample[1] || o.ColSubSample > co.ColSubSample[1]", "o.SubSample > co.SubSample[1] || o.ColSubSample > co.SubSample[1]")],
 "check-and": [(GR, "o.Lambda < co.Lambda[0] || o.Lambda > co.Lambda[1]", "o.Lambda < co.Lambda[0] && o.Lambda > co.Lambda[1]")],
 "check-le": [(GR, "o.Rounds > co.Rounds[1]", "o.Rounds > co.Rounds[1]+co.Rounds[2]")],
 "step-other": [(GR, "O.SubSample += der * CVO.SubSample[2] * st", "O.SubSample += der * CVO.ColSubSample[2] * st")],
 "take-other": [(GR, "O.ColSubSample = (<-gm[\"ColSubSample\"]).ColSubSample", "O.ColSubSample = (<-gm[\"ColSubSample\"]).SubSample")],
 "merge-all": [(GR, "\tO.Rounds = (<-gm[\"Rounds\"]).Rounds\n", "\tr := <-gm[\"Rounds\"]\n\tO.Rounds, O.MinChildWeight = r.Rounds, r.MinChildWeight\n\tO.Lambda = r.Lambda\n")],
 "current-wrong": [(GR, "\tcase \"ColSubSample\":\n\t\treturn O.ColSubSample\n", "\tcase \"ColSubSample\":\n\t\treturn O.SubSample\n")],
 "grad-nores": [(GR, "\tO.ColSubSample = (<-gm[\"ColSubSample\"]).ColSubSample\n", "\tif O.XGB {\n\t\tO.ColSubSample = (<-gm[\"ColSubSample\"]).ColSubSample\n\t}\n")],
 "noclone-worker": [(GR, "go ParamaterGradStep(D, O.Clone(), CVO", "go ParamaterGradStep(D, O, CVO")],
 "min-early": [(GR, "\tif err != nil {\n\t\tout <- O\n\t\treturn\n\t}\n\th :=", "\tif err != nil {\n\t\treturn\n\t}\n\th :=")],
 "double-send": [(GR, "\t\tif h <= 0 { //the derivative is not defined\n\t\t\tout <- O\n\t\t\treturn\n\t\t}\n\t\tder", "\t\tif h <= 0 { //the derivative is not defined\n\t\t\tout <- O\n\t\t}\n\t\tder")],
 "rescue-continue": [(CV, "\t\ttmpacc = <-accs[i]\n", "\t\tif err != nil && len(errors) > 1 {\n\t\t\tcontinue\n\t\t}\n\t\ttmpacc = <-accs[i]\n")],
 "grid-tail": [(CV, "rescueConcValues(errs[:cpus], accs[:cpus], os[:cpus]", "rescueConcValues(errs[:max(cpus-1,0)], accs[:max(cpus-1,0)], os[:max(cpus-1,0)]")],
 "err-first": [(GR, "\terr := <-pluserr\n\tpacc := <-plusacc\n", "\terr := <-pluserr\n\tif err != nil && !central {\n\t\tout <- O\n\t\treturn\n\t}\n\tpacc := <-plusacc\n")],
 "st-grow": [(GR, "st -= st * 0.2", "st -= 0.2")],
 "fixed-conc": [(CV, "if opts.Conc {\n\t\topts.Err <- nil", "if opts.Conc && evaluated > 0 {\n\t\topts.Err <- nil")],
}
