IDS = ["C06", "C07", "C18"]
CASES = {
 "labels-clone": [("multiclass.go", "	r := make([]int, len(M.classLabels))\n	copy(r, M.classLabels)\n	return r\n", "	return append([]int(nil), M.classLabels...)\n")],
 "labels-append": [("multiclass.go", "	r := make([]int, len(M.classLabels))\n	copy(r, M.classLabels)\n	return r\n", "	r := make([]int, 0, len(M.classLabels))\n	for _, l := range M.classLabels {\n		r = append(r, l)\n	}\n	return r\n")],
 "fill-row-helper": [("utils/stat.go", """		var add []float64
		if docopy {
			add = make([]float64, len(ori.Data[v]))
			copy(add, ori.Data[v])
		} else {
			add = ori.Data[v]
		}
		dest.Data = append(dest.Data, add)""", """		dest.Data = append(dest.Data, maybeCopy(ori.Data[v], docopy))"""), ("utils/stat.go", "// Fills ori", "func maybeCopy(row []float64, docopy bool) []float64 {\n	if !docopy {\n		return row\n	}\n	c := make([]float64, len(row))\n	copy(c, row)\n	return c\n}\n\n// Fills ori")],
 "fill-keys-var": [("utils/stat.go", "			dest.Keys = make([]string, len(ori.Keys))\n			copy(dest.Keys, ori.Keys)", "			keys := make([]string, len(ori.Keys))\n			for i := range keys {\n				keys[i] = ori.Keys[i]\n			}\n			dest.Keys = keys")],
 "fill-keys-append": [("utils/stat.go", "			dest.Keys = make([]string, len(ori.Keys))\n			copy(dest.Keys, ori.Keys)", "			dest.Keys = append(dest.Keys, ori.Keys...)")],
 "fill-direct-append": [("utils/stat.go", """		var add []float64
		if docopy {
			add = make([]float64, len(ori.Data[v]))
			copy(add, ori.Data[v])
		} else {
			add = ori.Data[v]
		}
		dest.Data = append(dest.Data, add)""", """		add := ori.Data[v]
		if docopy {
			add = append([]float64{}, add...)
		}
		dest.Data = append(dest.Data, add)""")],
 "fill-inplace-copy": [("utils/stat.go", """		var add []float64
		if docopy {
			add = make([]float64, len(ori.Data[v]))
			copy(add, ori.Data[v])
		} else {
			add = ori.Data[v]
		}""", """		add := ori.Data[v]
		if docopy {
			add = make([]float64, len(ori.Data[v]))
			copy(add, ori.Data[v])
		}""")],
 "next-defer": [("utils/json.go", "	var r uint\n	g.mu.Lock()\n	r = g.current + 1\n	g.current++\n	g.mu.Unlock()\n	return r\n", "	g.mu.Lock()\n	defer g.mu.Unlock()\n	g.current++\n	return g.current\n")],
 "add-helper": [("tree.go", """	index := slices.Index(f.feat, feature)
	if index >= 0 {
		f.gains[index] += gain
		return
	}
	f.feat = append(f.feat, feature)
	f.gains = append(f.gains, gain)
	return
}
""", """	f.add(feature, gain)
}

func (f *Feats) add(feature int, gain float64) {
	index := slices.Index(f.feat, feature)
	if index >= 0 {
		f.gains[index] += gain
		return
	}
	f.feat = append(f.feat, feature)
	f.gains = append(f.gains, gain)
}
""")],
 "add-no-defer": [("tree.go", """	defer f.m.Unlock()
	index := slices.Index(f.feat, feature)
	if index >= 0 {
		f.gains[index] += gain
		return
	}
	f.feat = append(f.feat, feature)
	f.gains = append(f.gains, gain)
	return
""", """	index := slices.Index(f.feat, feature)
	if index < 0 {
		f.feat = append(f.feat, feature)
		f.gains = append(f.gains, gain)
	} else {
		f.gains[index] += gain
	}
	f.m.Unlock()
""")],
 "grid-candidate-helper": [("cv/cv.go", """									t := defaultoptions()
									t.ColSubSample = css
									t.LearningRate = lr
									t.MaxDepth = md
									t.Rounds = rounds
									t.Lambda = lam
									t.Gamma = gam
									t.SubSample = ss
									t.MinChildWeight = cw
									t.XGB = o.XGB
									t.EarlyStop = o.EarlyStop
""", """									t := candidate(defaultoptions(), o, rounds, md, css, lr, lam, gam, ss, cw)
"""), ("cv/cv.go", "// Rescues cross", """func candidate(t *boo.Options, o *GridOptions, rounds, md int, css, lr, lam, gam, ss, cw float64) *boo.Options {
	t.ColSubSample = css
	t.LearningRate = lr
	t.MaxDepth = md
	t.Rounds = rounds
	t.Lambda = lam
	t.Gamma = gam
	t.SubSample = ss
	t.MinChildWeight = cw
	t.XGB = o.XGB
	t.EarlyStop = o.EarlyStop
	return t
}

// Rescues cross""")],
 "grid-start-helper": [("cv/cv.go", """									conc := &Options{O: t, Acc: accs[cpus], Err: errs[cpus], Ochan: os[cpus], Conc: true}
									go MultiClassCrossValidation(data, nfold, conc)
""", """									start(data, nfold, t, accs[cpus], errs[cpus], os[cpus])
"""), ("cv/cv.go", "// Rescues cross", """func start(data *utils.DataBunch, nfold int, t *boo.Options, acc chan float64, errc chan error, oc chan *boo.Options) {
	go MultiClassCrossValidation(data, nfold, &Options{O: t, Acc: acc, Err: errc, Ochan: oc, Conc: true})
}

// Rescues cross""")],
 "gradstep-clone-inside": [("cv/grad.go", "go ParamaterGradStep(D, O.Clone(), CVO", "mine := O.Clone()\n		go ParamaterGradStep(D, mine, CVO")],
 "gradstep-closure": [("cv/grad.go", "		go ParamaterGradStep(D, O.Clone(), CVO, k, step, fractiondelta, curracc, nfold, central, v)\n", "		mine := O.Clone()\n		go func() {\n			ParamaterGradStep(D, mine, CVO, k, step, fractiondelta, curracc, nfold, central, v)\n		}()\n")],
 "gradstep-list": [("cv/grad.go", "	for k, v := range gm {\n", "	names := []string{\"Gamma\", \"Lambda\", \"SubSample\", \"ColSubSample\", \"LearningRate\", \"Rounds\"}\n	for _, k := range names {\n		v := gm[k]\n")],
 "paramstep-eval-helper": [("cv/grad.go", """	pO := f[param][1](O.Clone())
	pluserr := make(chan error)
	pluso := make(chan *boo.Options)
	plusacc := make(chan float64)
	conc := &Options{O: pO, Acc: plusacc, Err: pluserr, Ochan: pluso, Conc: true}
	go MultiClassCrossValidation(D, nfold, conc)
""", """	pluserr, plusacc, pluso := evaluate(D, nfold, f[param][1](O.Clone()))
"""), ("cv/grad.go", """		minerr = make(chan error)
		mino = make(chan *boo.Options)
		minacc = make(chan float64)
		conc := &Options{O: mO, Acc: minacc, Err: minerr, Ochan: mino, Conc: true}
		go MultiClassCrossValidation(D, nfold, conc)
""", """		minerr, minacc, mino = evaluate(D, nfold, mO)
"""), ("cv/grad.go", "func GradStep", """func evaluate(D *utils.DataBunch, nfold int, o *boo.Options) (chan error, chan float64, chan *boo.Options) {
	e, a, c := make(chan error), make(chan float64), make(chan *boo.Options)
	go MultiClassCrossValidation(D, nfold, &Options{O: o, Acc: a, Err: e, Ochan: c, Conc: true})
	return e, a, c
}

func GradStep""")],
 "hybrid-o2-copy": [("cv/hybrid.go", "o2 := o.Clone()", "cp := *o\n					o2 := &cp")],
 "train-opts-copy": [("xgb.go", "		O = opts[0]\n", "		O = opts[0].Clone()\n		O.MinSample = max(O.MinSample, 0)\n")],
}
