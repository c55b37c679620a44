IDS = ["C06", "C07", "C18"]
CASES = {
 "c06-distinct-compact": [("utils/libsvm.go", """	diff := make(S, 0, len(s)/2)
	for _, v := range s {""", """	diff := s[:0]
	for _, v := range s {""")],
 "c06-argsort-inplace": [("utils/math.go", """	r := &idSorter{i: tmpint, a: tmpval}
	sort.Sort(r)
	return r.i, r.a
}

// Returns the indexes that would sort the given slice
// and also the sorted slice. It doesn't touch the original slice!
func ArgSort""", """	r := &idSorter{i: tmpint, a: target}
	sort.Sort(r)
	return r.i, r.a
}

// Returns the indexes that would sort the given slice
// and also the sorted slice. It doesn't touch the original slice!
func ArgSort""")],
 "c06-minchild-in-options": [("xgb.go", """	minChildWeight := O.MinChildWeight
	if minChildWeight < 1 {
		minChildWeight = 1
	}""", """	if O.MinChildWeight < 1 {
		O.MinChildWeight = 1
	}
	minChildWeight := O.MinChildWeight""")],
 "c06-hybrid-no-clone": [("cv/hybrid.go", "o2 := o.Clone()", "o2 := o")],
 "c06-gradworker-no-clone": [("cv/grad.go", "	O := Op.Clone()\n", "	O := Op\n")],
 "c06-csv-keys-append": [("utils/stat.go", "			dest.Keys = make([]string, len(ori.Keys))\n			copy(dest.Keys, ori.Keys)", "			dest.Keys = ori.Keys\n			copy(dest.Keys[1:], ori.Keys)")],
 "c06-accuracy-normalise": [("multiclass.go", "	for i, v := range instances {\n		p := M", "	for i, v := range instances {\n		for j := range v {\n			if v[j] != v[j] {\n				v[j] = 0\n			}\n		}\n		p := M")],
 "c07-tmp-reuse": [("multiclass.go", "	tmp := make([]float64, M.Classes())\n", "	if len(M.tmp) != M.Classes() {\n		M.tmp = make([]float64, M.Classes())\n	}\n	tmp := M.tmp\n")],
 "c07-labels-uncopied": [("multiclass.go", "	r := make([]int, len(M.classLabels))\n	copy(r, M.classLabels)\n	return r\n", "	return M.classLabels\n")],
 "c07-labels-slice": [("multiclass.go", "	r := make([]int, len(M.classLabels))\n	copy(r, M.classLabels)\n	return r\n", "	return M.classLabels[:len(M.classLabels):len(M.classLabels)]\n")],
 "c07-jnode-id": [("xjson.go", "	ret := &utils.JSONNode{", "	t.id = int(id)\n	ret := &utils.JSONNode{")],
 "c07-json-global": [("xjson.go", "func JSONMultiClass(m *MultiClass, activationfunctionname string, w writestringer) error {\n", "func JSONMultiClass(m *MultiClass, activationfunctionname string, w writestringer) error {\n	ProbTransformMap[activationfunctionname] = m.probTransform\n")],
 "c18-gradstep-no-clone": [("cv/grad.go", "go ParamaterGradStep(D, O.Clone(), CVO", "go ParamaterGradStep(D, O, CVO"), ("cv/grad.go", "	O := Op.Clone()\n", "	O := Op\n")],
 "c18-gradstep-no-clone2": [("cv/grad.go", "go ParamaterGradStep(D, O.Clone(), CVO", "go ParamaterGradStep(D, O, CVO")],
 "c18-grid-shared-t": [("cv/cv.go", "									t := defaultoptions()\n", ""), ("cv/cv.go", "	cpus := 0\n	for rounds", "	cpus := 0\n	t := defaultoptions()\n	for rounds")],
 "c18-grid-hoist-t": [("cv/cv.go", "									t := defaultoptions()\n", ""), ("cv/cv.go", "							for gam := o.Gamma[0]", "							t := defaultoptions()\n							for gam := o.Gamma[0]")],
 "c18-grid-conc-shared": [("cv/cv.go", "									conc := &Options{O: t, Acc: accs[cpus], Err: errs[cpus], Ochan: os[cpus], Conc: true}\n", "									conc.O, conc.Acc, conc.Err, conc.Ochan, conc.Conc = t, accs[cpus], errs[cpus], os[cpus], true\n"), ("cv/cv.go", "	cpus := 0\n	for rounds", "	cpus := 0\n	conc := new(Options)\n	for rounds")],
 "c18-add-unlocked-index": [("tree.go", "	f.m.Lock()\n	defer f.m.Unlock()\n	index := slices.Index(f.feat, feature)\n", "	index := slices.Index(f.feat, feature)\n	f.m.Lock()\n	defer f.m.Unlock()\n")],
 "c18-add-early-unlock": [("tree.go", "	defer f.m.Unlock()\n	index := slices.Index(f.feat, feature)\n	if index >= 0 {\n		f.gains[index] += gain\n		return\n	}\n", "	index := slices.Index(f.feat, feature)\n	if index >= 0 {\n		f.m.Unlock()\n		f.gains[index] += gain\n		return\n	}\n	defer f.m.Unlock()\n")],
 "c18-add-split": [("tree.go", "	defer f.m.Unlock()\n	index := slices.Index(f.feat, feature)\n", "	index := slices.Index(f.feat, feature)\n	f.m.Unlock()\n	f.m.Lock()\n	defer f.m.Unlock()\n")],
 "c18-next-read-late": [("utils/json.go", "	r = g.current + 1\n	g.current++\n	g.mu.Unlock()\n	return r\n", "	g.current++\n	g.mu.Unlock()\n	r = g.current\n	return r\n")],
 "c18-share-po": [("cv/grad.go", "		mO := f[param][0](O.Clone())\n", "		mO := f[param][0](pO)\n")],
 "c18-grad-error-capture": [("cv/grad.go", "	conc := &Options{O: pO, Acc: plusacc, Err: pluserr, Ochan: pluso, Conc: true}\n	go MultiClassCrossValidation(D, nfold, conc)\n\n	var minerr", "	conc := &Options{O: O, Acc: plusacc, Err: pluserr, Ochan: pluso, Conc: true}\n	_ = pO\n	go MultiClassCrossValidation(D, nfold, conc)\n	O.MinSample = 1\n\n	var minerr")],
}
