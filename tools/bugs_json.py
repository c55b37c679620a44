X="xjson.go"; U="utils/json.go"
IDS=["C01"]
CASES={
 "node-thr": [(X,"		Threshold:         t.threshold,","		Threshold:         float64(float32(t.threshold)),")],
 "node-nobr": [(X,"		branches:          j.Branches,\n","")],
 "node-nsam": [(X,"		nsamples:          j.Nsamples,","		nsamples:          len(j.Samples),")],
 "node-infxgb": [(X,"	if j.Leaf && !j.XGB {","	if j.Leaf {")],
 "node-neverinf": [(X,"	if j.Leaf && !j.XGB {\n		ret.bestScoreSoFar = math.Inf(0)\n	}\n	return ret","	_ = math.Inf\n	return ret")],
 "node-infout": [(X,"	if t.Leaf() && !t.xgb {\n","	if t.Leaf() && !t.xgb && t.nsamples > 1 {\n")],
 "node-value-leafonly": [(X,"		value:             j.Value,\n","").__class__((X,"	if j.Leaf && !j.XGB {","	if j.Leaf {\n		ret.value = j.Value\n	}\n	if j.Leaf && !j.XGB {"))],
 "node-feat": [(X,"		SplitFeatureIndex: t.splitFeatureIndex,","		SplitFeatureIndex: t.splitFeatureIndex &^ (1 << 12),")],
 "tag-omit": [(U,"	XGB               bool\n}","	XGB               bool `json:\"-\"`\n}")],
 "tag-clash": [(U,"	Threshold         float64\n","	Threshold         float64 `json:\"value\"`\n")],
 "tree-order": [(U,"	rslice = append(rslice, l...)\n	rslice = append(rslice, r...)","	rslice = append(rslice, r...)\n	rslice = append(rslice, l...)")],
 "tree-noright": [(U,"		ret.Rightid = rightid\n","		if rightid > leftidOf(ret) {\n			ret.Rightid = rightid\n		}\n"),(U,"// takes a JSON-able tree","func leftidOf(j *JSONNode) uint { return j.Leftid + 1 }\n\n// takes a JSON-able tree")],
 "tree-late": [(U,"	retstr, err := json.Marshal(ret)\n	if err != nil {","	if t.Leaf() {\n		ret.Leftid, ret.Rightid = 0, 0\n	}\n	retstr, err := json.Marshal(ret)\n	if err != nil {")],
 "tree-swallow": [(U,"	if errr != nil {\n		return nil, 0, errr\n	}\n","	_ = errr\n")],
 "read-left2": [(U,"	if j.Rightid > 0 {","	if j.Rightid > j.Leftid {")],
 "read-swap": [(U,"		ret.Rightf(r)\n","		if j.Rightid > j.Leftid+1 {\n			ret.Rightf(r)\n		} else {\n			ret.Leftf(r)\n		}\n")],
 "read-leaf": [(U,"	if j.Leftid > 0 {","	if j.Leftid > 0 && !j.Leaf {")],
 "id-zero": [(U,"	r = g.current + 1\n","	r = g.current\n")],
 "meta-lr": [(X,"	ret.learningRate = jmc.LearningRate\n","	ret.learningRate = jmc.LearningRate\n	if ret.learningRate <= 0 || ret.learningRate > 1 {\n		ret.learningRate = 0.1\n	}\n")],
 "meta-base": [(X,"		BaseScore:         m.baseScore,\n","")],
 "meta-labels": [(X,"	ret.classLabels = jmc.ClassLabels\n","	ret.classLabels = jmc.ClassLabels\n	sort.Ints(ret.classLabels)\n"),(X,"	\"strings\"\n","	\"sort\"\n	\"strings\"\n")],
 "meta-xgb": [(X,"	ret.xgb = jmc.XGB\n","")],
 "meta-default": [(X,"	if !ok {\n		return nil, fmt.Errorf(\"Unknown probability transform in metadata: %q\", jmc.ProbTransformName)\n	}\n","	if !ok {\n		transform = utils.SoftMaxDense\n	}\n")],
 "model-lastround": [(X,"	if class != nil { //the last round has no ROUND line after it","	if len(class) == len(ret.classLabels) { //the last round has no ROUND line after it")],
 "model-flush": [(X,"			if class != nil {\n				trees = append(trees, class)\n			}\n","			if len(class) > 0 {\n				trees = append(trees, class)\n			}\n")],
 "model-reuse": [(X,"			class = make([]*Tree, 0, 1)\n","			class = class[:0]\n			if class == nil {\n				class = make([]*Tree, 0, 1)\n			}\n")],
 "model-trunc": [(X,"	if s != \"\" {\n		return nil, fmt.Errorf(\"Incomplete last line in file: %s\", s)\n	}\n","")],
 "model-skipclass": [(X,"			tree, _, err := utils.JSONTree(class)\n","			if class.Leaf() {\n				continue\n			}\n			tree, _, err := utils.JSONTree(class)\n")],
 "model-labels": [(X,"strings.Contains(s, \"CLASS\")","strings.Contains(s, \"CLASS 0\") || strings.Contains(s, \"CLASS 1\")")],
 "model-err": [(X,"			if err != nil {\n				return err\n			}\n		}\n	}\n	return nil","			_ = err\n		}\n	}\n	return nil")],
 "model-sep": [(X,'bytes.Join(tree, []byte("\\n"))','bytes.Join(tree, []byte(" "))')],
 "left-only": [(X,"	if l != nil {\n		T.left = l.(*Tree)\n	}","	if l != nil && T.left == nil {\n		T.left = l.(*Tree)\n	}")],
 "right-left": [(X,"		T.right = r.(*Tree)\n","		T.right = r.(*Tree)\n		if T.left == nil {\n			T.left = T.right\n		}\n")],
 "use-features": [("multiclass.go","func (M *MultiClass) Classes() int {","func (M *MultiClass) Feats() int {\n	return M.b[0][0].features\n}\n\nfunc (M *MultiClass) Classes() int {"),("multiclass.go","	return len(M.classLabels)\n","	if len(M.b) > 0 && len(M.b[0]) > 0 && M.Feats() < 0 {\n		return 0\n	}\n	return len(M.classLabels)\n")],
}
CASES["node-value-leafonly"]=[(X,"		value:             j.Value,\n",""),(X,"	if j.Leaf && !j.XGB {","	if j.Leaf {\n		ret.value = j.Value\n	}\n	if j.Leaf && !j.XGB {")]
