X="xjson.go"; U="utils/json.go"
IDS=["C01","C14","C15"]
CASES={
 "node-const": [(X,"		bs = 0.1189998819991197253\n","		bs = leafScore\n"),(X,"func (t *Tree) JNode","const leafScore = 0.1189998819991197253\n\nfunc (t *Tree) JNode")],
 "node-leafvar": [(X,"	bs := t.bestScoreSoFar\n	if t.Leaf() && !t.xgb {","	leaf := t.Leaf()\n	bs := t.bestScoreSoFar\n	if !t.xgb && leaf {"),(X,"		Leaf:              t.Leaf(),","		Leaf:              leaf,")],
 "node-assign": [(X,"		Leftid:            0,\n		Rightid:           0,\n","")],
 "node-early": [(X,"	if len(addsamples) > 0 && addsamples[0] {\n		ret.Samples = t.samples\n	}\n	return ret","	if len(addsamples) == 0 || !addsamples[0] {\n		return ret\n	}\n	ret.Samples = t.samples\n	return ret")],
 "node-scorehelper": [(X,"	bs := t.bestScoreSoFar\n	if t.Leaf() && !t.xgb {\n		bs = 0.1189998819991197253\n	}\n","	bs := t.storedScore()\n"),(X,"func (t *Tree) JNode","func (t *Tree) storedScore() float64 {\n	if t.xgb || !t.Leaf() {\n		return t.bestScoreSoFar\n	}\n	return 0.1189998819991197253\n}\n\nfunc (t *Tree) JNode")],
 "creator-new": [(X,"	ret := &Tree{\n		bestScoreSoFar:    j.BestScoreSoFar,\n		value:             j.Value,\n","	ret := &Tree{\n		value:             j.Value,\n"),(X,"	if j.Leaf && !j.XGB {\n		ret.bestScoreSoFar = math.Inf(0)\n	}\n	return ret","	switch {\n	case j.Leaf && !j.XGB:\n		ret.bestScoreSoFar = math.Inf(1)\n	default:\n		ret.bestScoreSoFar = j.BestScoreSoFar\n	}\n	return ret")],
 "left-flip": [(X,"	if l != nil {\n		T.left = l.(*Tree)\n	}\n\n	if T.left == nil {\n		return nil\n	}\n	return T.left","	if l != nil {\n		T.left = l.(*Tree)\n	}\n	if T.left != nil {\n		return T.left\n	}\n	return nil")],
 "id-defer": [(U,"	var r uint\n	g.mu.Lock()\n	r = g.current + 1\n	g.current++\n	g.mu.Unlock()\n	return r\n","	g.mu.Lock()\n	defer g.mu.Unlock()\n	g.current++\n	return g.current\n")],
 "tree-child": [(U,"	if t.Leftf(nil) != nil {\n		var leftid uint\n		l, leftid, errl = JSONTree(t.Leftf(nil), id)\n		ret.Leftid = leftid\n	}","	if left := t.Leftf(nil); left != nil {\n		l, ret.Leftid, errl = JSONTree(left, id)\n	}")],
 "tree-errearly": [(U,"		l, leftid, errl = JSONTree(t.Leftf(nil), id)\n","		l, leftid, errl = JSONTree(t.Leftf(nil), id)\n		if errl != nil {\n			return nil, 0, errl\n		}\n")],
 "tree-errfirst": [(U,"	retstr, err := json.Marshal(ret)\n	if err != nil {\n		return nil, 0, errors.Join(fmt.Errorf(\"Error in id: %d, that has %d branches under it: %v\", ID, ret.Branches, ret), err)\n	}\n	rslice := [][]byte{retstr}\n	if errl != nil {\n		return nil, 0, errl\n	}\n	if errr != nil {\n		return nil, 0, errr\n	}\n","	if errl != nil {\n		return nil, 0, errl\n	}\n	if errr != nil {\n		return nil, 0, errr\n	}\n	retstr, err := json.Marshal(ret)\n	if err != nil {\n		return nil, 0, errors.Join(fmt.Errorf(\"Error in id: %d, that has %d branches under it: %v\", ID, ret.Branches, ret), err)\n	}\n	rslice := [][]byte{retstr}\n")],
 "tree-onedash": [(U,"	rslice = append(rslice, l...)\n	rslice = append(rslice, r...)\n	return rslice, ID, err","	return append(append(rslice, l...), r...), ID, nil")],
 "tree-giver": [(U,"	var id *idGiver\n	if len(ids) == 0 {\n		id = &idGiver{} //first tree, the next ID will be one\n	} else {\n		id = ids[0]\n	}\n","	id := giver(ids)\n"),(U,"// takes a JSON-able tree","func giver(ids []*idGiver) *idGiver {\n	if len(ids) > 0 {\n		return ids[0]\n	}\n	return new(idGiver)\n}\n\n// takes a JSON-able tree")],
 "read-helper": [(U,"		s, err := r.ReadString('\\n')\n		if err != nil {\n			return nil, err\n		}\n		l, err := UnJSONTree(s, r, creator)\n		if err != nil {\n			return ret, err\n		}\n		ret.Leftf(l)","		l, err := child(r, creator)\n		if err != nil {\n			return ret, err\n		}\n		ret.Leftf(l)"),(U,"		s, err := r.ReadString('\\n')\n		if err != nil {\n			return nil, err\n		}\n\n		r, err := UnJSONTree(s, r, creator)\n		if err != nil {\n			return ret, err\n		}\n		ret.Rightf(r)\n","		c, err := child(r, creator)\n		if err != nil {\n			return ret, err\n		}\n		ret.Rightf(c)\n"),(U,"// takes a JSON-able tree","func child(r *bufio.Reader, creator func(*JSONNode) JTree) (JTree, error) {\n	s, err := r.ReadString('\\n')\n	if err != nil {\n		return nil, err\n	}\n	return UnJSONTree(s, r, creator)\n}\n\n// takes a JSON-able tree")],
 "read-value": [(U,"	j := new(JSONNode)\n	err := json.Unmarshal([]byte(str), j)\n	if err != nil {\n		return nil, err\n	}\n	ret := creator(j)","	var j JSONNode\n	if err := json.Unmarshal([]byte(str), &j); err != nil {\n		return nil, err\n	}\n	ret := creator(&j)")],
 "read-ne": [(U,"	if j.Leftid > 0 {","	if j.Leftid != 0 {"),(U,"	if j.Rightid > 0 {","	if j.Rightid != 0 {")],
 "meta-helper": [(X,"	s, err := r.ReadString('\\n')\n	if err != nil {\n		return nil, fmt.Errorf(\"Error reading metadata from file: %v\", err)\n	}\n	err = json.Unmarshal([]byte(s), jmc)\n	if err != nil {\n		return nil, fmt.Errorf(\"Error unmarshalling metadata: %v\", err)\n	}\n","	s := \"\"\n	err := readMeta(r, jmc)\n	if err != nil {\n		return nil, err\n	}\n"),(X,"func UnJSONMultiClass","func readMeta(r *bufio.Reader, jmc *JSONMetaData) error {\n	s, err := r.ReadString('\\n')\n	if err != nil {\n		return fmt.Errorf(\"Error reading metadata from file: %v\", err)\n	}\n	if err := json.Unmarshal([]byte(s), jmc); err != nil {\n		return fmt.Errorf(\"Error unmarshalling metadata: %v\", err)\n	}\n	return nil\n}\n\nfunc UnJSONMultiClass")],
 "meta-lit": [(X,"	ret.learningRate = jmc.LearningRate\n	ret.classLabels = jmc.ClassLabels\n",""),(X,"	ret.probTransform = transform\n	ret.baseScore = jmc.BaseScore\n	ret.xgb = jmc.XGB\n","	ret = &MultiClass{learningRate: jmc.LearningRate, classLabels: jmc.ClassLabels, probTransform: transform, baseScore: jmc.BaseScore, xgb: jmc.XGB}\n")],
 "meta-nl": [(X,"	j = append(j, '\\n')\n	return j, nil","	return append(j, \"\\n\"...), nil")],
 "model-eof": [(X,"	if err.Error() != \"EOF\" {","	if err != io.EOF {"),(X,"	\"fmt\"\n","	\"fmt\"\n	\"io\"\n")],
 "model-line": [(X,"		if strings.Contains(s, \"CLASS\") {\n			continue\n		}\n		jtree, err := utils.UnJSONTree(s, r, creator)\n		if err != nil {\n			return nil, fmt.Errorf(\"Error reading tree %d round %d, class %d: %v\", cont, nround, nclass, err)\n		}\n		class = append(class, jtree.(*Tree))\n		nclass++\n		cont++\n","		if !strings.Contains(s, \"CLASS\") {\n			jtree, err := utils.UnJSONTree(s, r, creator)\n			if err != nil {\n				return nil, fmt.Errorf(\"Error reading tree %d round %d, class %d: %v\", cont, nround, nclass, err)\n			}\n			class = append(class, jtree.(*Tree))\n			nclass++\n			cont++\n		}\n")],
 "model-for": [(X,"	for {\n		s, err = r.ReadString('\\n')\n		if err != nil {\n			break\n		}\n		if strings","	for s, err = r.ReadString('\\n'); err == nil; s, err = r.ReadString('\\n') {\n		if strings")],
 "model-ret": [(X,"	for {\n		s, err = r.ReadString('\\n')\n		if err != nil {\n			break\n		}\n		if strings","	for {\n		s, err = r.ReadString('\\n')\n		if err == io.EOF {\n			break\n		}\n		if err != nil {\n			return nil, err\n		}\n		if strings"),(X,"	if err.Error() != \"EOF\" {\n		return nil, fmt.Errorf(\"Error reading of trees lines from file: %v\", err)\n\n	}\n",""),(X,"	\"fmt\"\n","	\"fmt\"\n	\"io\"\n")],
 "write-helper": [(X,"			tree, _, err := utils.JSONTree(class)\n			if err != nil {\n				return err\n			}\n			_, err = w.WriteString(string(bytes.Join(tree, []byte(\"\\n\"))) + \"\\n\")\n			if err != nil {\n				return err\n			}\n","			if err := writeTree(class, w); err != nil {\n				return err\n			}\n"),(X,"type JSONMetaData struct","func writeTree(t *Tree, w writestringer) error {\n	tree, _, err := utils.JSONTree(t)\n	if err != nil {\n		return err\n	}\n	_, err = w.WriteString(string(bytes.Join(tree, []byte(\"\\n\"))) + \"\\n\")\n	return err\n}\n\ntype JSONMetaData struct")],
 "write-round": [(X,"		_, err = w.WriteString(fmt.Sprintf(\"ROUND %d\\n\", rn))\n		if err != nil {\n			return err\n		}\n		for cn, class := range round {\n			_, err = w.WriteString(fmt.Sprintf(\"CLASS %d, label: %d \\n\", cn, m.classLabels[cn]))\n			if err != nil {\n				return err\n			}\n","		if _, err := w.WriteString(\"ROUND \" + strconv.Itoa(rn) + \"\\n\"); err != nil {\n			return err\n		}\n		for cn, class := range round {\n			head := fmt.Sprintf(\"CLASS %d, label: %d \\n\", cn, m.classLabels[cn])\n			if _, err := w.WriteString(head); err != nil {\n				return err\n			}\n"),(X,"	\"math\"\n	\"strings\"","	\"math\"\n	\"strconv\"\n	\"strings\"")],
 "write-idx": [(X,"	for rn, round := range m.b {","	for rn := 0; rn < len(m.b); rn++ {\n		round := m.b[rn]")],
 "write-closure": [(X,"	_, err = w.WriteString(string(j))\n	if err != nil {\n		return err\n	}\n","	put := func(s string) error {\n		_, err := w.WriteString(s)\n		return err\n	}\n	if err = put(string(j)); err != nil {\n		return err\n	}\n"),(X,"		_, err = w.WriteString(fmt.Sprintf(\"ROUND %d\\n\", rn))\n		if err != nil {","		if err = put(fmt.Sprintf(\"ROUND %d\\n\", rn)); err != nil {")],
}
