M,O,LA,MA,SO,CO="multiclass.go","options.go","utils/loss_acti.go","utils/math.go","utils/sorter.go","confu/confu.go"
IDS="C01 C02 C03 C04 C05 C06 C07 C12 C16 C17 C18 C19 C20 C21 C22 C23 C25 C26 C27 C28".split()
CASES={
 # multiclass
 "labels-append": [(M,"	r := make([]int, len(M.classLabels))\n	copy(r, M.classLabels)\n	return r","	return append([]int{}, M.classLabels...)")],
 "labels-loop": [(M,"	r := make([]int, len(M.classLabels))\n	copy(r, M.classLabels)\n	return r","	r := make([]int, 0, len(M.classLabels))\n	for _, l := range M.classLabels {\n		r = append(r, l)\n	}\n	return r")],
 "acc-idx": [(M,"	for i, v := range instances {\n		p := M.PredictSingleClass(v, predtmp)\n		if M","	for i := 0; i < len(instances); i++ {\n		p := M.PredictSingleClass(instances[i], predtmp)\n		if M")],
 "acc-early": [(M,"		if M.classLabels[p] == actualclasses[i] {\n			right++\n		}\n","		if M.classLabels[p] != actualclasses[i] {\n			continue\n		}\n		right++\n")],
 "acc-helper": [(M,"		p := M.PredictSingleClass(v, predtmp)\n		if M.classLabels[p] == actualclasses[i] {","		if M.predictLabel(v, predtmp) == actualclasses[i] {"),(M,"// Returns the number of classes, i","func (M *MultiClass) predictLabel(v, tmp []float64) int {\n	return M.classLabels[M.PredictSingleClass(v, tmp)]\n}\n\n// Returns the number of classes, i")],
 "acc-wrong": [(M,"	right := 0\n	instances","	wrong := 0\n	instances"),(M,"		if M.classLabels[p] == actualclasses[i] {\n			right++","		if M.classLabels[p] != actualclasses[i] {\n			wrong++"),(M,"float64(right) /","float64(len(instances)-wrong) /")],
 "acc-nolocals": [(M,"	instances := D.Data\n	actualclasses := D.Labels\n",""),(M,"range instances {\n		p","range D.Data {\n		p"),(M,"actualclasses[i]","D.Labels[i]"),(M,"float64(len(instances)))","float64(len(D.Data)))")],
 "rounds-switch": [(M,"	c := 0\n	if len(class) > 0 && class[0] >= 0 {\n		c = class[0]\n	}\n	if c","	var c int\n	switch {\n	case len(class) == 0:\n	case class[0] < 0:\n	default:\n		c = class[0]\n	}\n	if c")],
 "rounds-cont": [(M,"		if c < len(round) && round[c].nsamples > 0 { //no samples: the class had already stopped\n			rounds++\n		}","		if c >= len(round) {\n			continue\n		}\n		if round[c].nsamples <= 0 {\n			continue\n		}\n		rounds++")],
 "rounds-helper": [(M,"		if c < len(round) && round[c].nsamples > 0 { //no samples: the class had already stopped\n			rounds++\n		}","		if boosted(round, c) {\n			rounds++\n		}"),(M,"// Returns the number of classes, i","func boosted(round []*Tree, c int) bool {\n	return c < len(round) && round[c].nsamples > 0\n}\n\n// Returns the number of classes, i")],
 "psc-idx": [(M,"	for i, v := range preds {\n		if v > maxval {\n			prediction = i\n			maxval = v\n		}\n	}","	for i := 1; i < len(preds); i++ {\n		if preds[i] > preds[prediction] {\n			prediction = i\n		}\n	}"),(M,"	maxval := preds[0]\n","")],
 "psc-range1": [(M,"	for i, v := range preds {\n		if v > maxval {\n			prediction = i\n","	for i, v := range preds[1:] {\n		if v > maxval {\n			prediction = i + 1\n")],
 "psc-helper": [(M,"	prediction := 0\n	maxval := preds[0]\n	for i, v := range preds {\n		if v > maxval {\n			prediction = i\n			maxval = v\n		}\n	}\n	return prediction","	return argmax(preds)"),(M,"// Returns the number of classes, i","func argmax(v []float64) int {\n	best := 0\n	for i := range v {\n		if v[i] > v[best] {\n			best = i\n		}\n	}\n	return best\n}\n\n// Returns the number of classes, i")],
 "ps-flip": [(M,"	var preds []float64\n	if len(predictions) > 0 && len(predictions[0]) >= M.Classes() {\n		preds = predictions[0][:M.Classes()]\n	} else {\n		preds = make([]float64, M.Classes())\n	}\n	tmp := make([]float64, M.Classes())","	n := M.Classes()\n	var preds []float64\n	if len(predictions) == 0 || len(predictions[0]) < n {\n		preds = make([]float64, n)\n	} else {\n		preds = predictions[0][:n]\n	}\n	tmp := make([]float64, n)")],
 "ps-default": [(M,"	var preds []float64\n	if len(predictions) > 0 && len(predictions[0]) >= M.Classes() {\n		preds = predictions[0][:M.Classes()]\n	} else {\n		preds = make([]float64, M.Classes())\n	}\n","	preds := make([]float64, M.Classes())\n	if len(predictions) > 0 && len(predictions[0]) >= M.Classes() {\n		preds = predictions[0][:M.Classes()]\n	}\n")],
 "ps-raw": [(M,"	tmp := make([]float64, M.Classes())\n	for i := range tmp {\n		tmp[i] = M.baseScore\n	}\n	for _, ensemble := range M.b {\n		for class, tree := range ensemble {\n			tmp[class] += tree.PredictSingle(instance) * M.learningRate\n		}\n	}\n","	tmp := M.rawScores(instance)\n"),(M,"// Returns the number of classes, i","func (M *MultiClass) rawScores(instance []float64) []float64 {\n	tmp := make([]float64, M.Classes())\n	for i := range tmp {\n		tmp[i] = M.baseScore\n	}\n	for _, ensemble := range M.b {\n		for class, tree := range ensemble {\n			tmp[class] += M.learningRate * tree.PredictSingle(instance)\n		}\n	}\n	return tmp\n}\n\n// Returns the number of classes, i")],
 "ps-append": [(M,"	tmp := make([]float64, M.Classes())\n	for i := range tmp {\n		tmp[i] = M.baseScore\n	}\n","	tmp := make([]float64, 0, M.Classes())\n	for len(tmp) < M.Classes() {\n		tmp = append(tmp, M.baseScore)\n	}\n")],
 "ps-d": [(M,"	D = M.probTransform(O, D)\n	preds = D.RawMatrix().Data\n	return preds //SHOULD","	return M.probTransform(O, D).RawMatrix().Data //SHOULD")],
 "ps-split": [(M,"			tmp[class] += tree.PredictSingle(instance) * M.learningRate\n","			out := tree.PredictSingle(instance)\n			tmp[class] = tmp[class] + out*M.learningRate\n")],
 "fi-idx": [(M,"	for round, ensemble := range M.b {\n		for class, tree := range ensemble {\n			_, err := tree.Feat","	for round := range M.b {\n		for class := range M.b[round] {\n			_, err := M.b[round][class].Feat")],
 "fi-iferr": [(M,"			_, err := tree.FeatureImportance(M.xgb, ret)\n			if err != nil {","			if _, err := tree.FeatureImportance(M.xgb, ret); err != nil {")],
 # options
 "eq-expr": [(O,"	if O.Verbose != o.Verbose {\n		return false\n	}\n	if O.MinSample != o.MinSample {\n		return false\n	}\n	return true","	return O.Verbose == o.Verbose && o.MinSample == O.MinSample")],
 "eq-or": [(O,"	if O.XGB != o.XGB {\n		return false\n	}\n	if O.Rounds != o.Rounds {\n		return false\n	}\n","	if o.XGB != O.XGB || O.Rounds != o.Rounds {\n		return false\n	}\n")],
 "eq-deref": [(O,"	if O.XGB != o.XGB {","	if *O == *o {\n		return true\n	}\n	if O.XGB != o.XGB {")],
 "clone-star": [(O,"	O := new(Options)\n	O.XGB = o.XGB\n","	O := new(Options)\n	*O = *o\n	O.XGB = o.XGB\n")],
 "clone-copy": [(O,"	O := new(Options)\n	O.XGB = o.XGB\n","	c := *o\n	O := &c\n	O.XGB = o.XGB\n")],
 "clone-lit": [(O,"	O := new(Options)\n	O.XGB = o.XGB\n	O.Rounds = o.Rounds\n	O.SubSample = o.SubSample\n","	O := &Options{XGB: o.XGB, Rounds: o.Rounds, SubSample: o.SubSample}\n")],
 "def-lit": [(O,"	O := new(Options)\n	O.XGB = false\n	O.Rounds = 10\n","	O := &Options{Rounds: 10}\n")],
 # loss
 "loss-den": [(LA,"	l := 0.0\n	n := 0\n	for _, v := range m {\n		l += v\n		n++\n	}\n	return l / float64(n)\n\n}\n\n// Returns the results matrix filled witht he negative gradients.\n// if a nil results is given, it will allocate a new matrix and return it.\nfunc (m *SQ","	l := 0.0\n	for _, v := range m {\n		l += v\n	}\n	return l / float64(len(m))\n\n}\n\n// Returns the results matrix filled witht he negative gradients.\n// if a nil results is given, it will allocate a new matrix and return it.\nfunc (m *SQ")],
 "loss-shared": [(LA,"	r, c := y.Dims()\n	if loss == nil {\n		loss = mat.NewDense(r, c, nil)\n	}\n	loss.Sub(y, pred)\n	loss.MulElem(loss, loss)\n	m := loss.RawMatrix().Data\n	l := 0.0\n	n := 0\n	for _, v := range m {\n		l += v\n		n++\n	}\n	return l / float64(n)\n\n}\n\nfunc (m *MSELoss) Name","	return meanSquare(y, pred, loss)\n}\n\nfunc meanSquare(y, pred, loss *mat.Dense) float64 {\n	r, c := y.Dims()\n	if loss == nil {\n		loss = mat.NewDense(r, c, nil)\n	}\n	loss.Sub(y, pred)\n	loss.MulElem(loss, loss)\n	m := loss.RawMatrix().Data\n	l := 0.0\n	n := 0\n	for _, v := range m {\n		l += v\n		n++\n	}\n	return l / float64(n)\n\n}\n\nfunc (m *MSELoss) Name")],
 "loss-delegate": [(LA,"	r, c := y.Dims()\n	if loss == nil {\n		loss = mat.NewDense(r, c, nil)\n	}\n	loss.Sub(y, pred)\n	loss.MulElem(loss, loss)\n	m := loss.RawMatrix().Data\n	l := 0.0\n	n := 0\n	for _, v := range m {\n		l += v\n		n++\n	}\n	return l / float64(n)\n\n}\n\nfunc (m *MSELoss) Name","	return (&SQErrLoss{}).Loss(y, pred, loss)\n}\n\nfunc (m *MSELoss) Name")],
 "grad-direct": [(LA,"	g := m.NegGradients(yohelabels, pred, results)\n	g.Scale(-1, g)\n	return g","	if results == nil {\n		r, c := yohelabels.Dims()\n		results = mat.NewDense(r, c, nil)\n	}\n	results.Sub(pred, yohelabels)\n	return results")],
 "hess-mul": [(LA,"		hraw[i] = (1 - v) * v","		hraw[i] = v * (1 - v)")],
 "hess-idx": [(LA,"	for i, v := range probraw {\n		hraw[i] = (1 - v) * v","	for i := range probraw {\n		hraw[i] = (1 - probraw[i]) * probraw[i]")],
 "hess-alloc": [(LA,"	r, c := probabilities.Dims()\n	if hessian == nil {\n		hessian = mat.NewDense(r, c, nil)\n	}\n	//so","	hessian = orNew(probabilities, hessian)\n	//so"),(LA,"// the error used in regular","func orNew(like, m *mat.Dense) *mat.Dense {\n	if m != nil {\n		return m\n	}\n	r, c := like.Dims()\n	return mat.NewDense(r, c, nil)\n}\n\n// the error used in regular")],
 "ones-len": [(MA,"	for i := range rm {\n		rm[i] = 1.0\n	}","	for i := 0; i < len(rm); i++ {\n		rm[i] = 1\n	}")],
 # activations
 "sm-max": [(LA,"	largest := math.Inf(-1)\n	for _, v := range p {\n		largest = math.Max(largest, v)\n	}\n","	largest := floats.Max(p)\n"),(LA,"		probs[i] = math.Exp(v - largest)","		probs[i] = math.Exp(v - math.Max(largest, math.Inf(-1)))")],
 "sm-ifmax": [(LA,"		largest = math.Max(largest, v)\n","		if v > largest {\n			largest = v\n		}\n")],
 "sm-sum": [(LA,"	for i, v := range p {\n		probs[i] = math.Exp(v - largest)\n	}\n	den := floats.Sum(probs)\n","	den := 0.0\n	for i, v := range p {\n		probs[i] = math.Exp(v - largest)\n		den += probs[i]\n	}\n")],
 "sm-div": [(LA,"	den := floats.Sum(probs)\n	for i := range p {\n		probs[i] /= den\n	}","	den := floats.Sum(probs)\n	for i := range probs {\n		probs[i] = probs[i] / den\n	}")],
 "norm-sum": [(LA,"	sum := 0.0\n	for i, v := range p {\n		probs[i] = v\n		sum += v\n	}\n	for i := range p {\n		probs[i] /= sum\n	}","	sum := 0.0\n	for _, v := range p {\n		sum += v\n	}\n	for i, v := range p {\n		probs[i] = v / sum\n	}")],
 "norm-fsum": [(LA,"	sum := 0.0\n	for i, v := range p {\n		probs[i] = v\n		sum += v\n	}\n","	sum := floats.Sum(p)\n	copy(probs, p)\n")],
 "act-inline": [(LA,"		o := O.RawRowView(i)\n		d := D.RawRowView(i)\n		p := activation(o, d) //this should set D to the probabilities.\n		D.SetRow(i, p)","		D.SetRow(i, activation(O.RawRowView(i), D.RawRowView(i)))")],
 "act-noset": [(LA,"		p := activation(o, d) //this should set D to the probabilities.\n		D.SetRow(i, p)","		activation(o, d) //sets D to the probabilities.")],
 # math
 "sm-index": [(MA,"	ret := make([][]float64, 0, len(rowIndexes))\n	for _, v := range rowIndexes {\n		s := SampleSlice(m[v], colIndexes)\n		ret = append(ret, s)\n	}","	ret := make([][]float64, len(rowIndexes))\n	for i, v := range rowIndexes {\n		ret[i] = SampleSlice(m[v], colIndexes)\n	}")],
 "ss-index": [(MA,"	ret := make([]float64, 0, len(indexes))\n	for _, v := range indexes {\n		if","	ret := make([]float64, len(indexes))\n	for i, v := range indexes {\n		if"),(MA,"		ret = append(ret, s[v])","		ret[i] = s[v]")],
 "argsort-mem": [(MA,"	in := make([]int, 0, len(a))\n	val := make([]float64, 0, len(a))\n	for i, v := range a {\n		in = append(in, i)\n		val = append(val, v)\n	}\n	r := &idSorter{i: in, a: val}\n	sort.Sort(r)\n	return r.i, r.a","	return MemArgSort(a, make([]int, len(a)), make([]float64, len(a)))")],
 "argsort-copy": [(MA,"	in := make([]int, 0, len(a))\n	val := make([]float64, 0, len(a))\n	for i, v := range a {\n		in = append(in, i)\n		val = append(val, v)\n	}\n","	in := make([]int, len(a))\n	val := make([]float64, len(a))\n	copy(val, a)\n	for i := range in {\n		in[i] = i\n	}\n")],
 "argsort-ret": [(MA,"	r := &idSorter{i: tmpint, a: tmpval}\n	sort.Sort(r)\n	return r.i, r.a","	sort.Sort(&idSorter{i: tmpint, a: tmpval})\n	return tmpint, tmpval")],
 "tr-index": [(MA,"	ret := make([][]float64, 0, len(m[0]))\n	for i := range m[0] {\n		r := make([]float64, 0, len(m))\n		for j := range m {\n			r = append(r, m[j][i])\n		}\n		ret = append(ret, r)\n	}","	ret := make([][]float64, len(m[0]))\n	for i := range ret {\n		ret[i] = make([]float64, len(m))\n		for j, row := range m {\n			ret[i][j] = row[i]\n		}\n	}")],
 "tr-rows": [(MA,"	ret := make([][]float64, 0, len(m[0]))\n	for i := range m[0] {\n		r := make([]float64, 0, len(m))\n		for j := range m {\n			r = append(r, m[j][i])\n		}\n		ret = append(ret, r)\n	}","	ret := make([][]float64, len(m[0]))\n	for i := range ret {\n		ret[i] = make([]float64, len(m))\n	}\n	for j := range m {\n		for i := range ret {\n			ret[i][j] = m[j][i]\n		}\n	}")],
 "dc-at": [(MA,"	newcol := make([]float64, 0, r)\n	for i := col; i < len(data); i += raw.Stride {\n		newcol = append(newcol, data[i])\n	}\n	return mat.NewDense(1, len(newcol), newcol)","	newcol := make([]float64, r)\n	for i := range newcol {\n		newcol[i] = data[i*raw.Stride+col]\n	}\n	return mat.NewDense(1, r, newcol)")],
 "dc-cond": [(MA,"	if col < 0 || col >= c {\n		panic(fmt.Sprintf(\"DenseCol","	if valid := col >= 0 && col < c; !valid {\n		panic(fmt.Sprintf(\"DenseCol")],
 "atc-range": [(MA,"	cont := 0\n	for i := col; i < len(data); i += raw.Stride {\n		data[i] += s[cont]\n		cont++\n	}\n	return","	for i, v := range s {\n		data[i*raw.Stride+col] += v\n	}")],
 "atc-for2": [(MA,"	cont := 0\n	for i := col; i < len(data); i += raw.Stride {\n		data[i] += s[cont]\n		cont++\n	}\n","	for i, cont := col, 0; i < len(data); i, cont = i+raw.Stride, cont+1 {\n		data[i] += s[cont]\n	}\n")],
 "swap-tmp": [(MA,"	s.a[i], s.a[j] = s.a[j], s.a[i]\n","	t := s.a[i]\n	s.a[i] = s.a[j]\n	s.a[j] = t\n")],
 "slice-append": [(SO,"	s := &Slice{Float64Slice: sort.Float64Slice(n), Idx: make([]int, len(n))}\n\n	for i := range s.Idx {\n		s.Idx[i] = i\n	}\n	return s","	idx := make([]int, 0, len(n))\n	for i := range n {\n		idx = append(idx, i)\n	}\n	return &Slice{Float64Slice: n, Idx: idx}")],
 # confu
 "conf-idx": [(CO,"	ret.Predicted = make([]int, 0, len(ret.Actual))\n	for _, v := range instances {\n		//M.PredictSingleClass actually returns the index of the class in ret.Labels\n		ret.Predicted = append(ret.Predicted, ret.Labels[M.PredictSingleClass(v)])\n	}","	ret.Predicted = make([]int, len(instances))\n	for i, v := range instances {\n		ret.Predicted[i] = ret.Labels[M.PredictSingleClass(v)]\n	}")],
 "conf-order": [(CO,"	ret.Labels = M.ClassLabels()\n	ret.m = make(map[int]int)\n	for i, v := range ret.Labels {\n		ret.m[v] = i\n	}\n\n	ret.Predicted = make([]int, 0, len(ret.Actual))\n	for _, v := range instances {\n		//M.PredictSingleClass actually returns the index of the class in ret.Labels\n		ret.Predicted = append(ret.Predicted, ret.Labels[M.PredictSingleClass(v)])\n	}\n","	ret.Labels = M.ClassLabels()\n	ret.Predicted = make([]int, 0, len(ret.Actual))\n	for _, v := range instances {\n		//M.PredictSingleClass actually returns the index of the class in ret.Labels\n		ret.Predicted = append(ret.Predicted, ret.Labels[M.PredictSingleClass(v)])\n	}\n	ret.m = make(map[int]int)\n	for i, v := range ret.Labels {\n		ret.m[v] = i\n	}\n")],
 "conf-helper": [(CO,"	ret.m = make(map[int]int)\n	for i, v := range ret.Labels {\n		ret.m[v] = i\n	}\n","	ret.m = positions(ret.Labels)\n"),(CO,"func (C *Confusions) Matrix","func positions(l []int) map[int]int {\n	m := make(map[int]int, len(l))\n	for i, v := range l {\n		m[v] = i\n	}\n	return m\n}\n\nfunc (C *Confusions) Matrix")],
 "mat-one": [(CO,"		lab := make([]int, 0, 10)\n		//we collect the indexes of label v in the actual labels.\n		//NOTE: I could make this more efficient\n		for j, w := range C.Actual {\n			if w == v {\n				lab = append(lab, j)\n			}\n		}\n		confRow := make([]int, len(C.Labels))\n		for _, w := range lab {\n			//			println(\"element\", C.m[C.Predicted[w]], C.Predicted[w], w) ////////\n			confRow[C.m[C.Predicted[w]]]++\n		}\n","		confRow := make([]int, len(C.Labels))\n		for j, w := range C.Actual {\n			if w == v {\n				confRow[C.m[C.Predicted[j]]]++\n			}\n		}\n")],
 "mat-local": [(CO,"	C.matrix = make([][]int, 0, len(C.Labels))\n","	matrix := make([][]int, 0, len(C.Labels))\n"),(CO,"		C.matrix = append(C.matrix, confRow)\n	}\n	return C.matrix","		matrix = append(matrix, confRow)\n	}\n	C.matrix = matrix\n	return matrix")],
 "mat-cont": [(CO,"			if w == v {\n				lab = append(lab, j)\n			}\n","			if w != v {\n				continue\n			}\n			lab = append(lab, j)\n")],
 "mat-helper": [(CO,"		lab := make([]int, 0, 10)\n		//we collect the indexes of label v in the actual labels.\n		//NOTE: I could make this more efficient\n		for j, w := range C.Actual {\n			if w == v {\n				lab = append(lab, j)\n			}\n		}\n","		lab := C.withLabel(v)\n"),(CO,"func (C *Confusions) Matrix","func (C *Confusions) withLabel(v int) []int {\n	lab := make([]int, 0, 10)\n	for j, w := range C.Actual {\n		if w == v {\n			lab = append(lab, j)\n		}\n	}\n	return lab\n}\n\nfunc (C *Confusions) Matrix")],
 "top-clone": [(CO,"		cpsorti := make([]int, len(sorti))\n		cpsortvals := make([]int, len(sortvals))\n		copy(cpsortvals, sortvals)\n		copy(cpsorti, sorti)\n		//	fmt.Println(\"copias\", sorti, cpsorti, sortvals, cpsortvals) ///////////\n		sorti = cpsorti\n		sortvals = cpsortvals\n","		sorti = append([]int{}, sorti...)\n		sortvals = append([]int{}, sortvals...)\n")],
 "top-slclone": [(CO,"		cpsorti := make([]int, len(sorti))\n		cpsortvals := make([]int, len(sortvals))\n		copy(cpsortvals, sortvals)\n		copy(cpsorti, sorti)\n		//	fmt.Println(\"copias\", sorti, cpsorti, sortvals, cpsortvals) ///////////\n		sorti = cpsorti\n		sortvals = cpsortvals\n","		sorti = slices.Clone(sorti)\n		sortvals = slices.Clone(sortvals)\n")],
 "top-n": [(CO,"	if N >= len(sorti) {\n		return sorti, sortvals\n	}\n	return sorti[:N], sortvals[:N]","	if N < len(sorti) {\n		sorti, sortvals = sorti[:N], sortvals[:N]\n	}\n	return sorti, sortvals")],
 "top-mat": [(CO,"	C.Matrix()\n	index := slices.Index(C.Labels, M)\n","	mat := C.Matrix()\n	index := slices.Index(C.Labels, M)\n"),(CO,"	om := C.matrix[index]","	om := mat[index]")],
 "top-rev": [(CO,"	slices.Reverse(sorti)\n	slices.Reverse(sortvals)\n","	slices.Reverse(sortvals)\n	slices.Reverse(sorti)\n")],
 "top-sum": [(CO,"		sum := 0\n		for _, w := range rf[i] {\n			sum += w\n		}\n		if sum == 0 {\n			continue\n		}\n","		if total(rf[i]) == 0 {\n			continue\n		}\n"),(CO,"func (C *Confusions) Matrix","func total(l []int) int {\n	sum := 0\n	for _, w := range l {\n		sum += w\n	}\n	return sum\n}\n\nfunc (C *Confusions) Matrix")],
}
