CASES = {
 "predict-ifelse": [("tree.go", """	var child *Tree
	if row[T.splitFeatureIndex] <= T.threshold {
		child = T.left
	} else {
		child = T.right
	}
	return child.PredictSingle(row)""", """	if row[T.splitFeatureIndex] <= T.threshold {
		return T.left.PredictSingle(row)
	}
	return T.right.PredictSingle(row)""")],
 "predict-helper": [("tree.go", """	var child *Tree
	if row[T.splitFeatureIndex] <= T.threshold {
		child = T.left
	} else {
		child = T.right
	}
	return child.PredictSingle(row)
}""", """	return T.next(row).PredictSingle(row)
}

func (T *Tree) next(row []float64) *Tree {
	v := row[T.splitFeatureIndex]
	if v <= T.threshold {
		return T.left
	}
	return T.right
}""")],
 "predict-loop": [("tree.go", """	if T.Leaf() {
		return T.value
	}
	var child *Tree
	if row[T.splitFeatureIndex] <= T.threshold {
		child = T.left
	} else {
		child = T.right
	}
	return child.PredictSingle(row)""", """	node := T
	for !node.Leaf() {
		if row[node.splitFeatureIndex] <= node.threshold {
			node = node.left
		} else {
			node = node.right
		}
	}
	return node.value""")],
 "insert-direct": [("tree.go", """	x := utils.SampleMatrix(T.x, o.Indexes, []int{T.splitFeatureIndex})
""", ""), ("tree.go", """	transposedFloats := utils.TransposeFloats(x)[0]
	for i, v := range transposedFloats {
		T.debug(o, "Will try the vector", o.Indexes[i], "of", transposedFloats) /////
		if v <= T.threshold {
			indexleft = append(indexleft, o.Indexes[i])
		} else {
			indexright = append(indexright, o.Indexes[i])
		}
	}""", """	for _, row := range o.Indexes {
		if T.x[row][T.splitFeatureIndex] <= T.threshold {
			indexleft = append(indexleft, row)
		} else {
			indexright = append(indexright, row)
		}
	}""")],
 "insert-helper": [("tree.go", """	indexleft := make([]int, 0, 3)
	indexright := make([]int, 0, 3)
	transposedFloats := utils.TransposeFloats(x)[0]
	for i, v := range transposedFloats {
		T.debug(o, "Will try the vector", o.Indexes[i], "of", transposedFloats) /////
		if v <= T.threshold {
			indexleft = append(indexleft, o.Indexes[i])
		} else {
			indexright = append(indexright, o.Indexes[i])
		}
	}
""", """	indexleft, indexright := T.partition(x, o)
"""), ("tree.go", """func (T *Tree) findBetterSplit(""", """func (T *Tree) partition(x [][]float64, o *TreeOptions) (l, r []int) {
	for i := range x {
		if v := x[i][0]; v <= T.threshold {
			l = append(l, o.Indexes[i])
			continue
		}
		r = append(r, o.Indexes[i])
	}
	return l, r
}

func (T *Tree) findBetterSplit(""")],
 "insert-reorder": [("tree.go", """	oleft := o.clone()
	oleft.MaxDepth--
	oright := oleft.clone()
	oleft.Indexes = indexleft
	oright.Indexes = indexright
""", """	oright := o.clone()
	oleft := o.clone()
	oright.MaxDepth, oleft.MaxDepth = o.MaxDepth-1, o.MaxDepth-1
	oright.Indexes = indexright
	oleft.Indexes = indexleft
""")],
 "insert-child-helper": [("tree.go", """	oleft := o.clone()
	oleft.MaxDepth--
	oright := oleft.clone()
	oleft.Indexes = indexleft
	oright.Indexes = indexright
	//NOTE: his would cause a data race if the trees were created
	//concurrently, which, as of now, they are not.
	oleft.in = o.in
	oleft.val = o.val
	oright.in = o.in
	oright.val = o.val
	//end note
	T.left = NewTree(T.x, oleft)
	T.branches += T.left.branches
	T.right = NewTree(T.x, oright)
	T.branches += T.right.branches
}""", """	T.left = T.child(o, indexleft)
	T.right = T.child(o, indexright)
	T.branches += T.left.branches + T.right.branches
}

func (T *Tree) child(o *TreeOptions, indexes []int) *Tree {
	co := o.clone()
	co.MaxDepth = o.MaxDepth - 1
	co.Indexes = indexes
	co.in, co.val = o.in, o.val
	return NewTree(T.x, co)
}""")],
 "clone-deref": [("tree.go", """	ret := &TreeOptions{}
	ret.XGB = T.XGB
	ret.Gradients = T.Gradients
	ret.Hessian = T.Hessian
	ret.Y = T.Y
	ret.MinChildWeight = T.MinChildWeight
	ret.Lambda = T.Lambda
	ret.Gamma = T.Gamma
	ret.ColSampleByNode = T.ColSampleByNode
	ret.MaxDepth = T.MaxDepth
	ret.AllowedColumns = T.AllowedColumns
	ret.Debug = T.Debug
	ret.Indexes = T.Indexes //""", """	ret := &TreeOptions{}
	*ret = *T
	ret.in = nil
	ret.val = nil
	//""")],
 "clone-lit": [("tree.go", """	ret := &TreeOptions{}
	ret.XGB = T.XGB
	ret.Gradients = T.Gradients
	ret.Hessian = T.Hessian
	ret.Y = T.Y
	ret.MinChildWeight = T.MinChildWeight
	ret.Lambda = T.Lambda
	ret.Gamma = T.Gamma
	ret.ColSampleByNode = T.ColSampleByNode
	ret.MaxDepth = T.MaxDepth
	ret.AllowedColumns = T.AllowedColumns
	ret.Debug = T.Debug
	ret.Indexes = T.Indexes //""", """	ret := &TreeOptions{Debug: T.Debug, XGB: T.XGB, Gradients: T.Gradients, Hessian: T.Hessian, Y: T.Y, MinChildWeight: T.MinChildWeight, Lambda: T.Lambda, Gamma: T.Gamma, ColSampleByNode: T.ColSampleByNode, MaxDepth: T.MaxDepth, AllowedColumns: T.AllowedColumns, Indexes: T.Indexes}
	//""")],
 "insert-pass-scratch-in-clone": [("tree.go", """	oleft.in = o.in
	oleft.val = o.val
	oright.in = o.in
	oright.val = o.val
""", ""), ("tree.go", "	ret.Debug = T.Debug\n", "	ret.Debug = T.Debug\n	ret.in = T.in\n	ret.val = T.val\n")],
 "newtree-indexes": [("tree.go", """		o.Indexes = make([]int, 0, len(X))
		for i := range X {
			o.Indexes = append(o.Indexes, i)
		}
""", """		o.Indexes = make([]int, len(X))
		for i := range o.Indexes {
			o.Indexes[i] = i
		}
""")],
 "newtree-helper": [("tree.go", """	if ret.xgb {
		ret.value = -1 * floats.Sum(utils.SampleSlice(ret.grads, o.Indexes)) / (floats.Sum(utils.SampleSlice(ret.hess, o.Indexes)) + o.Lambda) //eq 5
		ret.bestScoreSoFar = 0.0
	} else {
		ret.bestScoreSoFar = math.Inf(1)
		sam := utils.SampleSlice(ret.y, o.Indexes)
		ret.value = floats.Sum(sam) / float64(len(sam))
""", """	if !o.XGB {
		ret.bestScoreSoFar = math.Inf(1)
		ret.value = meanOf(ret.y, o.Indexes)
	} else {
		var sumG, sumH float64
		for _, i := range o.Indexes {
			sumG += ret.grads[i]
			sumH += ret.hess[i]
		}
		ret.value = -sumG / (sumH + o.Lambda)
"""), ("tree.go", "func (T *Tree) maybeInsertChildNode(", """func meanOf(y []float64, idx []int) float64 {
	s := 0.0
	for _, i := range idx {
		s += y[i]
	}
	return s / float64(len(idx))
}

func (T *Tree) maybeInsertChildNode(""")],
 "columns-loop": [("tree.go", """		if len(o.AllowedColumns) != 0 && !slices.Contains(o.AllowedColumns, i) {
			continue
		}
		T.debug(o, "Will split by (zero-based) feature", i) //
		T.findBetterSplit(i, o)
""", """		if len(o.AllowedColumns) == 0 || slices.Contains(o.AllowedColumns, i) {
			T.debug(o, "Will split by (zero-based) feature", i) //
			T.findBetterSplit(i, o)
		}
""")],
 "columns-helper": [("tree.go", """		if len(o.AllowedColumns) != 0 && !slices.Contains(o.AllowedColumns, i) {
			continue
		}
""", """		if !o.columnAllowed(i) {
			continue
		}
"""), ("tree.go", "func (T *Tree) maybeInsertChildNode(", """func (o *TreeOptions) columnAllowed(c int) bool {
	if len(o.AllowedColumns) == 0 {
		return true
	}
	for _, v := range o.AllowedColumns {
		if v == c {
			return true
		}
	}
	return false
}

func (T *Tree) maybeInsertChildNode(""")],
 "split-nsamples": [("tree.go", "	for i := 0; i < T.nsamples-1; i++ {\n		nright--\n		nleft++\n", "	n := len(o.Indexes)\n	for i := 0; i < n-1; i++ {\n		nleft = i + 1\n		nright = n - nleft\n")],
 "split-hoist-checks": [("tree.go", """			if nleft < int(o.MinChildWeight) || xi == xinext {
				continue
			}
			if nright < int(o.MinChildWeight) {
				break
			}
			gain = 0.5*""", """			if tooSmall(nleft, o) || xi == xinext {
				continue
			}
			if tooSmall(nright, o) {
				break
			}
			gain = 0.5*"""), ("tree.go", "func (T *Tree) findBetterSplit(", """func tooSmall(n int, o *TreeOptions) bool {
	return n < int(o.MinChildWeight)
}

func (T *Tree) findBetterSplit(""")],
 "split-gain-helper": [("tree.go", """gain = 0.5*((sq(sumgLeft)/(sumhLeft+o.Lambda))+(sq(sumgRight)/(sumhRight+o.Lambda))-(sq(sumg)/(sumh+o.Lambda))) - (o.Gamma / 2) //""", """score := func(g, h float64) float64 { return g * g / (h + o.Lambda) }
			gain = (score(sumgLeft, sumhLeft)+score(sumgRight, sumhRight)-score(sumg, sumh)-o.Gamma) / 2 //""")],
 "split-criterion-bool": [("tree.go", "			criterion = func() bool { return gain > T.bestScoreSoFar }\n", "			better = gain > T.bestScoreSoFar\n"), ("tree.go", "			criterion = func() bool { return gain < T.bestScoreSoFar }\n", "			better = gain < T.bestScoreSoFar\n"), ("tree.go", "		if criterion() {", "		if better {"), ("tree.go", "	var criterion func() bool\n", "	var better bool\n")],
 "split-merged-guard": [("tree.go", """			if nleft < int(o.MinChildWeight) || xi == xinext {
				continue
			}
			if nright < int(o.MinChildWeight) {
				break
			}
			gain = 0.5*""", """			minw := int(o.MinChildWeight)
			if nleft < minw || nright < minw || xi == xinext {
				continue
			}
			gain = 0.5*""")],
 "split-right-from-total": [("tree.go", "			sumgRight -= gi\n", "			sumgRight = sumg - sumgLeft\n"), ("tree.go", "			sumhRight -= hi\n", "			sumhRight = sumh - sumhLeft\n")],
 "split-column-direct": [("tree.go", """	x := utils.SampleMatrix(T.x, o.Indexes, []int{featureIndex})
	xt := utils.TransposeFloats(x) //x is a col vector
	in := o.in[0:len(xt[0])]
	val := o.val[0:len(xt[0])]
	sorted_indexes, sortx := utils.MemArgSort(xt[0], in, val)
""", """	col := make([]float64, 0, len(o.Indexes))
	for _, r := range o.Indexes {
		col = append(col, T.x[r][featureIndex])
	}
	sorted_indexes, sortx := utils.MemArgSort(col, o.in[:len(col)], o.val[:len(col)])
""")],
 "leaf-switch": [("tree.go", """	if T.xgb {
		//	fmt.Println("return for xgb", T.bestScoreSoFar == 0) ////////////
		return T.bestScoreSoFar == 0
	} else {
		//	fmt.Println("return for no-xgb", math.IsInf(T.bestScoreSoFar, 1)) ////////////

		return math.IsInf(T.bestScoreSoFar, 1)
	}""", """	noSplit := math.Inf(1)
	if T.xgb {
		noSplit = 0
	}
	return T.bestScoreSoFar == noSplit""")],
 "leaf-le": [("tree.go", "		return math.IsInf(T.bestScoreSoFar, 1)\n", "		return T.bestScoreSoFar > math.MaxFloat64\n")],
}
