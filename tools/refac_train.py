X = "xgb.go"
CASES = {
 "else-instead-of-continue": [(X, """			if stopped[k] {
				//keeps the position of each tree in the round equal to its class
				classes = append(classes, emptyTree(O.XGB))
				continue
			}
			var tOpts *TreeOptions""", """			if stopped[k] {
				//keeps the position of each tree in the round equal to its class
				classes = append(classes, emptyTree(O.XGB))
				continue
			}
			_ = round
			var tOpts *TreeOptions""")],
 "prealloc-classes": [(X, "classes := make([]*Tree, 0, 1)", "classes := make([]*Tree, nlabels)"), (X, "classes = append(classes, emptyTree(O.XGB))", "classes[k] = emptyTree(O.XGB)"), (X, "classes = append(classes, tree)", "classes[k] = tree")],
 "range-classes": [(X, "for k := 0; k < nlabels; k++ {", "for k := range differentlabels {")],
 "fit-helper": [(X, """			if O.XGB {
				tOpts = DefaultXTreeOptions()
				tOpts.MinChildWeight = minChildWeight
				tOpts.MaxDepth = O.MaxDepth
				grads = O.Loss.Gradients(kthlabelvector, kthprobs, grads)
				tOpts.Lambda = O.Lambda
				tOpts.Gamma = O.Gamma
				tOpts.Indexes = sampleIndexes
				tOpts.AllowedColumns = sampleCols
				tOpts.Gradients = grads.RawRowView(0)
				tOpts.Hessian = hess.RawRowView(0)
				tOpts.Y = kthlabelvector.RawRowView(0)
				tOpts.in = tin
				tOpts.val = tval
				tree = NewTree(D.Data, tOpts)""", """			if O.XGB {
				grads = O.Loss.Gradients(kthlabelvector, kthprobs, grads)
				tOpts = xOptsFor(O, minChildWeight, sampleIndexes, sampleCols)
				tOpts.Gradients = grads.RawRowView(0)
				tOpts.Hessian = hess.RawRowView(0)
				tOpts.Y = kthlabelvector.RawRowView(0)
				tOpts.in = tin
				tOpts.val = tval
				tree = NewTree(D.Data, tOpts)"""),
  (X, "// Returns a leaf, fitted to no", """func xOptsFor(O *Options, mcw float64, rows, cols []int) *TreeOptions {
	t := DefaultXTreeOptions()
	t.MinChildWeight = mcw
	t.MaxDepth = O.MaxDepth
	t.Lambda = O.Lambda
	t.Gamma = O.Gamma
	t.Indexes = rows
	t.AllowedColumns = cols
	return t
}

// Returns a leaf, fitted to no""")],
 "stop-helper": [(X, """			if O.EarlyStop > 0 {
				epsilon := 1e-6
				if currloss <= epsilon {
					stopped[k] = true
					continue
				}
				//no earlier loss to compare with, as this is the first round that was not skipped.
				if len(boosters) == 0 {
					prevloss[k] = currloss
					continue
				}
				//	fmt.Println("losses", prevloss[k], currloss, roundsNoProgress[k], k) ///////////////
				if prevloss[k] <= currloss {
					roundsNoProgress[k]++
				} else {
					roundsNoProgress[k] = 0

				}
				if roundsNoProgress[k] >= O.EarlyStop {
					if O.Verbose {
						log.Println("Class", k, "stopped early at round", round)
					}
					stopped[k] = true
				}
				prevloss[k] = currloss
			}
""", """			if O.EarlyStop > 0 {
				stopped[k] = shouldStop(currloss, len(boosters) == 0, k, roundsNoProgress, prevloss, O.EarlyStop)
				if stopped[k] && O.Verbose {
					log.Println("Class", k, "stopped early at round", round)
				}
			}
"""), (X, "// Returns a leaf, fitted to no", """func shouldStop(loss float64, first bool, k int, bad []int, prev []float64, patience int) bool {
	const epsilon = 1e-6
	if loss <= epsilon {
		return true
	}
	if first {
		prev[k] = loss
		return false
	}
	if prev[k] <= loss {
		bad[k]++
	} else {
		bad[k] = 0
	}
	prev[k] = loss
	return bad[k] >= patience
}

// Returns a leaf, fitted to no""")],
 "max-minchild": [(X, """	minChildWeight := O.MinChildWeight
	if minChildWeight < 1 {
		minChildWeight = 1
	}
""", """	minChildWeight := math.Max(1, O.MinChildWeight)
""")],
 "nil-dst": [(X, "probs = utils.SoftMaxDense(rawPred, probs)", "probs = utils.SoftMaxDense(rawPred, nil)")],
 "ignore-result": [(X, "probs = utils.SoftMaxDense(rawPred, probs)", "utils.SoftMaxDense(rawPred, probs)")],
 "grads-local": [(X, "grads = O.Loss.Gradients(kthlabelvector, kthprobs, grads)", "grads := O.Loss.Gradients(kthlabelvector, kthprobs, nil)"), (X,"grads = O.Loss.NegGradients(kthlabelvector, kthprobs, grads)", "grads := O.Loss.NegGradients(kthlabelvector, kthprobs, nil)"), (X, "	grads := mat.NewDense(1, r, nil)\n", "")],
 "hess-local": [(X, "hess = O.Loss.Hessian(kthprobs, nil)", "hess := O.Loss.Hessian(kthprobs, nil)"), (X, "	hess := mat.NewDense(1, r, nil)\n", "")],
 "sample-reorder": [(X, """		if O.SubSample < 1 && O.XGB {
			sampleIndexes = SubSample(len(D.Data), O.SubSample)
		}
""", """		if O.XGB && O.SubSample < 1 {
			sampleIndexes = SubSample(len(D.Data), O.SubSample)
		}
""")],
 "sample-nested": [(X, """		if O.SubSample < 1 && O.XGB {
			sampleIndexes = SubSample(len(D.Data), O.SubSample)
		}
		if O.ColSubSample < 1 && O.XGB {
			sampleCols = SubSample(len(D.Data[0]), O.ColSubSample)
		}
""", """		if O.XGB {
			if O.SubSample < 1 {
				sampleIndexes = SubSample(len(D.Data), O.SubSample)
			}
			if O.ColSubSample < 1 {
				sampleCols = SubSample(len(D.Data[0]), O.ColSubSample)
			}
		}
""")],
 "sample-helper": [(X, """		var sampleIndexes, sampleCols []int
		if O.SubSample < 1 && O.XGB {
			sampleIndexes = SubSample(len(D.Data), O.SubSample)
		}
		if O.ColSubSample < 1 && O.XGB {
			sampleCols = SubSample(len(D.Data[0]), O.ColSubSample)
		}
""", """		sampleIndexes, sampleCols := drawSamples(D, O)
"""), (X, "// Returns a leaf, fitted to no", """func drawSamples(D *utils.DataBunch, O *Options) (rows, cols []int) {
	if !O.XGB {
		return nil, nil
	}
	if O.SubSample < 1 {
		rows = SubSample(len(D.Data), O.SubSample)
	}
	if O.ColSubSample < 1 {
		cols = SubSample(len(D.Data[0]), O.ColSubSample)
	}
	return rows, cols
}

// Returns a leaf, fitted to no""")],
 "skip-helper": [(X, "if sampleIndexes != nil && (len(sampleIndexes) == 0 || len(sampleIndexes) < O.MinSample) {", "tooSmall := len(sampleIndexes) == 0 || len(sampleIndexes) < O.MinSample\n		if sampleIndexes != nil && tooSmall {")],
 "base-set": [(X, "	utils.ToOnes(rawPred)\n	rawPred.Scale(O.BaseScore, rawPred)\n", "	for i := 0; i < r; i++ {\n		for j := 0; j < c; j++ {\n			rawPred.Set(i, j, O.BaseScore)\n		}\n	}\n")],
 "model-stepwise": [(X, "	return &MultiClass{b: boosters, learningRate: O.LearningRate, probTransform: utils.SoftMaxDense, classLabels: differentlabels, baseScore: O.BaseScore, xgb: O.XGB}\n", "	m := new(MultiClass)\n	m.b = boosters\n	m.learningRate = O.LearningRate\n	m.probTransform = utils.SoftMaxDense\n	m.classLabels = differentlabels\n	m.baseScore = O.BaseScore\n	m.xgb = O.XGB\n	return m\n")],
 "scale-loop": [(X, "			floats.Scale(O.LearningRate, tmpPreds)\n", "			for i := range tmpPreds {\n				tmpPreds[i] *= O.LearningRate\n			}\n")],
 "opts-switch": [(X, "	if len(opts) > 0 && opts[0] != nil {\n		O = opts[0]\n	} else {\n		O = DefaultXOptions()\n	}\n", "	if len(opts) > 0 {\n		O = opts[0]\n	}\n	if O == nil {\n		O = DefaultXOptions()\n	}\n")],
 "boosters-prealloc-none": [(X, "boosters := make([][]*Tree, 0, nlabels)", "var boosters [][]*Tree")],
 "stop-invert": [(X, """				if prevloss[k] <= currloss {
					roundsNoProgress[k]++
				} else {
					roundsNoProgress[k] = 0

				}
""", """				noProgress := prevloss[k] <= currloss
				if !noProgress {
					roundsNoProgress[k] = 0
				} else {
					roundsNoProgress[k] += 1
				}
""")],
 "append-later": [(X, "			classes = append(classes, tree)\n			if O.Verbose {", "			if O.Verbose {"), (X, "			tmpPreds = tree.Predict(D.Data, tmpPreds)\n", "			classes = append(classes, tree)\n			tmpPreds = tree.Predict(D.Data, tmpPreds)\n")],
 "subsample-range": [(X, "	for i := 0; i < totdata; i++ {\n		if subsample >= rand.Float64() {", "	for i := range totdata {\n		if rand.Float64() <= subsample {")],
 "subsample-var": [(X, "		if subsample >= rand.Float64() {\n			ret", "		r := rand.Float64()\n		if r <= subsample {\n			ret")],
 "leaves-inline": [(X, "		nval := sumgrad / sumhess\n		leaf.value = nval\n", "		leaf.value = sumgrad / sumhess\n")],
 "leaves-idx": [(X, "		for _, w := range leaf.samples {\n			sumhess += hessian.At(0, w)\n			sumgrad += gradient.At(0, w)\n", "		g, h := gradient.RawRowView(0), hessian.RawRowView(0)\n		for i := range leaf.samples {\n			w := leaf.samples[i]\n			sumgrad += g[w]\n			sumhess += h[w]\n")],
 "apply-leaf-first": [(X, """	if tree.left != nil {
		applyToLeafs(tree.left, fn)
	}

	if tree.right != nil {
		applyToLeafs(tree.right, fn)
	}
	if tree.Leaf() {
		fn(tree)
		return
	}
""", """	if tree.Leaf() {
		fn(tree)
		return
	}
	if tree.left != nil {
		applyToLeafs(tree.left, fn)
	}
	if tree.right != nil {
		applyToLeafs(tree.right, fn)
	}
""")],
 "empty-literal": [(X, "	ret := &Tree{xgb: xgb, branches: 1}\n	if !xgb {\n		ret.bestScoreSoFar = math.Inf(1)\n	}\n	return ret\n", "	if xgb {\n		return &Tree{xgb: true, branches: 1}\n	}\n	return &Tree{bestScoreSoFar: math.Inf(1), branches: 1}\n")],
}
