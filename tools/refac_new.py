"""larger behaviour-preserving rewrites"""
X="xgb.go"; T="tree.go"; M="multiclass.go"; G="cv/cv.go"; GR="cv/grad.go"; H="cv/hybrid.go"
src=lambda f: open("/repo/"+f).read()
def between(f,a,b):
    s=src(f); i=s.index(a); j=s.index(b,i); return s[i:j]
CASES={}
# training
xb=between(X,"			if O.XGB {\n				tOpts = DefaultXTreeOptions()","			tmpPreds = tree.Predict")
CASES["two-fitters"]=[(X,xb,"""			if O.XGB {
				tree = fitX(D.Data, kthlabelvector, O.Loss.Gradients(kthlabelvector, kthprobs, grads), hess, sampleIndexes, sampleCols, O, minChildWeight, tin, tval)
			} else {
				tree = fitG(D.Data, O.Loss.NegGradients(kthlabelvector, kthprobs, grads), hess, O, minChildWeight, tin, tval)
			}
"""),(X,"			var tOpts *TreeOptions\n",""),(X,"// Returns a leaf, fitted","""func fitX(data [][]float64, labels, grads, hess *mat.Dense, rows, cols []int, O *Options, minChildWeight float64, in []int, val []float64) *Tree {
	t := DefaultXTreeOptions()
	t.MinChildWeight = minChildWeight
	t.MaxDepth = O.MaxDepth
	t.Lambda = O.Lambda
	t.Gamma = O.Gamma
	t.Indexes = rows
	t.AllowedColumns = cols
	t.Gradients = grads.RawRowView(0)
	t.Hessian = hess.RawRowView(0)
	t.Y = labels.RawRowView(0)
	t.in = in
	t.val = val
	return NewTree(data, t)
}

func fitG(data [][]float64, residuals, hess *mat.Dense, O *Options, minChildWeight float64, in []int, val []float64) *Tree {
	t := DefaultGTreeOptions()
	t.in = in
	t.val = val
	t.MinChildWeight = minChildWeight
	t.MaxDepth = O.MaxDepth
	t.Y = residuals.RawRowView(0)
	tree := NewTree(data, t)
	updateLeaves(tree, residuals, hess)
	return tree
}

// Returns a leaf, fitted""")]
CASES["opts-common"]=[(X,xb,"""			if O.XGB {
				tOpts = DefaultXTreeOptions()
				grads = O.Loss.Gradients(kthlabelvector, kthprobs, grads)
				tOpts.Lambda, tOpts.Gamma = O.Lambda, O.Gamma
				tOpts.Indexes, tOpts.AllowedColumns = sampleIndexes, sampleCols
				tOpts.Gradients, tOpts.Hessian = grads.RawRowView(0), hess.RawRowView(0)
				tOpts.Y = kthlabelvector.RawRowView(0)
			} else {
				tOpts = DefaultGTreeOptions()
				grads = O.Loss.NegGradients(kthlabelvector, kthprobs, grads)
				tOpts.Y = grads.RawRowView(0)
			}
			tOpts.in, tOpts.val = tin, tval
			tOpts.MinChildWeight = minChildWeight
			tOpts.MaxDepth = O.MaxDepth
			tree = NewTree(D.Data, tOpts)
			if !O.XGB {
				updateLeaves(tree, grads, hess)
			}
""")]
CASES["opts-literal"]=[(X,xb,"""			if O.XGB {
				grads = O.Loss.Gradients(kthlabelvector, kthprobs, grads)
				tOpts = &TreeOptions{XGB: true, MinChildWeight: minChildWeight, MaxDepth: O.MaxDepth, Lambda: O.Lambda, Gamma: O.Gamma, ColSampleByNode: 1, Indexes: sampleIndexes, AllowedColumns: sampleCols, Gradients: grads.RawRowView(0), Hessian: hess.RawRowView(0), Y: kthlabelvector.RawRowView(0), in: tin, val: tval}
				tree = NewTree(D.Data, tOpts)
			} else {
				grads = O.Loss.NegGradients(kthlabelvector, kthprobs, grads)
				tOpts = &TreeOptions{MinChildWeight: minChildWeight, MaxDepth: O.MaxDepth, Y: grads.RawRowView(0), in: tin, val: tval}
				tree = NewTree(D.Data, tOpts)
				updateLeaves(tree, grads, hess)
			}
""")]
es=between(X,"			if O.EarlyStop > 0 {\n				epsilon","		}\n		boosters = append(boosters, classes)")
CASES["stopper-struct"]=[(X,es,"""			if O.EarlyStop > 0 {
				stopper.update(k, round, currloss, len(boosters) == 0, O)
			}
"""),(X,"	stopped := make([]bool, len(differentlabels))\n	roundsNoProgress := make([]int, len(differentlabels))\n	prevloss := make([]float64, len(differentlabels))\n","	stopper := newStopper(nlabels)\n"),(X,"if stopped[k] {","if stopper.stopped[k] {"),(X,"// Returns a leaf, fitted","""type earlyStopper struct {
	stopped  []bool
	strikes  []int
	prevloss []float64
}

func newStopper(n int) *earlyStopper {
	return &earlyStopper{stopped: make([]bool, n), strikes: make([]int, n), prevloss: make([]float64, n)}
}

func (s *earlyStopper) update(k, round int, loss float64, first bool, O *Options) {
	if loss <= 1e-6 {
		s.stopped[k] = true
		return
	}
	if first {
		s.prevloss[k] = loss
		return
	}
	if s.prevloss[k] <= loss {
		s.strikes[k]++
	} else {
		s.strikes[k] = 0
	}
	if s.strikes[k] >= O.EarlyStop {
		if O.Verbose {
			log.Println("Class", k, "stopped early at round", round)
		}
		s.stopped[k] = true
	}
	s.prevloss[k] = loss
}

// Returns a leaf, fitted""")]
CASES["labels-hoisted"]=[(X,"	for round := 0; round < O.Rounds; round++ {","	labelVectors := make([]*mat.Dense, nlabels)\n	for k := range labelVectors {\n		labelVectors[k] = utils.DenseCol(ohelabels, k)\n	}\n	for round := 0; round < O.Rounds; round++ {"),(X,"			kthlabelvector := utils.DenseCol(ohelabels, k)\n","			kthlabelvector := labelVectors[k]\n")]
CASES["add-direct"]=[(X,"			floats.Scale(O.LearningRate, tmpPreds)\n			utils.AddToCol(rawPred, tmpPreds, k)\n","			for i, p := range tmpPreds {\n				rawPred.Set(i, k, rawPred.At(i, k)+O.LearningRate*p)\n			}\n")]
CASES["round-range"]=[(X,"	for round := 0; round < O.Rounds; round++ {","	for round := range O.Rounds {"),(X,"		for k := 0; k < nlabels; k++ {","		for k := range differentlabels {")]
CASES["model-var"]=[(X,"	return &MultiClass{b: boosters, learningRate: O.LearningRate, probTransform: utils.SoftMaxDense, classLabels: differentlabels, baseScore: O.BaseScore, xgb: O.XGB}","	ret := new(MultiClass)\n	ret.b, ret.xgb = boosters, O.XGB\n	ret.learningRate, ret.baseScore = O.LearningRate, O.BaseScore\n	ret.classLabels = differentlabels\n	ret.probTransform = utils.SoftMaxDense\n	return ret")]
CASES["loss-helper"]=[(X,"""				kthprobs := utils.DenseCol(probs, k)
				currloss = O.Loss.Loss(kthlabelvector, kthprobs, tmploss)
""","""				currloss = classLoss(O.Loss, kthlabelvector, probs, k, tmploss)
"""),(X,"// Returns a leaf, fitted","func classLoss(l utils.LossFunc, labels, probs *mat.Dense, k int, tmp *mat.Dense) float64 {\n	return l.Loss(labels, utils.DenseCol(probs, k), tmp)\n}\n\n// Returns a leaf, fitted")]
CASES["round-helper"]=[(X,"		var sampleIndexes, sampleCols []int\n		if O.SubSample < 1 && O.XGB {\n			sampleIndexes = SubSample(len(D.Data), O.SubSample)\n		}\n		if O.ColSubSample < 1 && O.XGB {\n			sampleCols = SubSample(len(D.Data[0]), O.ColSubSample)\n		}\n		//a nil sampleIndexes means that all rows are used.\n		if sampleIndexes != nil && (len(sampleIndexes) == 0 || len(sampleIndexes) < O.MinSample) {\n			continue\n		}\n","		sampleIndexes, sampleCols, ok := drawRound(D, O)\n		if !ok {\n			continue\n		}\n"),(X,"// Returns a leaf, fitted","""func drawRound(D *utils.DataBunch, O *Options) (rows, cols []int, ok bool) {
	if !O.XGB {
		return nil, nil, true
	}
	if O.SubSample < 1 {
		rows = SubSample(len(D.Data), O.SubSample)
	}
	if O.ColSubSample < 1 {
		cols = SubSample(len(D.Data[0]), O.ColSubSample)
	}
	if rows == nil {
		return rows, cols, true
	}
	return rows, cols, len(rows) > 0 && len(rows) >= O.MinSample
}

// Returns a leaf, fitted""")]
# trees
fb=between(T,"	var xi, xinext, yi, gi, hi float64","// Returns the number of branches")
CASES["two-splitters"]=[(T,fb,"""	if T.xgb {
		T.splitX(featureIndex, sorted_indexes, sortx, o)
		return
	}
	T.splitG(featureIndex, sorted_indexes, sortx, o)
}

func square(x float64) float64 { return x * x }

func (T *Tree) splitX(featureIndex int, order []int, sortx []float64, o *TreeOptions) {
	g := utils.SampleSlice(T.grads, o.Indexes)
	h := utils.SampleSlice(T.hess, o.Indexes)
	sortg := utils.SampleSlice(g, order)
	sorth := utils.SampleSlice(h, order)
	sumg, sumh := floats.Sum(g), floats.Sum(h)
	sumhRight, sumgRight := sumh, sumg
	sumhLeft, sumgLeft := 0.0, 0.0
	nleft, nright := 0, T.nsamples
	for i := 0; i < T.nsamples-1; i++ {
		nright--
		nleft++
		sumgLeft += sortg[i]
		sumgRight -= sortg[i]
		sumhLeft += sorth[i]
		sumhRight -= sorth[i]
		if nleft < int(o.MinChildWeight) || sortx[i] == sortx[i+1] {
			continue
		}
		if nright < int(o.MinChildWeight) {
			break
		}
		gain := 0.5*((square(sumgLeft)/(sumhLeft+o.Lambda))+(square(sumgRight)/(sumhRight+o.Lambda))-(square(sumg)/(sumh+o.Lambda))) - (o.Gamma / 2)
		if gain > T.bestScoreSoFar {
			T.adopt(featureIndex, gain, (sortx[i]+sortx[i+1])/2)
		}
	}
}

func (T *Tree) adopt(feature int, score, threshold float64) {
	T.splitFeatureIndex = feature
	T.bestScoreSoFar = score
	T.threshold = threshold
}

func (T *Tree) splitG(featureIndex int, order []int, sortx []float64, o *TreeOptions) {
	ypart := utils.SampleSlice(T.y, o.Indexes)
	sorty := utils.SampleSlice(ypart, order)
	sumy := floats.Sum(sorty)
	sumyLeft, sumyRight := 0.0, sumy
	nleft, nright := 0, T.nsamples
	for i := 0; i < T.nsamples-1; i++ {
		nright--
		nleft++
		sumyLeft += sorty[i]
		sumyRight -= sorty[i]
		if nleft < int(o.MinChildWeight) || sortx[i] == sortx[i+1] {
			continue
		}
		if nright < int(o.MinChildWeight) {
			break
		}
		gain := -square(sumyLeft)/float64(nleft) - square(sumyRight)/float64(nright) + square(sumy)/float64(T.nsamples)
		if gain < T.bestScoreSoFar {
			T.adopt(featureIndex, gain, (sortx[i]+sortx[i+1])/2)
		}
	}
}

""")]
CASES["split-nleft-from-i"]=[(T,"	var nleft, nright int = 0, T.nsamples\n",""),(T,"		nright--\n		nleft++\n","		nleft := i + 1\n		nright := T.nsamples - nleft\n")]
CASES["split-minchild-var"]=[(T,"	sq := func(x float64) float64 { return x * x }\n","	sq := func(x float64) float64 { return x * x }\n	minChild := int(o.MinChildWeight)\n"),(T,"""			//proper value.
			if nleft < int(o.MinChildWeight) || xi == xinext {
				continue
			}
			if nright < int(o.MinChildWeight) {
				break""","""			//proper value.
			if nleft < minChild || xi == xinext {
				continue
			}
			if nright < minChild {
				break""")]
CASES["value-helper"]=[(T,"		ret.value = -1 * floats.Sum(utils.SampleSlice(ret.grads, o.Indexes)) / (floats.Sum(utils.SampleSlice(ret.hess, o.Indexes)) + o.Lambda) //eq 5\n","		ret.value = leafWeight(ret.grads, ret.hess, o.Indexes, o.Lambda) //eq 5\n"),(T,"func (T *Tree) maybeInsertChildNode(","""func leafWeight(grads, hess []float64, rows []int, lambda float64) float64 {
	var g, h float64
	for _, r := range rows {
		g += grads[r]
		h += hess[r]
	}
	return -g / (h + lambda)
}

func (T *Tree) maybeInsertChildNode(""")]
CASES["newtree-literal"]=[(T,"	ret := &Tree{}\n	if o.XGB {\n		if o.Gradients","	ret := &Tree{x: X, y: o.Y, grads: o.Gradients, hess: o.Hessian, features: len(X[0]), branches: 1}\n	if o.XGB {\n		if o.Gradients"),(T,"	ret.grads = o.Gradients\n	ret.hess = o.Hessian\n	ret.y = o.Y\n",""),(T,"	ret.features = len(X[0]) //no col subsampling\n	ret.x = X\n	ret.branches = 1\n","")]
CASES["feats-loop"]=[(T,"	index := slices.Index(f.feat, feature)\n	if index >= 0 {\n		f.gains[index] += gain\n		return\n	}\n","	for i, v := range f.feat {\n		if v == feature {\n			f.gains[i] += gain\n			return\n		}\n	}\n")]
CASES["fi-kids"]=[(T,"	T.left.FeatureImportance(xgboost, gains...)\n	T.right.FeatureImportance(xgboost, gains...)\n","	for _, child := range []*Tree{T.left, T.right} {\n		child.FeatureImportance(xgboost, gains...)\n	}\n")]
CASES["less-eq"]=[(T,"	if f.xgb {\n		return f.gains[i] > f.gains[j] //in xgb higher scores go first\n\n	}\n	return f.gains[i] < f.gains[j]","	a, b := f.gains[i], f.gains[j]\n	if !f.xgb {\n		return a < b\n	}\n	return b < a")]
# prediction
CASES["ps-sum-then-scale"]=[(M,"	tmp := make([]float64, M.Classes())\n	for i := range tmp {\n		tmp[i] = M.baseScore\n	}\n	for _, ensemble := range M.b {\n		for class, tree := range ensemble {\n			tmp[class] += tree.PredictSingle(instance) * M.learningRate\n		}\n	}\n","	tmp := M.rawScores(instance)\n"),(M,"// Returns the importance","func (M *MultiClass) rawScores(instance []float64) []float64 {\n	tmp := make([]float64, M.Classes())\n	for i := range tmp {\n		tmp[i] = M.baseScore\n	}\n	for _, ensemble := range M.b {\n		for class, tree := range ensemble {\n			tmp[class] += tree.PredictSingle(instance) * M.learningRate\n		}\n	}\n	return tmp\n}\n\n// Returns the importance")]
if "// Returns the importance" not in src(M):
    a,b=CASES["ps-sum-then-scale"]; k="func (M *MultiClass) FeatureImportance()"
    CASES["ps-sum-then-scale"]=[a,(M,k,b[2].replace("// Returns the importance",k))]
CASES["ps-fit-helper"]=[(M,"	var preds []float64\n	if len(predictions) > 0 && len(predictions[0]) >= M.Classes() {\n		preds = predictions[0][:M.Classes()]\n	} else {\n		preds = make([]float64, M.Classes())\n	}\n","	preds := M.buffer(predictions)\n"),(M,"func (M *MultiClass) FeatureImportance()","func (M *MultiClass) buffer(given [][]float64) []float64 {\n	n := M.Classes()\n	if len(given) == 0 || len(given[0]) < n {\n		return make([]float64, n)\n	}\n	return given[0][:n]\n}\n\nfunc (M *MultiClass) FeatureImportance()")]
CASES["psc-argmax"]=[(M,"	prediction := 0\n	maxval := preds[0]\n	for i, v := range preds {\n		if v > maxval {\n			prediction = i\n			maxval = v\n		}\n	}\n	return prediction","	best := 0\n	for i := range preds {\n		if preds[i] > preds[best] {\n			best = i\n		}\n	}\n	return best")]
# grid
nest=between(G,"	for rounds := o.Rounds[0];","	if cpus > 0 { //the last")
CASES["grid-flat"]=[(G,nest,"""	for _, t := range gridCandidates(o, defaultoptions) {
		conc := &Options{O: t, Acc: accs[cpus], Err: errs[cpus], Ochan: os[cpus], Conc: true}
		go MultiClassCrossValidation(data, nfold, conc)
		cpus++
		if cpus == ncpus {
			var err error
			bestacc, finaloptions, accuracies, err = rescueConcValues(errs, accs, os, bestacc, finaloptions, accuracies, o.Verbose, o.WriteBest, data)
			if err != nil {
				return -1, nil, nil, err
			}
			cpus = 0
		}
	}
"""),(G,"// Rescues cross","""func gridCandidates(o *GridOptions, defaultoptions func() *boo.Options) []*boo.Options {
	var ret []*boo.Options
	for rounds := o.Rounds[0]; rounds <= o.Rounds[1]; rounds += o.Rounds[2] {
		for cw := o.MinChildWeight[0]; cw <= o.MinChildWeight[1]; cw += o.MinChildWeight[2] {
			for md := o.MaxDepth[0]; md <= o.MaxDepth[1]; md += o.MaxDepth[2] {
				for css := o.ColSubSample[0]; css <= o.ColSubSample[1]; css += o.ColSubSample[2] {
					for lr := o.LearningRate[0]; lr <= o.LearningRate[1]; lr += o.LearningRate[2] {
						for lam := o.Lambda[0]; lam <= o.Lambda[1]; lam += o.Lambda[2] {
							for gam := o.Gamma[0]; gam <= o.Gamma[1]; gam += o.Gamma[2] {
								for ss := o.SubSample[0]; ss <= o.SubSample[1]; ss += o.SubSample[2] {
									t := defaultoptions()
									t.ColSubSample = css
									t.LearningRate = lr
									t.MaxDepth = md
									t.Rounds = rounds
									t.Lambda = lam
									t.Gamma = gam
									t.SubSample = ss
									t.MinChildWeight = cw
									t.XGB = o.XGB
									t.EarlyStop = o.EarlyStop
									ret = append(ret, t)
								}
							}
						}
					}
				}
			}
		}
	}
	return ret
}

// Rescues cross""")]
import re
def rng(s):
    for n,f in (("rounds","Rounds"),("md","MaxDepth")):
        s=s.replace(f"for {n} := o.{f}[0]; {n} <= o.{f}[1]; {n} += o.{f}[2] {{",f"for _, {n} := range intValues(o.{f}) {{")
    for n,f in (("cw","MinChildWeight"),("css","ColSubSample"),("lr","LearningRate"),("lam","Lambda"),("gam","Gamma"),("ss","SubSample")):
        s=s.replace(f"for {n} := o.{f}[0]; {n} <= o.{f}[1]; {n} += o.{f}[2] {{",f"for _, {n} := range floatValues(o.{f}) {{")
    return s
vals="""func intValues(r [3]int) []int {
	var ret []int
	for v := r[0]; v <= r[1]; v += r[2] {
		ret = append(ret, v)
	}
	return ret
}

func floatValues(r [3]float64) []float64 {
	var ret []float64
	for v := r[0]; v <= r[1]; v += r[2] {
		ret = append(ret, v)
	}
	return ret
}

// Rescues cross"""
CASES["grid-values"]=[(G,nest,rng(nest)),(G,"// Rescues cross",vals)]
CASES["grad-values"]=[(G,"// Rescues cross",vals),(GR,"	for cw := o.MinChildWeight[0]; cw <= o.MinChildWeight[1]; cw += o.MinChildWeight[2] {\n","	for _, cw := range floatValues(o.MinChildWeight) {\n"),(GR,"		for md := o.MaxDepth[0]; md <= o.MaxDepth[1]; md += o.MaxDepth[2] {\n","		for _, md := range intValues(o.MaxDepth) {\n"),]
CASES["hybrid-mid-helper"]=[(H,"""					o2 := o.Clone()
					or := o.Rounds
					cr := int(float64(or[2]) * 0.1)

					o2.Rounds = [3]int{rounds - or[2], rounds + or[2], cr}
					lram := float64(lam) * 0.1
					oldlam := o.Lambda
					o2.Lambda = [3]float64{lam - oldlam[2], lam + oldlam[2], lram}
""","""					o2 := narrowed(o, rounds, lam)
"""),(H,"// uses 5","""func narrowed(o *GridOptions, rounds int, lam float64) *GridOptions {
	ret := o.Clone()
	rstep, lstep := o.Rounds[2], o.Lambda[2]
	ret.Rounds = [3]int{rounds - rstep, rounds + rstep, int(float64(rstep) * 0.1)}
	ret.Lambda = [3]float64{lam - lstep, lam + lstep, lam * 0.1}
	return ret
}

// uses 5""")]
CASES["pick-grid-options"]=[(G,"""	var o *GridOptions
	if len(options) > 0 && options[0] != nil {
		o = options[0]
	} else {
		o = DefaultXGridOptions()
	}
	defaultoptions := boo.DefaultGOptions
	if o.XGB {
		defaultoptions = boo.DefaultXOptions
	}
""","""	o := gridOptions(options)
	defaultoptions := baseOptions(o.XGB)
"""),(G,"// Rescues cross","""func gridOptions(given []*GridOptions) *GridOptions {
	if len(given) == 0 || given[0] == nil {
		return DefaultXGridOptions()
	}
	return given[0]
}

func baseOptions(xgb bool) func() *boo.Options {
	if xgb {
		return boo.DefaultXOptions
	}
	return boo.DefaultGOptions
}

// Rescues cross""")]
rb=between(G,"	for i, v := range errors {\n		//everything","	if firsterr != nil {\n		return -1, nil, nil, firsterr")
CASES["rescue-struct"]=[(G,rb,"""	for i := range errors {
		r := receive(errors[i], accs[i], opts[i])
		if r.err != nil {
			if firsterr == nil {
				firsterr = r.err
			}
			continue
		}
		accuracies = append(accuracies, r.acc)
		if r.acc <= bestacc {
			continue
		}
		bestacc, bestop = r.acc, r.o
		if verbose {
			fmt.Printf("New Best Accuracy %.0f%%, %s\\n", bestacc, bestop.String())
		}
		if writebest {
			if err := writeBest(data, bestacc, bestop); err != nil {
				log.Printf("Couldn't write the best model: %v", err)
			}
		}
	}
"""),(G,"	var err error\n	var tmpacc float64\n	var tmpop *boo.Options\n	var firsterr error\n","	var firsterr error\n"),(G,"func writeBest(","""type evaluation struct {
	acc float64
	o   *boo.Options
	err error
}

func receive(errs chan error, accs chan float64, os chan *boo.Options) evaluation {
	var r evaluation
	r.err = <-errs
	r.acc = <-accs
	r.o = <-os
	if r.err == nil && r.acc < 0 {
		r.err = fmt.Errorf("grads zero")
	}
	return r
}

func writeBest(""")]
CASES["folds-train-helper"]=[(G,"""		var b *boo.MultiClass
		train, test := sampler()
		if opts.O == nil {
			b = boo.NewMultiClass(train)
		} else {
			b = boo.NewMultiClass(train, opts.O)
		}
""","""		train, test := sampler()
		b := boo.NewMultiClass(train, opts.O)
""")]
