package main

import "golang.org/x/tools/go/ssa"

// What training calls is compared call by call with the reference in
// specs/boo_train.go.txt; the helpers below have comparisons of their own.
var trainOpaque = []string{"boo.NewTree", "boo.updateLeaves", "boo.SubSample", "(*utils.DataBunch).OHELabels", "utils.SoftMaxDense", "utils.DenseCol", "utils.AddToCol", "boo.emptyTree", "(*boo.Tree).Predict"}

func train(C *Ctx, keep []string, model []string, calls ...FlowCall) {
	C.Flow(Flow{fn: "boo.NewMultiClass", spec: "boo.vsNewMultiClass", alt: []string{"boo.vsNewMultiClassHoisted", "boo.vsNewMultiClassDirect"}, altLast: true, opaque: trainOpaque, calls: calls, result: model != nil,
		keep: map[string][]string{"boo.TreeOptions": keep, "boo.MultiClass": model}})
}

var (
	fcSub     = FlowCall{name: "boo.SubSample"}
	fcOHE     = FlowCall{name: "(*utils.DataBunch).OHELabels"}
	fcTree    = FlowCall{name: "boo.NewTree"}
	fcLeaves  = FlowCall{name: "boo.updateLeaves"}
	fcPredict = FlowCall{name: "(*boo.Tree).Predict", args: []int{0, 1}}
	fcCol     = FlowCall{name: "utils.DenseCol"}
	fcAdd     = FlowCall{name: "utils.AddToCol"}
	fcSoft    = FlowCall{name: "utils.SoftMaxDense", args: []int{0}}
	fcHess    = FlowCall{name: "(utils.LossFunc).Hessian", args: []int{0, 1}}
	fcGrad    = FlowCall{name: "(utils.LossFunc).Gradients", args: []int{0, 1, 2}}
	fcNeg     = FlowCall{name: "(utils.LossFunc).NegGradients", args: []int{0, 1, 2}}
	fcLoss    = FlowCall{name: "(utils.LossFunc).Loss", args: []int{0, 1, 2}}
	fcEmpty   = FlowCall{name: "boo.emptyTree"}
)

func init() {
	regTmp("X2", "proof", "", func(C *Ctx) {
		train(C, nil, []string{"b", "learningRate", "classLabels", "probTransform", "baseScore", "xgb"}, fcSub, fcOHE, fcTree, fcLeaves, fcPredict, fcCol, fcAdd, fcSoft, fcHess, fcGrad, fcNeg, fcLoss, fcEmpty)
	})
	reg("C27", "proof", "every call that draws a sample or fits a tree in training, for arbitrary data and options: the condition under which it is made, the loops around it and the rows, columns and limits it is given, by canonical value, compared with the property's reading of a round; the drawing function itself", func(C *Ctx) {
		train(C, []string{"XGB", "MinChildWeight", "AllowedColumns", "Lambda", "Gamma", "MaxDepth", "Indexes"}, nil, fcSub, fcTree)
		C.sharedTails([]string{"boo.NewMultiClass"})
		subSample(C)
	}, floatNote)
	reg("C28", "proof", "the condition under which training fits a tree for a class in a round (with the running counters, previous losses and stop marks it depends on) and the loss calls it is fed from, by canonical value, compared with the patience rule; the resulting list of trees per class and the placeholder of a stopped class", func(C *Ctx) {
		train(C, []string{"XGB"}, []string{"b"}, fcTree, fcLoss, fcEmpty)
		placeholder(C)
	}, floatNote)
	reg("C02", "proof", "every call that takes a class's labels or probabilities, fits, stores, evaluates or adds a tree in training, with the condition and loops around it and its arguments by canonical value, compared with: position k throughout; the order of the trees in the model; one-hot rows, scores at prediction, accuracy and confusions read through the same label order", func(C *Ctx) {
		train(C, []string{"XGB", "Y", "Gradients", "Hessian"}, []string{"b", "classLabels"}, fcOHE, fcTree, fcLeaves, fcPredict, fcCol, fcAdd, fcHess, fcGrad, fcNeg, fcEmpty)
		C.sharedTails([]string{"boo.NewMultiClass"})
		placeholder(C)
		oneHot(C)
		scores(C)
		C.Equiv(Equiv{fn: "(*boo.MultiClass).Accuracy", spec: "boo.vsAccuracy", alt: []string{"boo.vsAccuracyWrong"}, opaque: []string{"(*boo.MultiClass).PredictSingleClass"}})
		C.Equiv(Equiv{fn: "confu.MCConfusions", spec: "confu.vsMCConfusions", opaque: []string{"(*boo.MultiClass).PredictSingleClass"}})
	}, floatNote)
}

func subSample(C *Ctx) { C.Equiv(Equiv{fn: "boo.SubSample", spec: "boo.vsSubSample"}) }
func placeholder(C *Ctx) {
	C.Equiv(Equiv{fn: "boo.emptyTree", spec: "boo.vsEmptyTree", keep: map[string][]string{"boo.Tree": {"xgb", "bestScoreSoFar", "left", "right", "value"}}})
}
func oneHot(C *Ctx) {
	C.Equiv(Equiv{fn: "(*utils.DataBunch).OHELabels", spec: "utils.vsOHELabels"})
}

// scores: the prediction of the whole model for one sample and for many.
func scores(C *Ctx) {
	C.Equiv(Equiv{fn: "(*boo.MultiClass).PredictSingle", spec: "boo.vsPredictSingle", opaque: []string{"(*boo.Tree).PredictSingle"}})
}

// leafUpdate: a leaf's value is replaced by the ratio of sums over its rows, and every
// node of the tree is visited.
func leafUpdate(C *Ctx) {
	p0 := T("param", "p0")
	left, right := T("isnil", "", T("fld", "left", p0)), T("isnil", "", T("fld", "right", p0))
	C.Equiv(Equiv{fn: "boo.updateLeaves", spec: "boo.vsUpdateLeaf", given: map[*Term]bool{left: true, right: true},
		only: func(c cell) bool { return c.loc.op == "faddr" && c.loc.s == "value" && c.loc.args[0] == p0 }})
	C.run("boo.updateLeaves visits", func() {
		g := C.graph(C.fn("boo.updateLeaves"), nil, nil)
		C.analysed(g)
		leaf := C.graph(C.fn("(*boo.Tree).Leaf"), nil, nil)
		isLeaf := toB(leaf.results(leaf.View(leaf.exit))[0])
		inner := ball(bnot(isLeaf), bnot(batom(left)), bnot(batom(right)))
		n := 0
		for _, side := range []string{"left", "right"} {
			ok := false
			for _, c := range g.rpo {
				call, isCall := c.ins.(*ssa.Call)
				if !isCall || c.opq == nil || !recursive(c) {
					continue
				}
				n++
				V := g.View(c)
				hit := false
				for i := range call.Call.Args {
					hit = hit || V.T(g.arg(c, i)) == T("fld", side, p0)
				}
				if hit && c.loop == nil && band(inner, bnot(V.B(g.RB(g.guard(c))))) == BFalse {
					ok = true
				}
			}
			C.need(ok, "leaf-visit", "boo.updateLeaves", "the %s branch of a split node is not visited when the leaf values are set", side)
		}
		C.count("recursive calls", n/2)
	})
}

// recursive: the call at n re-enters a function that is being expanded.
func recursive(n *Node) bool {
	for f := n.fr; f != nil; f = f.parent {
		if f.fn == n.opq {
			return true
		}
	}
	return false
}

func argSort(C *Ctx) {
	C.Equiv(Equiv{fn: "(*utils.idSorter).Len", spec: "utils.vsSortLen"})
	C.Equiv(Equiv{fn: "(*utils.idSorter).Less", spec: "utils.vsSortLess"})
	C.Equiv(Equiv{fn: "(*utils.idSorter).Swap", spec: "utils.vsSortSwap"})
	C.Flow(Flow{fn: "utils.MemArgSort", spec: "utils.vsMemArgSort", calls: []FlowCall{{name: "sort.Sort"}}, result: true})
	C.Flow(Flow{fn: "utils.ArgSort", spec: "utils.vsArgSort", alt: []string{"utils.vsArgSortAppend"}, calls: []FlowCall{{name: "sort.Sort"}}, result: true})
}
