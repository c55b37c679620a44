package main

import "go/types"

// A node's own record of what it was fitted on is that of the options it is split
// with: NewTree sets one from the other just before (which C04, C05 and C20 compare).
func nodeAxioms(t, o *Term) map[*Term]*Term {
	f := func(n string, x *Term) *Term { return T("fld", n, x) }
	return map[*Term]*Term{
		f("nsamples", t): mkLen(f("Indexes", o)),
		f("samples", t):  f("Indexes", o),
		f("grads", t):    f("Gradients", o),
		f("hess", t):     f("Hessian", o),
		f("y", t):        f("Y", o),
		f("xgb", t):      f("XGB", o),
	}
}

func init() {
	p0, p1, p2 := T("param", "p0"), T("param", "p1"), T("param", "p2")
	insert := func(C *Ctx, keep []string, fields ...string) {
		C.Equiv(Equiv{fn: "(*boo.Tree).maybeInsertChildNode", spec: "boo.vsInsertChild",
			opaque: []string{"(*boo.Tree).maybeInsertChildNode", "boo.NewTree", "(*boo.Tree).findBetterSplit"},
			keep:   map[string][]string{"boo.TreeOptions": keep}, noRes: true, axioms: nodeAxioms(p0, p1),
			only: func(c cell) bool {
				for _, f := range fields {
					if c.loc.op == "faddr" && c.loc.s == f && c.loc.args[0] == T("param", "p0") {
						return true
					}
				}
				return false
			}})
	}
	newTree := func(C *Ctx, keep ...string) {
		C.Equiv(Equiv{fn: "boo.NewTree", spec: "boo.vsNewTree", opaque: []string{"(*boo.Tree).maybeInsertChildNode"}, keep: map[string][]string{"boo.Tree": keep}})
	}
	leaf := func(C *Ctx) { C.Equiv(Equiv{fn: "(*boo.Tree).Leaf", spec: "boo.vsLeaf"}) }

	reg("C04", "proof", "canonical value of the prediction of a node for an arbitrary row, and of the two children a node is given (rows handed down, data handed down, the condition for staying a leaf), compared with: rows with x[feature] <= threshold in order go left, all others go right, the same test sends a sample down at prediction", func(C *Ctx) {
		helpersByReference(C)
		C.Equiv(Equiv{fn: "(*boo.Tree).PredictSingle", spec: "boo.vsTreePredictSingle", opaque: []string{"(*boo.Tree).PredictSingle"}, alt: []string{"boo.vsTreePredictLoop"}})
		leaf(C)
		insert(C, []string{"Indexes"}, "left", "right", "x")
		newTree(C, "samples", "nsamples", "x", "xgb", "bestScoreSoFar", "features", "grads", "hess", "y")
	}, floatNote)

	reg("C05", "proof", "every store that adopts a split is reached only under the size and distinct-value tests for the rows on both sides of the adopted position; columns offered to a node, depth and limits handed to the children compared by canonical value with the options' own", func(C *Ctx) {
		helpersByReference(C)
		C.run("(*boo.Tree).findBetterSplit", func() { splitGuards(C) })
		insert(C, []string{"MaxDepth", "AllowedColumns", "MinChildWeight"}, "left", "right", "splitFeatureIndex", "threshold")
		newTree(C, "nsamples", "features", "samples", "left", "right", "grads", "hess", "y", "xgb")
		C.Equiv(Equiv{fn: "(*boo.TreeOptions).clone", spec: "boo.vsTreeOptionsClone", keep: map[string][]string{"boo.TreeOptions": {"MaxDepth", "AllowedColumns", "MinChildWeight"}}})
	}, floatNote)

	reg("C20", "proof", "canonical node value, split score, adopted threshold and adoption test for an arbitrary node, compared with the formulas of the property", func(C *Ctx) {
		helpersByReference(C)
		newTree(C, "value", "grads", "hess", "y", "xgb", "bestScoreSoFar", "samples", "nsamples")
		C.Equiv(Equiv{fn: "(*boo.Tree).findBetterSplit", spec: "boo.vsFindBetterSplit", opaque: []string{"utils.MemArgSort"}, axioms: nodeAxioms(p0, p2), split: []*Term{T("fld", "XGB", p2)}})
		leafUpdate(C)
		C.sharedTails([]string{"boo.NewTree"})
		train(C, []string{"XGB", "Lambda", "Gamma", "Gradients", "Hessian", "Y"}, nil, fcTree, fcLeaves, fcHess, fcGrad, fcNeg)
	}, floatNote)

	reg("C12", "proof", "canonical value of every field of the object returned by Clone, of the result of Equal, and of the options each child node is built with, compared with a whole-struct copy, a whole-struct comparison and the parent's own options", func(C *Ctx) {
		C.Equiv(Equiv{fn: "(*boo.Options).Clone", spec: "boo.vsOptionsClone"})
		C.Equiv(Equiv{fn: "(*boo.Options).Equal", spec: "boo.vsOptionsEqual"})
		C.Equiv(Equiv{fn: "(*cv.GridOptions).Clone", spec: "cv.vsGridClone"})
		C.Equiv(Equiv{fn: "(*boo.TreeOptions).clone", spec: "boo.vsTreeOptionsClone", keep: map[string][]string{"boo.TreeOptions": {"Debug", "XGB", "MinChildWeight", "AllowedColumns", "Lambda", "Gamma", "ColSampleByNode", "Gradients", "Hessian", "Y", "MaxDepth", "Indexes"}}})
		insert(C, []string{"Debug", "XGB", "MinChildWeight", "AllowedColumns", "Lambda", "Gamma", "ColSampleByNode", "Gradients", "Hessian", "Y"}, "left", "right")
	})
}

// splitGuards: a split is adopted only with enough rows on both sides and between different values.
func splitGuards(C *Ctx) {
	f := C.fn("(*boo.Tree).findBetterSplit")
	p0, p2 := T("param", "p0"), T("param", "p2")
	axioms = nodeAxioms(p0, p2)
	defer func() { axioms = nil }()
	g := C.graph(f, []string{"utils.MemArgSort"}, nil)
	C.analysed(g)
	w := mkTrunc(T("fld", "MinChildWeight", p2))
	n := mkLen(T("fld", "Indexes", p2))
	stores := append(g.fieldStores("boo.Tree", "splitFeatureIndex"), g.fieldStores("boo.Tree", "threshold")...)
	C.floor("stores adopting a split", len(stores), 2)
	srt := g.calls("utils.MemArgSort")
	if len(srt) != 1 {
		C.fail("anchor", "findBetterSplit", "expected one call that sorts the column, found %d", len(srt))
		return
	}
	el := func(n *Node, l, i *Term) *Term { return g.load(n, mkEaddr(l, i), types.Typ[types.Float64]) }
	for _, s := range stores {
		L := s.loop
		if L == nil {
			C.fail("split-guard", g.where(s), "a split is adopted outside the scan over the sorted values")
			continue
		}
		xs := g.R(g.extract(srt[0], 1))
		i := L.K
		where := g.where(s)
		C.need(g.implies(s, ile(w, add(i, numI(1)))), "left-size", where, "the split after sorted position i is adopted without i+1 >= int(MinChildWeight)")
		C.need(g.implies(s, ile(w, sub(sub(n, i), numI(1)))), "right-size", where, "the split after sorted position i is adopted without nsamples-i-1 >= int(MinChildWeight)")
		C.need(g.implies(s, bnot(feq(el(s, xs, i), el(s, xs, add(i, numI(1)))))), "distinct-values", where, "the split is adopted between two equal consecutive values")
	}
	for _, s := range g.fieldStores("boo.Tree", "threshold") {
		v := g.R(g.at(s, storeVal(s)))
		xs := g.R(g.extract(srt[0], 1))
		i := s.loop.K
		want := mul(numRat(1, 2), add(el(s, xs, i), el(s, xs, add(i, numI(1)))))
		V := g.View(s)
		C.need(V.T(v) == V.T(want), "threshold-place", g.where(s), "the adopted threshold does not lie halfway between the values at sorted positions i and i+1: %s", clip(V.T(v)))
	}
}
