package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type entry struct {
	fn     string
	params []int // whose contents must stay as they are
}

func (C *Ctx) heap(name string) *Heap {
	k := "heap " + name
	if C.heaps == nil {
		C.heaps = map[string]*Heap{}
	}
	if h, ok := C.heaps[k]; ok {
		return h
	}
	h := C.P.Heap(C.fn(name))
	C.heaps[k] = h
	seen := map[*ssa.Function]bool{}
	for _, c := range h.ctxs {
		C.fns[fname(c.fn)] = true
		seen[c.fn] = true
	}
	C.nodes += len(h.ctxs)
	C.count("calling contexts", len(h.ctxs))
	C.count("memory accesses", len(h.acc))
	return h
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// unmodified: no write reached from the entry may touch what was passed in.
func (C *Ctx) unmodified(e entry, globals bool) {
	C.run("effects of "+e.fn, func() {
		H := C.heap(e.fn)
		n := 0
		for _, a := range H.acc {
			if !a.write {
				continue
			}
			n++
			o := a.l.o
			if o.kind == "global" {
				if globals {
					C.need(false, "writes-global", e.fn, "package-level state %s%s is written: %s", o.label, a.l.path, H.where(a))
				}
				continue
			}
			if o.kind != "root" {
				C.oblig++
				continue
			}
			hit := false
			for _, p := range e.params {
				hit = hit || o.root == p
			}
			if !hit || a.grow {
				C.oblig++
				continue
			}
			C.need(false, "writes-argument", e.fn, "what the caller passed as %s%s is written: %s", o.label, a.l.path, H.where(a))
		}
		C.count("writes examined", n)
	})
}

var readers06 = []entry{
	{"boo.NewMultiClass", []int{0, 1}},
	{"boo.NewTree", []int{0}},
	{"(*boo.MultiClass).Accuracy", []int{1}},
	{"(*boo.MultiClass).PredictSingle", []int{1}},
	{"(*boo.MultiClass).PredictSingleClass", []int{1}},
	{"(*boo.Tree).Predict", []int{1}},
	{"(*boo.Tree).PredictSingle", []int{1}},
	{"cv.MultiClassCrossValidation", []int{0, 2}},
	{"cv.Grid", []int{0, 2}},
	{"cv.GradientGrid", []int{0, 2}},
	{"cv.HybridGradientGrid", []int{0, 2}},
	{"cv.ParamaterGradStep", []int{0, 1, 2}},
	{"cv.GradStep", []int{1, 2}},
	{"utils.CrossValidationSamples", []int{0}},
	{"confu.MCConfusions", []int{1}},
	{"(*utils.DataBunch).CSV", []int{0}},
	{"(*utils.DataBunch).LibSVM", []int{0}},
	{"(*utils.DataBunch).String", []int{0}},
	{"(*utils.DataBunch).OHELabels", []int{0}},
	{"(*utils.DataBunch).OHEKeys", []int{0}},
}

var users07 = []entry{
	{"(*boo.MultiClass).ClassLabels", []int{0}},
	{"(*boo.MultiClass).Classes", []int{0}},
	{"(*boo.MultiClass).Rounds", []int{0}},
	{"(*boo.MultiClass).Accuracy", []int{0}},
	{"(*boo.MultiClass).PredictSingle", []int{0}},
	{"(*boo.MultiClass).PredictSingleClass", []int{0}},
	{"(*boo.MultiClass).FeatureImportance", []int{0}},
	{"(*boo.Tree).Leaf", []int{0}},
	{"(*boo.Tree).Branches", []int{0}},
	{"(*boo.Tree).Predict", []int{0}},
	{"(*boo.Tree).PredictSingle", []int{0}},
	{"(*boo.Tree).Print", []int{0}},
	{"(*boo.Tree).FeatureImportance", []int{0}},
	{"(*boo.Tree).JNode", []int{0}},
	{"confu.MCConfusions", []int{0}},
	{"boo.JSONMultiClass", []int{0}},
	{"boo.MarshalMCMetaData", []int{0}},
}

// notHeld: the result shares nothing with what the receiver holds.
func (C *Ctx) notHeld(name string) {
	C.run("what "+name+" hands out", func() {
		H := C.heap(name)
		n := 0
		for k, s := range H.nodes {
			if k.c != H.root || k.v != nil {
				continue
			}
			n++
			for l := range s {
				C.need(l.o.kind != "root", "hands-out-own", name, "the result shares storage with %s%s", l.o.label, l.path)
			}
		}
		C.floor("results examined", n, 1)
	})
}

func init() {
	reg("C06", "proof", "every write (stores, map updates, copies, appends into existing storage, writing library calls) reachable from the entry points that take a dataset or options, by context-sensitive points-to analysis: none may reach the storage of the arguments named by the property", func(C *Ctx) {
		for _, e := range readers06 {
			C.unmodified(e, false)
		}
		C.floor("entry points", len(readers06), 20)
	})
	reg("C07", "proof", "every write reachable from the functions that use a trained model, by context-sensitive points-to analysis: none may reach the model, its trees or package-level variables; the label list handed out shares no storage with the model", func(C *Ctx) {
		for _, e := range users07 {
			C.unmodified(e, true)
		}
		C.notHeld("(*boo.MultiClass).ClassLabels")
	})
}
