package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var (
	srchOpq = []string{"cv.MultiClassCrossValidation", "cv.GradStep", "cv.fuzzOptions", "cv.writeBest", "(*boo.Options).Equal"}
	cvOpq   = []string{"utils.CrossValidationSamples", "boo.NewMultiClass", "(*boo.MultiClass).Rounds", "(*boo.MultiClass).Accuracy"}
	onlyO   = map[string][]string{"cv.Options": {"O"}}
)

func init() {
	reg("C10", "proof", "canonical values of everything the searches hand to cross-validation (data, folds, candidate), of what the collected results do to the best accuracy and its options, and of the returned accuracy, options and error, compared with the property stated as a reference search; loop-carried values (best so far, options so far) by partition refinement", func(C *Ctx) {
		C.Flow(Flow{fn: "cv.rescueConcValues", spec: "cv.vsRescue", opaque: []string{"cv.writeBest", "(*boo.Options).String"}, result: true, results: []int{0, 1, 3}})
		C.Flow(Flow{fn: "cv.Grid", spec: "cv.vsGrid", opaque: []string{"cv.rescueConcValues"}, keep: onlyO,
			calls: []FlowCall{{name: "go cv.MultiClassCrossValidation", own: "O"}, {name: "cv.rescueConcValues", args: []int{3, 4}}}, result: true, results: []int{0, 2, 3}})
		C.Flow(Flow{fn: "cv.GradientGrid", bis: true, spec: "cv.vsGradientGrid", opaque: srchOpq, keep: onlyO,
			calls: []FlowCall{{name: "cv.MultiClassCrossValidation"}, {name: "cv.GradStep", args: []int{2, 5}}}, result: true, results: []int{0, 2, 3}})
		C.Flow(Flow{fn: "cv.HybridGradientGrid", bis: true, spec: "cv.vsHybrid", opaque: srchOpq, keep: onlyO,
			calls: []FlowCall{{name: "cv.MultiClassCrossValidation"}, {name: "cv.GradStep", args: []int{2, 5}}}, result: true, results: []int{0, 2, 3}})
		C.Flow(Flow{fn: "cv.MultiClassCrossValidation", spec: "cv.vsCrossValidation", opaque: cvOpq, calls: []FlowCall{{name: "utils.CrossValidationSamples"}}})
		C.floor("loop-carried values", C.counts["loop-carried values"], 10)
	})
	reg("C11", "proof", "canonical value of every candidate the grid search hands to cross-validation, field by field, with the loops around the hand-over (first value, step, condition to go on), compared with the property stated as eight nested loops", func(C *Ctx) {
		C.Flow(Flow{fn: "cv.Grid", spec: "cv.vsGrid", opaque: []string{"cv.rescueConcValues"}, keep: onlyO, calls: []FlowCall{{name: "go cv.MultiClassCrossValidation", own: "O"}}})
		C.floor("call sites compared", C.counts["call sites compared"], 1)
	})
	reg("C09", "proof", "canonical condition, channel and value of every send of a background evaluation, of every goroutine start and of every receive of the searches, in all their loops and on all their paths, compared with the property stated as a reference; order of the three sends and of the three receives of one evaluation by reachability in the flow graph", func(C *Ctx) {
		cvFlow(C)
		C.Flow(Flow{fn: "cv.rescueConcValues", spec: "cv.vsRescue", opaque: []string{"cv.writeBest", "(*boo.Options).String"}, calls: []FlowCall{{name: "recv error"}, {name: "recv float64"}, {name: "recv *boo.Options"}}, result: true})
		C.Flow(Flow{fn: "cv.Grid", spec: "cv.vsGrid", opaque: []string{"cv.rescueConcValues"}, calls: []FlowCall{{name: "go cv.MultiClassCrossValidation"}, {name: "cv.rescueConcValues", args: []int{0, 1, 2, 3, 4}}}, result: true, results: []int{0, 2, 3}})
		gradFlow(C)
		paramFlow(C)
		C.inOrder("cv.MultiClassCrossValidation", cvOpq, nil)
		C.inOrder("cv.rescueConcValues", []string{"cv.writeBest", "(*boo.Options).String"}, nil)
		C.inOrder("cv.ParamaterGradStep", []string{"cv.checkAgainstOptions", "(*boo.Options).Check"}, nil)
		C.background("cv")
	})
	reg("C29", "proof", "canonical values of the candidates a gradient worker evaluates and of the options it delivers, for each hyperparameter (loop-carried options by partition refinement), of the range test deciding them, and of what a gradient step takes from each worker, compared with the property stated as a reference step", func(C *Ctx) {
		C.Equiv(Equiv{fn: "cv.checkAgainstOptions", spec: "cv.vsInRange"})
		C.Equiv(Equiv{fn: "cv.currentValue", spec: "cv.vsCurrent"})
		gradFlow(C)
		paramFlow(C)
		C.floor("call sites compared", C.counts["call sites compared"], 20)
	})
}

// cvFlow: what cross-validation trains, evaluates, returns and sends.
func cvFlow(C *Ctx) {
	C.Flow(Flow{fn: "cv.MultiClassCrossValidation", spec: "cv.vsCrossValidation", opaque: cvOpq,
		calls: []FlowCall{{name: "utils.CrossValidationSamples"}, {name: "dynamic func() (*utils.DataBunch, *utils.DataBunch)"}, {name: "boo.NewMultiClass"}, {name: "(*boo.MultiClass).Rounds"}, {name: "(*boo.MultiClass).Accuracy"}, {name: "send error"}, {name: "send float64"}, {name: "send *boo.Options"}}, result: true})
}

// gradFlow: the workers of a gradient step, what each is given and what is taken from each.
func gradFlow(C *Ctx) {
	C.Flow(Flow{fn: "cv.GradStep", spec: "cv.vsGradStep", opaque: []string{"cv.MultiClassCrossValidation"},
		calls: []FlowCall{{name: "cv.MultiClassCrossValidation"}, {name: "go*"}, {name: "recv*"}, {name: "send*"}}, result: true})
}

// paramFlow: one worker, for each parameter: the evaluations it starts, collects and uses,
// and what it delivers.
func paramFlow(C *Ctx) {
	for _, p := range []string{"Gamma", "Lambda", "SubSample", "ColSubSample", "LearningRate", "Rounds"} {
		for _, central := range []B{BTrue, BFalse} {
			C.Flow(Flow{fn: "cv.ParamaterGradStep", bis: true, contents: true, spec: "cv.vsParamStep", opaque: []string{"cv.checkAgainstOptions", "(*boo.Options).Check"},
				params: map[int]*Term{3: T("str", p), 8: fromB(central)},
				calls:  []FlowCall{{name: "go*"}, {name: "recv*"}, {name: "send*"}}})
		}
	}
}

// inOrder: an evaluation sends its error, then its accuracy, then its options; whoever
// collects one takes them in that order.
func (C *Ctx) inOrder(fn string, opaque []string, params map[int]*Term) {
	C.run(fn, func() {
		f := C.P.Func(fn)
		if f == nil {
			C.fail("anchor", fn, "the function %s is gone: the property cannot be established", fn)
			return
		}
		g := C.flatGraph(f, opaque, nil, params)
		C.analysed(g)
		type op struct {
			n    *Node
			rank int
			who  string
		}
		var ops []op
		for _, n := range g.rpo {
			if !n.live || n.ins == nil {
				continue
			}
			name := g.eventName(n)
			kind, rest, _ := strings.Cut(name, " ")
			if kind != "send" && kind != "recv" {
				continue
			}
			typ, who, _ := strings.Cut(rest, " from ")
			if i := strings.LastIndexByte(who, '.'); i > 0 {
				who = who[:i]
			}
			rank := map[string]int{"error": 1, "float64": 2, "*boo.Options": 3}[typ]
			if kind == "send" && fn == "cv.ParamaterGradStep" {
				continue // the result of the step
			}
			if rank == 0 {
				continue
			}
			ops = append(ops, op{n, rank, kind + who})
		}
		C.floor(fn+": sends and receives", len(ops), 3)
		for _, a := range ops {
			reach := map[*Node]bool{}
			for _, b := range ops {
				if a.who != b.who || a.rank <= b.rank {
					continue
				}
				C.oblig++
				if band(g.RB(g.guard(a.n)), g.RB(g.guard(b.n))) == BFalse {
					continue
				}
				if len(reach) == 0 {
					g.ahead(a.n, b.n, reach)
				}
				if reach[b.n] {
					C.fail("order", fn, "%s: the %s value is passed before the %s value of the same evaluation (%s)", g.where(a.n), [...]string{"", "error", "accuracy", "options"}[a.rank], [...]string{"", "error", "accuracy", "options"}[b.rank], g.where(b.n))
				}
			}
		}
	})
}

// ahead: the nodes reached from a before the innermost loop around it starts over.
func (g *Graph) ahead(a, b *Node, r map[*Node]bool) {
	for w := []*Node{a}; len(w) > 0; {
		n := w[len(w)-1]
		w = w[:len(w)-1]
		for _, e := range n.succ {
			if e.back && e.to.loop != nil && e.to.loop.contains(a) {
				continue
			}
			if !r[e.to] {
				r[e.to] = true
				w = append(w, e.to)
			}
		}
	}
}

// background: a goroutine started anywhere in the package that sends or receives is one of
// those whose results are accounted for.
func (C *Ctx) background(pkg string) {
	known := map[string]bool{"cv.MultiClassCrossValidation": true, "cv.ParamaterGradStep": true}
	n := 0
	for _, f := range C.P.all {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != pkg || C.P.isSpec(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				g, ok := ins.(*ssa.Go)
				if !ok {
					continue
				}
				n++
				c := g.Call.StaticCallee()
				C.need(c != nil && (known[fname(c)] || !C.P.talks(c, map[*ssa.Function]bool{})), "goroutine", fname(f), "%s: starts a goroutine whose results nothing accounts for", C.P.pos(g.Pos()))
			}
		}
	}
	C.floor("goroutine starts", n, 3)
}

// talks: f, or something it calls, uses a channel.
func (P *Prog) talks(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] || !P.own(f) {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch v := ins.(type) {
			case *ssa.Send, *ssa.Select:
				return true
			case *ssa.UnOp:
				if v.Op == token.ARROW {
					return true
				}
			case *ssa.MakeClosure:
				if P.talks(v.Fn.(*ssa.Function), seen) {
					return true
				}
			case ssa.CallInstruction:
				if c := v.Common().StaticCallee(); c != nil && P.talks(c, seen) {
					return true
				}
			}
		}
	}
	return false
}
