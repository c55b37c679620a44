package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"slices"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Flow compares the calls a function makes with those of a reference: for every
// call of interest the condition under which it is made, the loops it sits in and
// what it is given, where the results of earlier calls are just names. Calls of the
// same function in alternative branches count as one call whose arguments depend
// on the branch.
type Flow struct {
	altLast  bool // alternates only if the usual formulation does not fit
	fn, spec string
	opaque   []string
	calls    []FlowCall
	keep     map[string][]string
	result   bool
	results  []int    // which (nil: all)
	alt      []string // other formulations that are as good
	bis      bool     // compare loop-carried values by partition refinement
	contents bool     // with bis: a loop-carried pointer is what the object it points to holds
	errs     bool     // the last result is an error: whether, not which; the others count if there is none
	nocut    bool
	params   map[int]*Term // arguments of the function that are fixed
	nsplit   int           // how many conditions to decide separately (0: 9)
}

// FlowCall names a callee and the arguments that matter (nil: all of them).
type FlowCall struct {
	name string
	args []int
	own  string // this field of the last argument is made for the call and not changed afterwards
	min  int    // at least so many calls (after merging) must be there
	ok   bool   // with errs: what is called on the way to a failure does not count (outside loops)
}

type event struct {
	nodes []*Node
	name  string
	guard B
	loop  *Loop
}

func (g *Graph) eventName(n *Node) string {
	if n.kind != "" {
		return ""
	}
	switch x := n.ins.(type) {
	case *ssa.Return:
		if n.cut {
			return "return"
		}
		return ""
	case *ssa.Send:
		return "send " + short(x.X.Type().String())
	case *ssa.MapUpdate:
		return "enter " + short(x.Map.Type().String())
	case *ssa.Store:
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok { // settings of library objects
			if t, ok := deref(fa.X.Type()).(*types.Named); ok && t.Obj().Pkg() != nil && !g.P.inMod[t.Obj().Pkg()] {
				return "set " + t.Obj().Pkg().Path() + "." + t.Obj().Name() + "." + fieldName(t, fa.Field)
			}
		}
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			nm := "recv " + short(x.Type().String())
			if c := g.chanName(g.R(g.at(n, x.X))); c != "" {
				nm += " from " + c
			}
			return nm
		}
	case *ssa.Go:
		if f := x.Call.StaticCallee(); f != nil {
			nm := "go " + fname(f)
			for i, a := range x.Call.Args {
				if isString(a.Type()) {
					if v := g.arg(n, i); v.op == "str" {
						nm += "[" + v.s + "]"
					}
				}
			}
			return nm
		}
		return "go"
	}
	c, ok := n.ins.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	if len(n.succ) == 1 && n.succ[0].to.kind == "entry" {
		return "" // expanded
	}
	cc := c.Common()
	if n.opq != nil {
		return fname(n.opq)
	}
	if f := cc.StaticCallee(); f != nil {
		return fname(f)
	}
	if cc.IsInvoke() {
		return short(cc.Method.FullName())
	}
	if _, ok := cc.Value.(*ssa.Builtin); !ok {
		return "dynamic " + short(cc.Value.Type().String())
	}
	return ""
}

// events groups the calls of the graph.
func (g *Graph) events() map[string][]*event {
	r := map[string][]*event{}
	g.rep = map[*Node]*Node{}
	g.evN = map[*Node]int{}
	g.goes, g.chans = nil, map[*Term]string{}
	for _, n := range g.rpo {
		nm := g.eventName(n)
		if nm == "" {
			continue
		}
		gd := g.RB(g.guard(n))
		if gd == BFalse {
			continue
		}
		var to *event
		for _, e := range r[nm] {
			if e.loop == n.loop && band(e.guard, gd) == BFalse {
				to = e
				break
			}
		}
		if to == nil {
			to = &event{name: nm, loop: n.loop, guard: BFalse}
			r[nm] = append(r[nm], to)
			g.evN[n] = len(r[nm])
		}
		if _, ok := n.ins.(*ssa.Go); ok {
			g.goes = append(g.goes, goEvent{n, to})
		}
		to.nodes = append(to.nodes, n)
		to.guard = bor(to.guard, gd)
		g.rep[n] = to.nodes[0]
	}
	return r
}

type goEvent struct {
	n *Node
	e *event
}

// chanName names a channel made here by the goroutine it was handed to, as which argument.
func (g *Graph) chanName(t *Term) string {
	if t.op != "mkchan" {
		return ""
	}
	if s, ok := g.chans[t]; ok {
		return s
	}
	for _, x := range g.goes {
		nm := fmt.Sprintf("%s#%d", x.e.name, g.evN[x.e.nodes[0]])
		for i, a := range x.n.ins.(*ssa.Go).Call.Args {
			v := g.arg(x.n, i)
			if v == t {
				g.chans[t] = fmt.Sprintf("%s.%d", nm, i)
				return g.chans[t]
			}
			st := structOf(a)
			if st == nil || v.op != "new" {
				continue
			}
			for j := 0; j < st.NumFields(); j++ {
				f := st.Field(j)
				if _, ok := f.Type().Underlying().(*types.Chan); ok && g.R(g.load(x.n, T("faddr", f.Name(), v), f.Type())) == t {
					g.chans[t] = fmt.Sprintf("%s.%d.%s", nm, i, f.Name())
					return g.chans[t]
				}
			}
		}
	}
	return ""
}

func (C *Ctx) Flow(e Flow) {
	C.run(e.fn, func() {
		P := C.P
		n0 := len(C.fails)
		var kept []Fail
		if e.altLast { // the usual formulation first
			if f, s := P.Func(e.fn), P.Func(e.spec); f != nil && s != nil {
				if C.tryFlow(e, f, s) {
					return
				}
				kept = append(kept, C.fails[n0:]...)
				C.fails = C.fails[:n0]
			}
		}
		for _, a := range e.alt {
			e2 := e
			e2.spec, e2.alt = a, nil
			for _, nc := range []bool{e.nocut, true} {
				e2.nocut = nc
				if s := P.Func(a); s != nil && P.Func(e.fn) != nil && C.tryFlow(e2, P.Func(e.fn), s) {
					return
				}
				C.fails = C.fails[:n0]
				if !e.errs {
					break
				}
			}
		}
		if len(kept) > 0 {
			C.fails = append(C.fails, kept...)
			return
		}
		f, s := P.Func(e.fn), P.Func(e.spec)
		if f == nil {
			C.fail("anchor", e.fn, "the function %s is gone: the property cannot be established", e.fn)
			return
		}
		if s == nil {
			C.fail("anchor", e.fn, "the reference for %s does not fit the declarations any more: %s", e.fn, P.specErr)
			return
		}
		if e.errs && !e.nocut { // ways out of loops as events of their own, or like any other exit
			e2 := e
			e2.nocut = true
			if C.tryFlow(e2, f, s) {
				return
			}
			if os.Getenv("BOOCHECK_TRY") != "" {
				for _, x := range C.fails[n0:] {
					fmt.Printf("   try: %.1500s\n", fmt.Sprint(x))
				}
			}
			C.fails = C.fails[:n0]
		}
		C.flowSplit(e, f, s, map[*Term]bool{})
	})
}

func (C *Ctx) tryFlow(e Flow, f, s *ssa.Function) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return C.flowSplit(e, f, s, map[*Term]bool{})
}

// flowSplit decides the cases of conditions on what the caller passed separately.
func (C *Ctx) flowSplit(e Flow, f, s *ssa.Function, as map[*Term]bool) bool {
	if !possible(as) {
		return true
	}
	C.P.nocut, C.P.even = e.nocut, e.nocut && e.errs
	if len(as) < e.maxSplit() {
		var best *Term
		for _, g := range []*Graph{C.flatGraph(f, e.opaque, as, e.params), C.flatGraph(s, e.opaque, as, e.params)} {
			for _, a := range C.splits(g) {
				if _, ok := as[a]; !ok && (best == nil || e.rank(a) < e.rank(best)) {
					best = a
				}
			}
		}
		if e.errs && (best == nil || e.rank(best) > 2) {
			for i, p := range f.Params {
				a := T("param", fmt.Sprintf("p%d", i))
				if _, ok := as[a]; !ok && isBool(p.Type()) && e.params[i] == nil {
					best = a
					break
				}
			}
		}
		if best != nil && e.rank(best) < 4 {
			for _, v := range []bool{true, false} {
				a2 := map[*Term]bool{best: v}
				for k, x := range as {
					a2[k] = x
				}
				if !C.flowSplit(e, f, s, a2) {
					return false
				}
			}
			return true
		}
	}
	n := len(C.fails)
	if e.bis {
		C.bisCase(e, f, s, as)
	} else {
		C.flowCase(e, f, s, as)
		if len(C.fails) > n { // the same values, written differently?
			fails := append([]Fail{}, C.fails...)
			C.fails = C.fails[:n]
			if !C.tryBis(e, f, s, as) || len(C.fails) > n {
				C.fails = fails
			}
		}
	}
	C.count("cases", 1)
	for i := n; i < len(C.fails); i++ {
		var w []string
		for a, v := range as {
			w = append(w, fmt.Sprintf("%v=%v", a, v))
		}
		sort.Strings(w)
		C.fails[i].Detail += fmt.Sprintf("\n    (case %s)", strings.Join(w, ", "))
	}
	return len(C.fails) == n
}

func (e Flow) maxSplit() int {
	if e.nsplit == 0 {
		return 9
	}
	return e.nsplit
}

func (e Flow) rank(a *Term) int {
	if e.errs && a.op == "param" {
		return 2
	}
	return splitRank(a)
}

func splitRank(a *Term) int {
	switch {
	case a.op == "isnil":
		return 0
	case a.op == "le0" && a.any(func(t *Term) bool { return t.op == "len" }):
		return 1
	case a.op == "fld":
		return 2
	case a.op == "le0" || a.op == "eq0" || a.op == "flt" || a.op == "fle" || a.op == "feq":
		if a.any(func(t *Term) bool { return t.op == "fld" }) {
			return 3
		}
	}
	return 4
}

func (C *Ctx) flatGraph(f *ssa.Function, opaque []string, as map[*Term]bool, params map[int]*Term) *Graph {
	k := "flat|" + fname(f) + "|" + fmt.Sprint(opaque)
	var ks []string
	for t, b := range as {
		ks = append(ks, fmt.Sprint(t.id, b))
	}
	sort.Strings(ks)
	k += fmt.Sprint(ks, C.P.nocut, C.P.even)
	for i := range f.Params {
		if t := params[i]; t != nil {
			k += fmt.Sprint("|", i, "=", t.id)
		}
	}
	assumed = as
	if g, ok := C.graphs[k]; ok {
		return g
	}
	g := C.P.newGraph(f, C.P.opaqueSet(opaque), as, params, true)
	C.graphs[k] = g
	g.events()
	return g
}

// kk replaces loop counters by their depth.
func (g *Graph) kk(t *Term, L *Loop) *Term {
	m := map[*Term]*Term{}
	d := 0
	for l := L; l != nil; l = l.parent {
		d++
	}
	for l := L; l != nil; l = l.parent {
		m[l.K] = T("kk", fmt.Sprint(d))
		d--
	}
	return substT(t, m)
}

func (C *Ctx) flowCase(e Flow, f, s *ssa.Function, as map[*Term]bool) {
	P := C.P
	gf, gs := C.flatGraph(f, e.opaque, as, e.params), C.flatGraph(s, e.opaque, as, e.params)
	C.analysed(gf)
	gf.errs, gs.errs = e.errs, e.errs
	defer func() { gf.errs, gs.errs = false, false }()
	t0 := time.Now()
	ef, es := gf.events(), gs.events()
	if os.Getenv("BOOCHECK_NAMES") != "" {
		for k, v := range ef {
			fmt.Println("name", k, len(v), len(es[k]))
		}
	}
	calls := e.calls
	if len(ef["return"])+len(es["return"]) > 0 {
		calls = append(append([]FlowCall{}, calls...), FlowCall{name: "return"})
	}
	var all []FlowCall
	for _, c := range calls {
		pre, ok := strings.CutSuffix(c.name, "*")
		if !ok {
			all = append(all, c)
			continue
		}
		names := map[string]bool{}
		for _, m := range []map[string][]*event{ef, es} {
			for k := range m {
				if strings.HasPrefix(k, pre) {
					names[k] = true
				}
			}
		}
		for _, k := range sortedKeys(names) {
			c.name = k
			all = append(all, c)
		}
	}
	for _, c := range all {
		a, b := ef[c.name], es[c.name]
		C.oblig++
		if len(a) != len(b) {
			C.fail("calls", e.fn+" -> "+c.name, "%s: %d separate calls instead of %d", P.pos(f.Pos()), len(a), len(b))
			continue
		}
		C.count("call sites compared", len(a))
		if c.min > len(a) {
			C.fail("calls", e.fn+" -> "+c.name, "%s: only %d calls: nothing to decide the property by", P.pos(f.Pos()), len(a))
		}
		if os.Getenv("BOOCHECK_DEBUG") != "" {
			fmt.Println("event", c.name, len(a), time.Since(t0), len(C.fails))
		}
		for i := range a {
			C.event(e, c, gf, gs, a[i], b[i])
		}
	}
	if e.result {
		vf, vs := gf.View(gf.exit), gs.View(gs.exit)
		vf.fields, vs.fields = e.keep, e.keep
		rf, rs := gf.results(vf), gs.results(vs)
		fact := BTrue
		if e.errs {
			fact = band(gf.knownFacts(vf), gs.knownFacts(vs))
		}
		for i := range rf {
			if e.results != nil && !slices.Contains(e.results, i) {
				continue
			}
			C.oblig++
			x, y := constrainT(project(rf[i], e.keep, P), fact), constrainT(project(rs[i], e.keep, P), fact)
			if os.Getenv("BOOCHECK_RES") != "" {
				fmt.Printf("result %d: %.3000s\n   spec: %.3000s\n", i, x, y)
			}
			if x != y {
				C.fail("result", e.fn, "%s: result %d %s", P.pos(f.Pos()), i, differ(x, y))
			}
		}
	}
}

func (C *Ctx) event(e Flow, c FlowCall, gf, gs *Graph, a, b *event) {
	where := fmt.Sprintf("%s -> %s", e.fn, c.name)
	at := gf.where(a.nodes[0])
	C.oblig++
	la, lb := a.loop, b.loop
	for la != nil && lb != nil {
		x, y := gf.kk(gf.View(la.head).T(gf.N(la)), la.parent), gs.kk(gs.View(lb.head).T(gs.N(lb)), lb.parent)
		gf.bis.use(x)
		if x != y {
			C.fail("iterations", where, "%s: the loop around the call runs %s", at, differ(x, y))
			return
		}
		x, y = gf.kk(fromB(gf.View(la.head).B(gf.RB(gf.enterCond(la)))), la.parent), gs.kk(fromB(gs.View(lb.head).B(gs.RB(gs.enterCond(lb)))), lb.parent)
		gf.bis.use(x)
		if x != y {
			C.fail("iterations", where, "%s: the loop around the call is entered when %s", at, differ(x, y))
			return
		}
		la, lb = la.parent, lb.parent
	}
	if la != nil || lb != nil {
		C.fail("iterations", where, "%s: the call is in a different number of loops", at)
		return
	}
	x, y := gf.evGuard(a), gs.evGuard(b)
	okf, oks := BTrue, BTrue
	if c.ok && e.errs && a.loop == nil {
		okf, oks = gf.succeeds(), gs.succeeds()
		x, y = fromB(band(toB(x), okf)), fromB(band(toB(y), oks))
	}
	C.oblig++
	gf.bis.use(x)
	if x != y {
		C.fail("when", where, "%s: the call is made when %s", at, differ(x, y))
	}
	idx := c.args
	if r, ok := a.nodes[0].ins.(*ssa.Return); ok {
		if !e.result {
			return
		}
		for i := range r.Results {
			if e.results != nil && !slices.Contains(e.results, i) {
				continue
			}
			idx = append(idx, i)
		}
	} else if _, isCall := a.nodes[0].ins.(ssa.CallInstruction); !isCall && idx == nil {
		idx = []int{0, 1}
		if _, ok := a.nodes[0].ins.(*ssa.MapUpdate); ok {
			idx = []int{0, 1, 2}
		}
		if _, ok := a.nodes[0].ins.(*ssa.UnOp); ok {
			idx = idx[:1]
		}
	}
	if idx == nil {
		cc := a.nodes[0].ins.(ssa.CallInstruction).Common()
		k := len(cc.Args)
		if cc.IsInvoke() {
			k++
		}
		for i := 0; i < k; i++ {
			idx = append(idx, i)
		}
	}
	if c.own != "" {
		for _, n := range a.nodes {
			C.handedOver(gf, where, n, len(n.ins.(ssa.CallInstruction).Common().Args)-1, c.own)
		}
	}
	for _, i := range idx {
		C.oblig++
		x, y := project(gf.evArg(a, i, e.keep), e.keep, C.P), project(gs.evArg(b, i, e.keep), e.keep, C.P)
		x, y = constrainT(x, okf), constrainT(y, oks)
		gf.bis.use(x)
		if x != y {
			C.fail("argument", where, "%s: argument %d %s", at, i, differ(x, y))
		}
	}
}

// succeeds: the error returned is nil.
func (g *Graph) succeeds() B {
	r := g.results(g.View(g.exit))
	return toB(r[len(r)-1])
}

func (g *Graph) evGuard(e *event) *Term {
	r := BFalse
	for _, n := range e.nodes {
		r = bor(r, g.View(n).B(g.RB(g.guard(n))))
	}
	return g.kk(fromB(r), e.loop)
}

func (g *Graph) evArg(e *event, i int, keep map[string][]string) *Term {
	var gs []B
	var vs []*Term
	for _, n := range e.nodes {
		V := g.View(n)
		V.fields = keep
		q := g.RB(g.guard(n))
		gs = append(gs, V.B(constrain(q, e.guard)))
		vs = append(vs, V.T(constrainT(g.arg(n, i), q)))
	}
	t := vs[0]
	if len(vs) > 1 {
		t = fieldwise(gs, vs)
	}
	return g.kk(t, e.loop)
}

// fieldwise merges objects built in alternative branches field by field.
func fieldwise(gs []B, vs []*Term) *Term {
	for _, v := range vs[1:] {
		if v.op != vs[0].op || v.s != vs[0].s || len(v.args) != len(vs[0].args) {
			return ite(gs, vs)
		}
	}
	if v := vs[0]; v.op == "struct" || (v.op == "ref" && len(v.args) == 1) {
		as := make([]*Term, len(v.args))
		for i := range as {
			var fs []*Term
			for _, w := range vs {
				fs = append(fs, w.args[i])
			}
			as[i] = fieldwise(gs, fs)
		}
		return T(v.op, v.s, as...)
	}
	return ite(gs, vs)
}

// tryBis is bisCase with a limit on its size, for flows that are different as they stand.
func (C *Ctx) tryBis(e Flow, f, s *ssa.Function, as map[*Term]bool) (ok bool) {
	steps0 := steps
	stepLimit = steps + bisSteps
	defer func() {
		if os.Getenv("BOOCHECK_STEPS") != "" {
			fmt.Println("bisimulation steps", e.fn, steps-steps0)
		}
		stepLimit = 0
		if r := recover(); r != nil {
			ok = false
		}
	}()
	C.bisCase(e, f, s, as)
	return true
}

const bisSteps = 5_000_000

// bisCase: as flowCase, with loop-carried values named by their class.
func (C *Ctx) bisCase(e Flow, f, s *ssa.Function, as map[*Term]bool) {
	gf, gs := C.flatGraph(f, e.opaque, as, e.params), C.flatGraph(s, e.opaque, as, e.params)
	S := newBisim()
	S.contents = e.contents
	gf.bis, gs.bis = S, S
	defer func() { gf.bis, gs.bis = nil, nil }()
	n, ob := len(C.fails), C.oblig
	for {
		C.flowCase(e, f, s, as)
		C.fails, C.oblig = C.fails[:n], ob
		if S.round > 60 {
			panic("loop-carried values do not settle")
		}
		if !S.refine() {
			break
		}
	}
	C.count("loop-carried values", len(S.keys))
	S.roots = nil
	C.flowCase(e, f, s, as)
	S.closed()
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
