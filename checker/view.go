package main

import (
	"fmt"
	"go/token"
	"go/types"
	"slices"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// View turns values of one graph into terms that mean the same in every graph:
// fresh objects become their contents, loop-carried values that have no closed
// form become fixpoints over their own equations, and results of impure calls
// are numbered in order of appearance.
type View struct {
	g      *Graph
	n      *Node // contents are those on arrival at n
	stack  []*Term
	resN   map[*Node]int
	names  map[string]int
	lv     int
	muArgs [][]*Term
	cntSt  []*Term
	muSt   []*Term
	memo   map[*Term]*Term
	keep   map[*Term]*Term // objects given a name instead of being unfolded
	idn    map[*Node]*Term // object identity (fresh objects that stay named)
	depth  int
	subT   map[*Term]*Term // sub, rendered
	sub    map[*Term]*Term // the iteration being looked at, for loops around n
	inv    map[*Term]*Term
	fields map[string][]string // struct type -> the fields to look at
	end    *Loop               // contents are those at the end of an iteration of this loop
	ctx    B                   // what holds of the positions being looked at
}

func (g *Graph) View(n *Node) *View {
	return &View{g: g, n: n, resN: map[*Node]int{}, names: map[string]int{}, memo: map[*Term]*Term{}, keep: map[*Term]*Term{}, idn: map[*Node]*Term{}, ctx: BTrue}
}

func (V *View) T(t *Term) *Term {
	t = V.g.R(t)
	S := newSubst(map[*Term]*Term{})
	S.post = V.post
	S.pre = func(x *Term) *Term {
		if v, ok := assumed[x]; ok {
			return fromB(bconst(v))
		}
		switch x.op {
		case "new":
			return V.obj(x)
		case "mu":
			return V.pointee(x)
		case "res":
			// what an impure call was given is what it was then
			if k, ok := V.keep[x]; ok {
				return k
			}
			if x.node != nil && len(x.args) > 0 && V.n != x.node {
				defer V.moveTo(x)()
				as := make([]*Term, len(x.args))
				for i, a := range x.args {
					as[i] = V.T(a)
				}
				return V.numbered(rebuild(x, as, x.g))
			}
		}
		return nil
	}
	return S.t(t)
}

// pointee shows a loop-carried pointer as what the object it points to holds.
func (V *View) pointee(x *Term) *Term {
	if V.g.bis == nil || !V.g.bis.contents || slices.Contains(V.stack, x) {
		return nil
	}
	m := V.g.muOf(x)
	if m == nil || m.cont != nil {
		return nil
	}
	pt, ok := m.typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	if _, ok := pt.Elem().Underlying().(*types.Struct); !ok {
		return nil
	}
	V.stack = append(V.stack, x)
	defer func() { V.stack = V.stack[:len(V.stack)-1] }()
	return T("ref", "", V.T(V.load(x, pt.Elem())))
}

// moveTo looks at memory as it was when the call behind x was made.
func (V *View) moveTo(x *Term) func() {
	n, s, i, st, end := V.n, V.sub, V.inv, V.subT, V.end
	V.end = nil
	ks := V.g.ks(x.node.loop)
	as := x.args[len(x.args)-len(ks):]
	var subT map[*Term]*Term
	if V.g.bis != nil {
		subT = map[*Term]*Term{}
		for j, k := range ks {
			if as[j] != k {
				subT[k] = V.T(as[j])
			}
		}
	}
	V.n, V.sub, V.inv, V.subT = x.node, nil, nil, subT
	for j, k := range ks {
		if as[j] != k {
			if V.sub == nil {
				V.sub, V.inv = map[*Term]*Term{}, map[*Term]*Term{}
			}
			V.sub[k] = as[j]
			if as[j].op == "tmp" || as[j].op == "k" {
				V.inv[as[j]] = k
			}
		}
	}
	return func() { V.n, V.sub, V.inv, V.subT, V.end = n, s, i, st, end }
}

func (V *View) load(loc *Term, t types.Type) *Term {
	get := func(l *Term) *Term {
		if V.end != nil && rootOf(l).node != nil && rootOf(l).node.loop == V.end {
			return V.g.loadEnd(V.end, l, t)
		}
		return V.g.load(V.n, l, t)
	}
	if V.sub == nil {
		return get(loc)
	}
	return substT(get(substT(loc, V.inv)), V.sub)
}

func (V *View) B(b B) B {
	if b <= BTrue {
		return b
	}
	return toB(V.T(intern(&Term{op: "bool", g: []B{b}})))
}

func (V *View) post(x *Term) *Term {
	switch x.op {
	case "res", "mkchan", "clo", "mkmap":
		return V.numbered(x)
	case "errv":
		return T("errv", "") // what an error says does not matter
	case "mu":
		return V.mu(x)
	case "nloop", "kx":
		return V.loopCount(x)
	}
	return norm(x)
}

// loopCount renders the number of iterations of a loop that has no closed form: the
// first for which its condition fails.
func (V *View) loopCount(x *Term) *Term {
	id, ok := strings.CutSuffix(x.s, ".main")
	exit := -1
	if x.op == "kx" && !ok {
		i := strings.IndexByte(x.s, '.')
		if i < 0 || V.g.bis == nil {
			return x
		}
		id = x.s[:i]
		exit, _ = strconv.Atoi(x.s[i+1:])
	}
	for _, s := range V.cntSt {
		if s == x {
			return x
		}
	}
	for _, L := range V.g.loops {
		if fmt.Sprint(L.id) != id || (L.main == nil && exit < 0) {
			continue
		}
		if V.g.bis != nil {
			return V.count(x, L, exit)
		}
		ks := V.g.ks(L.parent)
		if len(ks) != len(x.args) {
			return x
		}
		v := tmpVar()
		sub := map[*Term]*Term{L.K: v}
		for i, k := range ks {
			if x.args[i] != k {
				sub[k] = x.args[i]
			}
		}
		V.cntSt = append(V.cntSt, x)
		d := V.B(toB(substT(fromB(V.g.RB(bnot(V.g.econd(L.main)))), sub)))
		V.cntSt = V.cntSt[:len(V.cntSt)-1]
		return bind("cnt", v, numI(0), nil, []B{d})
	}
	return x
}

// norm moves conditions outwards (and records inwards) so that the place where a
// program decides does not matter.
func norm(x *Term) *Term {
	switch x.op {
	case "num", "str", "nil", "bool", "param", "struct", "tuple", "ref", "matrix", "lit", "le0", "eq0", "flt", "fle", "feq", "eq", "isnil":
		return x
	case "ite":
		o := x.args[0]
		switch o.op {
		case "struct", "tuple", "ref", "lit", "matrix":
		default:
			return inner(x)
		}
		for _, a := range x.args {
			if a.op != o.op || a.s != o.s || len(a.args) != len(o.args) {
				return x
			}
		}
		as := make([]*Term, len(o.args))
		for j := range as {
			vs := make([]*Term, len(x.args))
			for i, a := range x.args {
				vs[i] = a.args[j]
			}
			as[j] = norm(ite(x.g, vs))
		}
		return T(o.op, o.s, as...)
	}
	if isBinder(x.op) {
		return unswitch(x, 0)
	}
	return lift(x)
}

// inner: what holds where an alternative is chosen holds inside it.
func inner(x *Term) *Term {
	var vs []*Term
	for i, a := range x.args {
		if a.cond && (a.op == "tab" || a.op == "comp") {
			if b := constrainT(a, x.g[i]); b != a {
				if vs == nil {
					vs = append([]*Term{}, x.args...)
				}
				vs[i] = b
			}
		}
	}
	if vs == nil {
		return x
	}
	return ite(x.g, vs)
}

// lift: op(…ite…) is ite(…op…).
func lift(x *Term) *Term {
	if x.op == "poly" {
		for _, m := range x.poly {
			for _, f := range m.f {
				if f.op == "ite" && len(f.args) <= 6 {
					vs := make([]*Term, len(f.args))
					for i := range f.args {
						q := numI(0)
						for _, m := range x.poly {
							y := numR(m.c)
							for _, z := range m.f {
								if z == f {
									z = f.args[i]
								}
								y = mul(y, z)
							}
							q = add(q, y)
						}
						vs[i] = lift(q)
					}
					return ite(f.g, vs)
				}
			}
		}
		return x
	}
	for j, a := range x.args {
		if a.op == "ite" && len(a.args) <= 6 {
			vs := make([]*Term, len(a.args))
			for i := range a.args {
				as := append([]*Term{}, x.args...)
				as[j] = a.args[i]
				vs[i] = norm(rebuild(x, as, x.g))
			}
			return ite(a.g, vs)
		}
	}
	return x
}

// unswitch: a choice made alike in every iteration is made once.
func unswitch(x *Term, d int) *Term {
	bv := T("b", x.s)
	var at *Term
	scan := func(b B) {
		walkAtoms(b, func(a *Term) {
			if at == nil && !mentions(a, bv) && !a.any(func(y *Term) bool { return y.op == "rec" || y.op == "self" }) {
				at = a
			}
		})
	}
	for i, b := range x.args[1:] {
		if x.op == "fold" && i == 0 {
			continue
		}
		if b.op == "ite" || b.op == "bool" {
			for _, g := range b.g {
				scan(g)
			}
		}
		if isBoolTerm(b) && b.op != "bool" {
			scan(batom(b))
		}
	}
	for _, g := range x.g {
		scan(g)
	}
	if at == nil || d > 5 {
		return x
	}
	v := tmpVar()
	dom, bodies, gs := x.open(v)
	mk := func(c B) *Term {
		b2 := make([]*Term, len(bodies))
		for i, b := range bodies {
			if isBoolTerm(b) {
				b2[i] = fromB(constrain(toB(b), c))
			} else {
				b2[i] = constrainT(b, c)
			}
		}
		g2 := make([]B, len(gs))
		for i, g := range gs {
			g2[i] = constrain(g, c)
		}
		r := rebind(x.op, v, dom, b2, g2)
		if isBinder(r.op) {
			return unswitch(r, d+1)
		}
		return norm(r)
	}
	a := batom(at)
	return ite([]B{a, bnot(a)}, []*Term{mk(a), mk(bnot(a))})
}

func walkAtoms(b B, f func(*Term)) {
	seen := map[B]bool{}
	var rec func(B)
	rec = func(b B) {
		if b <= BTrue || seen[b] {
			return
		}
		seen[b] = true
		n := bddNodes[b]
		f(bddVars[n.v])
		rec(n.lo)
		rec(n.hi)
	}
	rec(b)
}

func (V *View) numbered(x *Term) *Term {
	if x.node == nil {
		return x
	}
	if k, ok := V.keep[x]; ok {
		return k
	}
	name := x.op + ":" + x.s
	at := x.node
	if c := V.g.chanName(V.g.R(x)); x.op == "mkchan" && c != "" {
		return T("vmkchan", c)
	}
	if u, ok := at.ins.(*ssa.UnOp); ok && x.op == "res" && u.Op == token.ARROW {
		if c := V.g.chanName(V.g.R(V.g.at(at, u.X))); c != "" {
			r := at
			if q := V.g.rep[at]; q != nil {
				r = q
			}
			return T("vres", fmt.Sprintf("%s from %s#%d", x.s, c, V.g.evN[r]))
		}
	}
	if r := V.g.rep[at]; r != nil {
		at = r
	}
	num, ok := V.g.evN[at]
	if !ok || x.op != "res" {
		num, ok = V.resN[at]
		if !ok {
			V.names[name]++
			num = V.names[name]
			V.resN[at] = num
		}
	}
	var as []*Term
	for i, a := range x.args {
		if a.op == "num" && a.num.IsInt() && a.num.Num().Int64() == int64(graphIDof(V.g)*1000000+x.node.id) {
			continue
		}
		if x.op == "mkchan" && i > 0 && a.isInt(0) {
			continue // the first iteration
		}
		as = append(as, a)
	}
	return T("v"+x.op, x.s+"#"+strconv.Itoa(num), as...)
}

// obj unfolds a fresh object to its contents at V.n.
func (V *View) obj(x *Term) *Term {
	if k, ok := V.keep[x]; ok {
		return k
	}
	for _, s := range V.stack {
		if s == x {
			return T("self", "")
		}
	}
	if x.node == nil || len(V.stack) > 6 {
		return x
	}
	if x.s == "slice" && x.args[0].isInt(0) {
		return T("lit", "")
	}
	V.stack = append(V.stack, x)
	defer func() { V.stack = V.stack[:len(V.stack)-1] }()
	if (x.s == "obj" || (x.s == "slice" && V.g.bis != nil)) && V.outlived(x) {
		return V.lateObj(x)
	}
	switch x.s {
	case "slice":
		var et types.Type
		switch v := x.node.ins.(type) {
		case *ssa.MakeSlice:
			et = v.Type().Underlying().(*types.Slice).Elem()
		case *ssa.Alloc:
			if a, ok := deref(v.Type()).Underlying().(*types.Array); ok {
				et = a.Elem()
			}
		}
		if et == nil {
			return V.numbered(x)
		}
		v := tmpVar()
		if V.g.bis != nil { // one name, so that what is loaded has one name
			v = T("tmp", fmt.Sprintf("o%d.%d.%d", graphIDof(V.g), x.node.id, len(V.stack)))
		}
		e := V.load(mkEaddr(x, v), et)
		// outside the list nothing is read
		n := V.T(x.args[0])
		return mkTab(v, n, V.within(ilt(v, x.args[0]), e))
	case "obj":
		a, ok := x.node.ins.(*ssa.Alloc)
		if !ok {
			return V.numbered(x)
		}
		t := deref(a.Type())
		if ks, ok := V.fields[structName(t)]; ok && ks != nil {
			if st, ok := t.Underlying().(*types.Struct); ok {
				var as []*Term
				for i := 0; i < st.NumFields(); i++ {
					f := T("any", "")
					for _, k := range ks {
						if k == st.Field(i).Name() {
							f = V.T(V.load(T("faddr", k, x), st.Field(i).Type()))
						}
					}
					as = append(as, f)
				}
				return T("ref", "", T("struct", structName(t), as...))
			}
		}
		return T("ref", "", V.T(V.load(x, t)))
	case "dense":
		r, c := mkDim("rows", x), mkDim("cols", x)
		i, j := tmpVar(), tmpVar()
		ii, jj := i, j
		if r.isInt(1) {
			ii = numI(0)
		}
		if c.isInt(1) {
			jj = numI(0)
		}
		e := V.load(mkMaddr(x, ii, jj), types.Typ[types.Float64])
		e = V.within(band(ilt(i, r), ilt(j, c)), e)
		return T("matrix", "", V.T(r), V.T(c), mkTab(i, V.T(r), mkTab(j, V.T(c), e)))
	}
	return V.numbered(x)
}

func (V *View) within(in B, e *Term) *Term {
	sv := V.ctx
	V.ctx = band(V.ctx, in)
	defer func() { V.ctx = sv }()
	return V.T(constrainT(V.g.R(e), V.ctx))
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// constrainT simplifies the guards inside t given that c holds.
func constrainT(t *Term, c B) *Term {
	if c == BTrue || c == BFalse {
		return t
	}
	if t.cond {
		if F := factsOf(c); len(F.m) > 0 {
			t = F.subst().t(t)
		}
	}
	if isBoolTerm(t) && t.op != "bool" {
		return fromB(constrain(toB(t), c))
	}
	if t.op == "ite" {
		gs := make([]B, len(t.g))
		vs := make([]*Term, len(t.g))
		var g2 []B
		var v2 []*Term
		for i := range t.g {
			gs[i] = t.g[i]
			vs[i] = t.args[i]
			if band(gs[i], c) == BFalse {
				continue
			}
			g2 = append(g2, constrain(gs[i], c))
			v2 = append(v2, constrainT(vs[i], band(c, gs[i])))
		}
		if len(g2) == 1 {
			return v2[0]
		}
		if len(g2) > 0 {
			return ite(g2, v2)
		}
	}
	if t.op == "bool" {
		return fromB(constrain(t.g[0], c))
	}
	if t.cond && (t.op == "tab" || t.op == "comp") {
		v := tmpVar()
		dom, bodies, gs := t.open(v)
		dom = constrainT(dom, c)
		if t.op == "tab" {
			return mkTab(v, dom, constrainT(bodies[0], c))
		}
		return mkComp(v, dom, constrainT(bodies[0], c), constrain(gs[0], c))
	}
	if t.op == "append" {
		// nothing to append to
		if x := t.args[0]; band(c, bnot(le0(mkLen(x)))) == BFalse {
			return constrainT(t.args[1], c)
		}
	}
	if t.op == "poly" {
		r := numI(0)
		for _, m := range t.poly {
			x := numR(m.c)
			for _, f := range m.f {
				x = mul(x, constrainT(f, c))
			}
			r = add(r, x)
		}
		return r
	}
	return t
}

// mu renders an unsolved loop-carried value as a fixpoint.
func (V *View) mu(x *Term) *Term {
	m := V.g.muOf(x)
	if m == nil {
		return x
	}
	if V.g.bis != nil {
		return V.state(x, m)
	}
	for i, s := range V.muSt {
		if s == m.t {
			// the value in the running iteration; anything else keeps its arguments
			var as []*Term
			if !slices.Equal(V.muArgs[i], x.args) {
				for _, a := range x.args {
					as = append(as, V.T(a))
				}
			}
			return T("rec", strconv.Itoa(len(V.muSt)-i), as...)
		}
	}
	if len(V.muSt) > 60 {
		panic("loop-carried values depend on each other too deeply")
	}
	// position of the loop counter among the arguments
	ki := -1
	for i, a := range m.t.args {
		if a == m.L.K {
			ki = i
		}
	}
	V.muSt = append(V.muSt, m.t)
	sub := map[*Term]*Term{}
	for i, a := range m.t.args {
		if i != ki && x.args[i] != a {
			sub[a] = x.args[i]
		}
	}
	v := tmpVar()
	run := append([]*Term{}, x.args...)
	if ki >= 0 {
		run[ki] = v
	}
	V.muArgs = append(V.muArgs, run)
	init := V.T(substT(V.g.R(m.init), sub))
	sub2 := map[*Term]*Term{m.L.K: v}
	for k, w := range sub {
		sub2[k] = w
	}
	nx := V.T(substT(V.g.R(m.next), sub2))
	brk := BFalse
	for _, e := range m.L.exits {
		if e != m.L.main {
			brk = bor(brk, V.g.breakCond(m.L, e))
		}
	}
	full := (*Term)(nil)
	if brk != BFalse && m.L.main != nil {
		full = past(v, V.B(toB(substT(fromB(V.g.RB(brk)), sub2))), nx)
	}
	V.muSt = V.muSt[:len(V.muSt)-1]
	V.muArgs = V.muArgs[:len(V.muArgs)-1]
	cnt := numI(0)
	if ki >= 0 {
		cnt = V.T(x.args[ki])
	}
	if full != nil { // an iteration is only reached if none before it stopped
		nx = full
		if cnt.op == "first" {
			cnt = cnt.args[0]
		}
	}
	return normFold(v, cnt, init, nx)
}

// normFold: fold(init, next over v<n). A first step that changes nothing is the same as starting one later.
func normFold(v, n, init, nx *Term) *Term {
	if init.op == "nil" && nx.any(func(t *Term) bool { return t.op == "append" && t.args[0].op == "rec" && t.args[0].s == "1" }) {
		init = T("lit", "") // a list that is only grown
	}
	return bind("fold", v, n, []*Term{init, nx}, nil)
}

func (g *Graph) muOf(x *Term) *Mu {
	if g.muBy == nil {
		g.muBy = map[string]*Mu{}
	}
	m := g.muBy[x.s]
	if m == nil {
		for _, c := range g.mus {
			if c.s == x.s {
				m = g.muInfo[c]
				g.muBy[x.s] = m
			}
		}
	}
	if m != nil {
		g.settle(m)
	}
	return m
}

// results gives the root's results, joined over its normal returns, contents included.
func (g *Graph) results(V *View) []*Term {
	var out []*Term
	rets := g.retsOf[g.rootFrame()]
	if len(rets) == 0 {
		return nil
	}
	k := len(rets[0].ins.(*ssa.Return).Results)
	var gs []B
	tot := BFalse
	for _, r := range rets {
		q := g.guard(r)
		gs = append(gs, q)
		tot = bor(tot, q)
	}
	for i := range gs {
		gs[i] = V.B(g.RB(constrain(gs[i], tot)))
	}
	sv := V.n
	defer func() { V.n = sv }()
	for i := 0; i < k; i++ {
		vs := make([]*Term, len(rets))
		for j, r := range rets {
			V.n = r
			t := g.retVal(r, i)
			vs[j] = V.T(constrainT(t, g.RB(g.guard(r))))
			if g.errs {
				vs[j] = constrainT(vs[j], V.B(g.RB(g.guard(r))))
			}
		}
		t := vs[0]
		if len(vs) > 1 {
			t = ite(gs, vs)
		}
		out = append(out, t)
	}
	return out
}

// known: what is true however the loops of the function went.
func (g *Graph) knownFacts(V *View) B {
	fact := BTrue
	for _, L := range g.loops {
		if f, ok := g.facts[L]; ok {
			fact = band(fact, V.B(g.RB(f)))
		}
	}
	return fact
}

// retVal is the i-th value of a return. Where only failing or not counts (errs), the
// error stands for its being nil, and the other values count only if it is.
func (g *Graph) retVal(n *Node, i int) *Term {
	rs := n.ins.(*ssa.Return).Results
	t := g.R(g.at(n, rs[i]))
	k := len(rs) - 1
	if !g.errs || rs[k].Type().String() != "error" {
		return t
	}
	ok := isnil(g.R(g.at(n, rs[k])))
	if i == k {
		return fromB(ok)
	}
	return ite([]B{ok, bnot(ok)}, []*Term{t, T("undef", "")})
}

func (g *Graph) rootFrame() *Frame { return g.entry.fr }

// cell is a generic location reachable from a parameter.
type cell struct {
	name string
	loc  *Term
	typ  types.Type
}

func xvar(i int) *Term { return T("x", strconv.Itoa(i)) }

// cells enumerates, by type, the generic locations reachable from value t of type typ.
func cells(name string, t *Term, typ types.Type, depth, nv int, f func(cell)) {
	switch u := typ.Underlying().(type) {
	case *types.Slice:
		x := xvar(nv)
		loc := mkEaddr(t, x)
		subCell(f, name+"[·]", loc, u.Elem(), depth, nv+1)
	case *types.Pointer:
		if n, ok := u.Elem().(*types.Named); ok && n.Obj().Name() == "Dense" {
			f(cell{name + "(·,·)", mkMaddr(t, xvar(nv), xvar(nv+1)), types.Typ[types.Float64]})
			return
		}
		if s, ok := u.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				fl := s.Field(i)
				subCell(f, name+"."+fl.Name(), T("faddr", fl.Name(), t), fl.Type(), depth, nv)
			}
			return
		}
		f(cell{"*" + name, t, u.Elem()})
	}
}

func subCell(f func(cell), name string, loc *Term, typ types.Type, depth, nv int) {
	f(cell{name, loc, typ})
	if p, ok := typ.Underlying().(*types.Pointer); ok && depth == 1 {
		if n, ok := p.Elem().(*types.Named); !ok || n.Obj().Name() != "Dense" {
			return // another object, written through its own methods
		}
	}
	if depth > 0 {
		cells(name, initial(loc, typ), typ, depth-1, nv, f)
	}
}
func (g *Graph) String() string { return fmt.Sprintf("graph of %s", fname(g.root)) }
