package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var graphN int

// ---------- guards ----------

// guard is the condition, within one iteration of n's innermost loop (or one
// run of the root), for control to reach n.
func (g *Graph) guard(n *Node) B {
	if b, ok := g.G[n]; ok {
		return b
	}
	if n == g.entry || (n.loop != nil && n.loop.head == n) {
		g.G[n] = BTrue
		return BTrue
	}
	r := BFalse
	for _, e := range n.pred {
		if e.back {
			continue
		}
		r = bor(r, g.edgeIn(e, n.loop))
	}
	g.G[n] = r
	return r
}

func (g *Graph) econd(e *Edge) B {
	if e.cond == nil {
		return BTrue
	}
	b := toB(g.at(e.from, e.cond))
	if !e.pol {
		b = bnot(b)
	}
	return b
}

// edgeIn: condition for taking e, relative to region R (a loop or the root).
func (g *Graph) edgeIn(e *Edge, R *Loop) B {
	if e.from.loop == R {
		return band(g.guard(e.from), g.econd(e))
	}
	C := e.from.loop
	for C != nil && C.parent != R {
		C = C.parent
	}
	if C == nil {
		return BTrue
	}
	return band(g.enterCond(C), g.exitCond(C, e))
}

func (g *Graph) enterCond(C *Loop) B {
	r := BFalse
	for _, e := range C.enter {
		r = bor(r, g.edgeIn(e, C.parent))
	}
	return r
}

// exitCond: given that C was entered, the condition that it is left through e.
func (g *Graph) exitCond(C *Loop, e *Edge) B {
	live := g.liveExits(C)
	if len(live) == 1 {
		return BTrue
	}
	n := g.N(C)
	var brk []*Edge
	for _, x := range live {
		if x != C.main {
			brk = append(brk, x)
		}
	}
	xs := make([]B, len(brk))
	any := BFalse
	for i, x := range brk {
		xs[i] = g.breakCond(C, x)
		any = bor(any, xs[i])
	}
	if e == C.main {
		return bnot(mkEx(C.K, n, any))
	}
	if len(brk) == 1 {
		if C.main == nil {
			return BTrue
		}
		q := mkEx(C.K, n, any)
		if g.flat && C.parent == nil && q > BTrue {
			g.facts[C] = bor(bnot(q), toB(substT(fromB(any), map[*Term]*Term{C.K: mkFirst(C.K, n, any)})))
		}
		return q
	}
	for i, x := range brk {
		if x == e {
			m := map[*Term]*Term{C.K: mkFirst(C.K, n, any)}
			left := toB(substT(fromB(any), m))
			b := constrain(toB(substT(fromB(xs[i]), m)), left)
			if C.main != nil {
				q := mkEx(C.K, n, any)
				b = band(b, q)
				left = bor(left, bnot(q))
			}
			if C.parent == nil {
				g.facts[C] = bor(left, bnot(g.enterCond(C)))
			}
			return b
		}
	}
	return BTrue
}

// liveExits: exits whose condition is not constantly false.
func (g *Graph) liveExits(C *Loop) []*Edge {
	return C.exits
}

// breakCond: the condition, within an iteration, of leaving through e.
func (g *Graph) breakCond(C *Loop, e *Edge) B {
	x := g.edgeIn(e, C)
	if C.main != nil {
		x = constrain(x, bnot(g.econd(C.main)))
	}
	return x
}

// N is the number of times the start-of-iteration test of L succeeds.
func (g *Graph) N(L *Loop) *Term {
	if L.n != nil {
		return L.n
	}
	if L.nbusy {
		return T("nloop", fmt.Sprint(L.id))
	}
	L.nbusy = true
	defer func() { L.nbusy = false }()
	for _, e := range L.exits {
		if e.from.loop != L || e.cond == nil {
			continue
		}
		if !g.always(L, e.from) {
			continue
		}
		L.main = e
		break
	}
	if L.main == nil {
		L.n = T("inf", "")
		return L.n
	}
	d := bnot(g.econd(L.main))
	L.n = g.domain(L, d)
	if L.n.op == "nloop" && g.even {
		L.main, L.n = nil, T("inf", "")
	}
	return L.n
}

// always: n runs in every iteration of L and nothing can leave the iteration before it.
func (g *Graph) always(L *Loop, n *Node) bool {
	for x := n; x != L.head; {
		if len(x.pred) != 1 || x.pred[0].from.loop != L || len(x.pred[0].from.succ) != 1 {
			return false
		}
		x = x.pred[0].from
	}
	return true
}

func (g *Graph) domain(L *Loop, d B) *Term {
	if d > BTrue {
		nd := bddNodes[d]
		a := bddVars[nd.v]
		pos := nd.lo == BFalse && nd.hi == BTrue
		negd := nd.lo == BTrue && nd.hi == BFalse
		if (pos || negd) && (a.op == "le0" || (a.op == "eq0" && negd)) {
			p := a.args[0]
			if a.op == "le0" && negd {
				p = sub(numI(1), p)
			}
			c, rest := linear(p, L.K)
			if c != nil && !mentions(rest, L.K) && !g.variant(rest, L) {
				if a.op == "eq0" { // K*c + rest != 0
					if c.isInt(1) {
						return neg(rest)
					}
					if c.isInt(-1) {
						return rest
					}
				} else if c.isInt(1) { // K + rest <= 0
					return sub(numI(1), rest)
				} else if c.op == "stride" {
					// j + K*stride < len(data): one K per row
					l := T("len", "", T("data", "", c.args[0]))
					if cl, _ := linear(rest, l); cl != nil && cl.isInt(-1) {
						return mkDim("rows", c.args[0])
					}
				}
			}
		}
	}
	t := intern(&Term{op: "bool", g: []B{d}})
	if g.variant(t, L) {
		return T("nloop", fmt.Sprint(L.id), g.ks(L.parent)...)
	}
	return bind("cnt", L.K, numI(0), nil, []B{d})
}

// variant: t holds symbols that change from one iteration of L to the next (other than K).
func (g *Graph) variant(t *Term, L *Loop) bool {
	if !t.sym {
		return false
	}
	return t.any(func(x *Term) bool {
		if (x.op == "mu" || x.op == "res" || x.op == "new") && len(x.args) > 0 {
			for _, a := range x.args {
				if a == L.K {
					return true
				}
			}
		}
		return false
	})
}

// linear splits p = c*x + rest, c a polynomial free of x (nil if not linear).
func linear(p, x *Term) (c, rest *Term) {
	c, rest = numI(0), numI(0)
	for _, m := range monosOf(p) {
		cnt := 0
		var fs []*Term
		for _, f := range m.f {
			if f == x {
				cnt++
			} else {
				fs = append(fs, f)
			}
		}
		switch {
		case cnt == 0:
			rest = add(rest, fromMonos([]mono{m}))
		case cnt == 1:
			c = add(c, fromMonos([]mono{{m.c, fs}}))
		default:
			return nil, nil
		}
	}
	if c.isInt(0) {
		return nil, nil
	}
	return c, rest
}

// ks lists the iteration counters of a loop and its parents.
func (g *Graph) ks(L *Loop) []*Term {
	var r []*Term
	for ; L != nil; L = L.parent {
		r = append(r, L.K)
	}
	return r
}

// ---------- leaving loops ----------

// leaveBy rewrites a value of the iteration in which C is left through e.
func (g *Graph) leaveBy(t *Term, C *Loop, e *Edge) *Term {
	if !t.sym {
		return t
	}
	return substT(t, map[*Term]*Term{C.K: g.kend(C, e)})
}

func (g *Graph) kend(C *Loop, e *Edge) *Term {
	n := g.N(C)
	if e == C.main {
		if n.op == "nloop" {
			return T("kx", fmt.Sprintf("%d.main", C.id), g.ks(C.parent)...)
		}
		return n
	}
	any := BFalse
	idx := 0
	for i, x := range C.exits {
		if x == e {
			idx = i
		}
		if x != C.main && n.op != "nloop" {
			any = bor(any, g.breakCond(C, x))
		}
	}
	if n.op != "nloop" {
		return mkFirst(C.K, n, any)
	}
	return T("kx", fmt.Sprintf("%d.%d", C.id, idx), g.ks(C.parent)...)
}

func (g *Graph) reaches(a, b *Node) bool {
	seen := map[*Node]bool{}
	var rec func(n *Node) bool
	rec = func(n *Node) bool {
		if n == b {
			return true
		}
		if seen[n] {
			return false
		}
		seen[n] = true
		for _, e := range n.succ {
			if !e.back && rec(e.to) {
				return true
			}
		}
		return false
	}
	return rec(a)
}

// leave adapts a value defined at def for use at use, outside some of def's loops.
func (g *Graph) leave(t *Term, def, use *Node) *Term {
	if def == nil || !t.sym {
		return t
	}
	for L := def.loop; L != nil && !L.contains(use); L = L.parent {
		if !t.sym {
			return t
		}
		if !mentions(t, L.K) {
			continue
		}
		var es []*Edge
		for _, e := range L.exits {
			if (e.from == def || dominates(def, e.from)) && g.reaches(e.to, use) {
				es = append(es, e)
			}
		}
		if len(es) == 1 {
			t = g.leaveBy(t, L, es[0])
			continue
		}
		gs := make([]B, len(es))
		vs := make([]*Term, len(es))
		tot := BFalse
		for i, e := range es {
			gs[i] = g.exitCond(L, e)
			tot = bor(tot, gs[i])
			vs[i] = g.leaveBy(t, L, e)
		}
		for i := range gs {
			gs[i] = constrain(gs[i], tot)
		}
		t = ite(gs, vs)
	}
	return t
}

// ---------- values ----------

// at is the value of v used at node n.
func (g *Graph) at(n *Node, v ssa.Value) *Term {
	return g.atF(n, n.fr, v)
}

func (g *Graph) atF(n *Node, fr *Frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Function:
		t := T("fn", fname(v))
		g.cloOf[t] = &callee{fn: v}
		return t
	case *ssa.Global:
		return T("glob", short(v.String()))
	case *ssa.Builtin:
		return T("builtin", v.Name())
	case *ssa.Parameter:
		return g.leaveP(n, fr, v)
	case *ssa.FreeVar:
		return g.freeVar(n, fr, v)
	}
	k := vkey{fr, v}
	def := g.defs[k]
	t, ok := g.val[k]
	if !ok {
		if g.busy[k] {
			if os.Getenv("BOOCHECK_CYC") != "" {
				fmt.Println("cyc", v.Name(), v, g.where(def))
				debug.PrintStack()
			}
			return T("cyc", fmt.Sprintf("%d.%s:%s", graphIDof(g), fr.key, v.Name()))
		}
		g.busy[k] = true
		pr := g.probing
		g.probing = false
		t = g.eval(def, fr, v)
		g.probing = pr
		delete(g.busy, k)
		g.val[k] = t
	}
	return g.leave(t, def, n)
}

func (g *Graph) leaveP(n *Node, fr *Frame, v *ssa.Parameter) *Term {
	i := 0
	for j, p := range fr.fn.Params {
		if p == v {
			i = j
		}
	}
	if fr.parent == nil {
		if t, ok := g.paramT[i]; ok {
			return t
		}
		return T("param", fmt.Sprintf("p%d", i))
	}
	cn := fr.entry.pred[0].from
	c := fr.call.Common()
	var t *Term
	if fr.invoke {
		if i == 0 {
			t = g.atF(cn, fr.parent, c.Value)
		} else {
			t = g.atF(cn, fr.parent, c.Args[i-1])
		}
	} else {
		t = g.atF(cn, fr.parent, c.Args[i])
	}
	return g.leave(t, cn, n)
}

func (g *Graph) freeVar(n *Node, fr *Frame, v *ssa.FreeVar) *Term {
	i := 0
	for j, p := range fr.fn.FreeVars {
		if p == v {
			i = j
		}
	}
	if fr.callee == nil || fr.callee.mk == nil {
		return T("free", v.Name())
	}
	cf := g.frames[fr.callee.frame]
	if cf == nil {
		return T("free", v.Name())
	}
	mn := g.defs[vkey{cf, fr.callee.mk}]
	t := g.atF(mn, cf, fr.callee.mk.Bindings[i])
	return g.leave(t, mn, n)
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return fromB(bconst(constant.BoolVal(c.Value)))
	case constant.String:
		return str(constant.StringVal(c.Value))
	case constant.Int, constant.Float:
		r, ok := new(big.Rat).SetString(constant.ToFloat(c.Value).ExactString())
		if ok {
			return numR(r)
		}
	}
	return T("const", c.Value.ExactString())
}

func zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsNumeric != 0:
			return numI(0)
		case u.Info()&types.IsString != 0:
			return str("")
		case u.Info()&types.IsBoolean != 0:
			return fromB(BFalse)
		}
	case *types.Struct:
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, zero(u.Field(i).Type()))
		}
		return T("struct", structName(t), as...)
	case *types.Array:
		var as []*Term
		if u.Len() > 64 {
			return T("zeroarray", "")
		}
		for i := int64(0); i < u.Len(); i++ {
			as = append(as, zero(u.Elem()))
		}
		return T("lit", "", as...)
	}
	return tNil
}

func structName(t types.Type) string {
	return short(types.TypeString(t, nil))
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s := t.Underlying().(*types.Struct)
	return s.Field(i).Name()
}

func (g *Graph) fresh(n *Node, kind string, l *Term) *Term {
	as := append([]*Term{l, numI(int64(graphIDof(g)*1000000 + n.id))}, g.ks(n.loop)...)
	t := T("new", kind, as...)
	t.node = n
	return t
}

var graphIDs = map[*Graph]int{}

func graphIDof(g *Graph) int {
	if i, ok := graphIDs[g]; ok {
		return i
	}
	graphIDs[g] = len(graphIDs) + 1
	return graphIDs[g]
}

// res is the result of an impure operation at n.
func (g *Graph) res(n *Node, name string, args ...*Term) *Term {
	if g.flat {
		if strings.HasPrefix(name, "after ") {
			args = args[:1]
		} else {
			args = nil
		}
	}
	as := append(append([]*Term{}, args...), numI(int64(graphIDof(g)*1000000+n.id)))
	as = append(as, g.ks(n.loop)...)
	t := T("res", name, as...)
	t.node = n
	return t
}

func (g *Graph) eval(n *Node, fr *Frame, v ssa.Value) *Term {
	if n == nil {
		return T("dead", "")
	}
	switch v := v.(type) {
	case *ssa.Phi:
		return g.phi(n, fr, v)
	case *ssa.BinOp:
		return g.binop(n, v)
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			return g.load(n, g.at(n, v.X), v.Type())
		case token.NOT:
			return fromB(bnot(toB(g.at(n, v.X))))
		case token.SUB:
			return neg(g.at(n, v.X))
		case token.ARROW:
			return g.res(n, "recv", g.at(n, v.X))
		}
		return T("unop", v.Op.String(), g.at(n, v.X))
	case *ssa.Alloc:
		return g.fresh(n, "obj", tNil)
	case *ssa.MakeSlice:
		return g.fresh(n, "slice", g.at(n, v.Len))
	case *ssa.MakeMap:
		t := T("mkmap", "", append([]*Term{numI(int64(graphIDof(g)*1000000 + n.id))}, g.ks(n.loop)...)...)
		t.node = n
		return t
	case *ssa.MakeChan:
		t := T("mkchan", "", append([]*Term{g.at(n, v.Size), numI(int64(graphIDof(g)*1000000 + n.id))}, g.ks(n.loop)...)...)
		t.node = n
		return t
	case *ssa.MakeClosure:
		t := T("clo", fname(v.Fn.(*ssa.Function)), append([]*Term{numI(int64(graphIDof(g)*1000000 + n.id))}, g.ks(n.loop)...)...)
		t.node = n
		g.cloOf[t] = &callee{fn: v.Fn.(*ssa.Function), frame: fr.key, mk: v}
		return t
	case *ssa.FieldAddr:
		return T("faddr", fieldName(v.X.Type(), v.Field), g.at(n, v.X))
	case *ssa.Field:
		return mkField(g.at(n, v.X), fieldName(v.X.Type(), v.Field), v.X.Type(), v.Field)
	case *ssa.IndexAddr:
		return mkEaddr(g.at(n, v.X), g.at(n, v.Index))
	case *ssa.Index:
		return mkIdx(g.at(n, v.X), g.at(n, v.Index))
	case *ssa.Lookup:
		x, i := g.at(n, v.X), g.at(n, v.Index)
		if isString(v.X.Type()) {
			return mkIdx(x, i)
		}
		loc := T("maploc", "", x, i)
		var zt types.Type = v.Type()
		if v.CommaOk {
			zt = v.Type().(*types.Tuple).At(0).Type()
		}
		r := g.load(n, loc, zt)
		if v.CommaOk {
			ok := g.load(n, T("mapok", "", x, i), types.Typ[types.Bool])
			return T("tuple", "", r, ok)
		}
		return r
	case *ssa.Slice:
		return g.slice(n, v)
	case *ssa.MakeInterface:
		return g.at(n, v.X)
	case *ssa.ChangeInterface:
		return g.at(n, v.X)
	case *ssa.ChangeType:
		return g.at(n, v.X)
	case *ssa.Convert:
		return g.convert(n, v)
	case *ssa.TypeAssert:
		x := g.at(n, v.X)
		if v.CommaOk {
			return T("tuple", "", x, T("typeok", short(v.AssertedType.String()), x))
		}
		return x
	case *ssa.Extract:
		t := g.at(n, v.Tuple)
		return mkExt(t, v.Index)
	case *ssa.Call:
		return g.callVal(n, fr, v)
	case *ssa.Range:
		return T("range", "", g.at(n, v.X))
	case *ssa.Next:
		return g.res(n, "next", g.at(n, v.Iter))
	case *ssa.SliceToArrayPointer:
		return g.at(n, v.X)
	case *ssa.Select:
		return g.res(n, "select")
	}
	return g.res(n, fmt.Sprintf("%T", v))
}

func mkExt(t *Term, i int) *Term {
	switch t.op {
	case "tuple":
		return t.args[i]
	case "ite":
		vs := make([]*Term, len(t.args))
		for j, a := range t.args {
			vs[j] = mkExt(a, i)
		}
		return ite(t.g, vs)
	}
	return T("ext", fmt.Sprint(i), t)
}

func mkField(x *Term, name string, st types.Type, i int) *Term {
	switch x.op {
	case "struct":
		if i < len(x.args) {
			return x.args[i]
		}
	case "ite":
		vs := make([]*Term, len(x.args))
		for j, a := range x.args {
			vs[j] = mkField(a, name, st, i)
		}
		return ite(x.g, vs)
	case "rawmat":
		switch name {
		case "Data":
			return mkData(x.args[0])
		case "Rows":
			return mkDim("rows", x.args[0])
		case "Cols":
			return mkDim("cols", x.args[0])
		case "Stride":
			return mkDim("stride", x.args[0])
		}
	}
	return T("fld", name, x)
}

func (g *Graph) convert(n *Node, v *ssa.Convert) *Term {
	x := g.at(n, v.X)
	from, to := v.X.Type(), v.Type()
	switch {
	case narrower(from, to) && !x.isNum():
		return T("conv", to.Underlying().String(), x)
	case isInteger(from) && (isFloat(to) || isInteger(to)), isFloat(from) && isFloat(to):
		return x
	case isFloat(from) && isInteger(to):
		return mkTrunc(x)
	case isString(from) && !isString(to), isString(to) && !isString(from) && !isInteger(from):
		return x // []byte <-> string: same contents
	}
	return T("conv", to.String(), x)
}

// narrower: to cannot hold all that from can (signedness aside).
func narrower(from, to types.Type) bool {
	f, ok1 := from.Underlying().(*types.Basic)
	t, ok2 := to.Underlying().(*types.Basic)
	if !ok1 || !ok2 || f.Info()&types.IsNumeric == 0 || t.Info()&types.IsNumeric == 0 {
		return false
	}
	sz := types.SizesFor("gc", "amd64")
	return sz.Sizeof(t) < sz.Sizeof(f)
}

func mkTrunc(x *Term) *Term {
	if x.op == "num" {
		return numR(new(big.Rat).SetInt(new(big.Int).Quo(x.num.Num(), x.num.Denom())))
	}
	return T("trunc", "", x)
}

func (g *Graph) slice(n *Node, v *ssa.Slice) *Term {
	lo, hi := numI(0), tNil
	if v.Low != nil {
		lo = g.at(n, v.Low)
	}
	if v.High != nil {
		hi = g.at(n, v.High)
	}
	x := g.at(n, v.X)
	if p, ok := v.X.Type().Underlying().(*types.Pointer); ok {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			if al, ok := v.X.(*ssa.Alloc); ok && a.Len() <= 64 && (al.Comment == "varargs" || al.Comment == "slicelit") && v.Low == nil && v.High == nil && !storedThrough(v) {
				var as []*Term
				for i := int64(0); i < a.Len(); i++ {
					as = append(as, g.load(n, mkEaddr(x, numI(i)), a.Elem()))
				}
				return T("lit", "", as...)
			}
			if al, ok := v.X.(*ssa.Alloc); ok && al.Comment == "makeslice" {
				// make([]T, n) with a constant size
				if hi.op == "nil" {
					hi = numI(a.Len())
				}
				t := T("new", "slice", append([]*Term{hi}, x.args[1:]...)...)
				t.node = x.node
				return t
			}
			if hi.op == "nil" {
				hi = numI(a.Len())
			}
			return T("slice", "", x, lo, hi)
		}
	}
	return mkSlice(x, lo, hi)
}

// storedThrough: some store goes through the slice value itself.
func storedThrough(v *ssa.Slice) bool {
	for _, r := range *v.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, rr := range *ia.Referrers() {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == ia {
					return true
				}
			}
		}
	}
	return false
}

// ultB: a < b, neither of which is negative.
func ultB(a, b *Term) B {
	switch {
	case b.isInt(0):
		return BFalse
	case b.isInt(1):
		return eq0(a)
	case a.isInt(0):
		return bnot(eq0(b))
	}
	return ilt(a, b)
}

func (g *Graph) binop(n *Node, v *ssa.BinOp) *Term {
	x, y := g.at(n, v.X), g.at(n, v.Y)
	xt := v.X.Type()
	fl, in := isFloat(xt), isInteger(xt)
	ilt, ile := ilt, ile
	if bt, ok := xt.Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
		ilt = ultB
		ile = func(a, b *Term) B { return bnot(ultB(b, a)) }
	}
	switch v.Op {
	case token.ADD:
		if isString(xt) {
			return mkConcat(x, y)
		}
		return add(x, y)
	case token.SUB:
		return sub(x, y)
	case token.MUL:
		return mul(x, y)
	case token.QUO:
		if fl {
			return fdiv(x, y)
		}
		return mkIdiv(x, y)
	case token.EQL, token.NEQ:
		b := eqTyped(x, y, xt)
		if v.Op == token.NEQ {
			b = bnot(b)
		}
		return fromB(b)
	case token.LSS:
		if fl {
			return fromB(flt(x, y))
		}
		if in {
			return fromB(ilt(x, y))
		}
	case token.LEQ:
		if fl {
			return fromB(fle(x, y))
		}
		if in {
			return fromB(ile(x, y))
		}
	case token.GTR:
		if fl {
			return fromB(flt(y, x))
		}
		if in {
			return fromB(ilt(y, x))
		}
	case token.GEQ:
		if fl {
			return fromB(fle(y, x))
		}
		if in {
			return fromB(ile(y, x))
		}
	}
	return T("binop", v.Op.String(), x, y)
}

func eqTyped(x, y *Term, t types.Type) B {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		b := BTrue
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			b = band(b, eqTyped(mkField(x, f.Name(), t, i), mkField(y, f.Name(), t, i), f.Type()))
		}
		return b
	case *types.Array:
		if u.Len() <= 64 {
			b := BTrue
			for i := int64(0); i < u.Len(); i++ {
				b = band(b, eqTyped(mkIdx(x, numI(i)), mkIdx(y, numI(i)), u.Elem()))
			}
			return b
		}
	}
	switch {
	case isFloat(t):
		return feq(x, y)
	case isInteger(t):
		return eq0(sub(x, y))
	case isBool(t):
		return biff(toB(x), toB(y))
	}
	return eqv(x, y)
}

// mkConcat is string concatenation, flattened.
func mkConcat(x, y *Term) *Term {
	parts := func(t *Term) []*Term {
		if t.op == "concat" {
			return t.args
		}
		if t.op == "str" && t.s == "" {
			return nil
		}
		return []*Term{t}
	}
	var ps []*Term
	for _, p := range append(append([]*Term{}, parts(x)...), parts(y)...) {
		if len(ps) > 0 && p.op == "str" && ps[len(ps)-1].op == "str" {
			ps[len(ps)-1] = str(ps[len(ps)-1].s + p.s)
			continue
		}
		ps = append(ps, p)
	}
	switch len(ps) {
	case 0:
		return str("")
	case 1:
		return ps[0]
	}
	return T("concat", "", ps...)
}

// ---------- phis ----------

// Mu is a loop-carried value: Init on entry, Next after each iteration.
type Mu struct {
	t          *Term
	L          *Loop
	init, next *Term
	loc        *Term
	fr         *Frame
	phi        *ssa.Phi
	cont       *Mu // loc lies in the object this pointer refers to
	typ        types.Type
	known      bool
	trying     bool
	lateTried  bool
	closed     *Term // solved form, in terms of L.K
}

func (g *Graph) phi(n *Node, fr *Frame, v *ssa.Phi) *Term {
	if n.loop != nil && n.loop.head == n {
		if t := g.basicIV(n, fr, v); t != nil {
			return t
		}
		L := n.loop
		t := T("mu", fmt.Sprintf("%d.%s:%s", graphIDof(g), fr.key, v.Name()), g.ks(L)...)
		if g.muInfo[t] == nil {
			g.muInfo[t] = &Mu{t: t, L: L, fr: fr, phi: v, typ: v.Type()}
			g.mus = append(g.mus, t)
		}
		return t
	}
	var gs []B
	var vs []*Term
	tot := g.guard(n)
	for _, e := range n.pred {
		i := predIndex(n, e, v)
		if i < 0 {
			continue
		}
		gs = append(gs, constrain(g.edgeIn(e, n.loop), tot))
		t := g.atF(e.from, fr, v.Edges[i])
		for L := e.from.loop; L != nil && !L.contains(n); L = L.parent {
			t = g.leaveBy(t, L, e)
		}
		vs = append(vs, t)
	}
	return ite(gs, vs)
}

// predIndex: which phi operand comes along edge e into block node n.
func predIndex(n *Node, e *Edge, v *ssa.Phi) int {
	b := v.Block()
	fb := e.from.blk
	if e.from.kind == "post" { // the call ended the block? never: blocks end in a jump
		return -1
	}
	idx := -1
	cnt := 0
	for i, p := range b.Preds {
		if p == fb {
			cnt++
			idx = i
		}
	}
	if cnt > 1 { // both arms of one If: pick by polarity
		seen := 0
		for i, p := range b.Preds {
			if p == fb {
				want := 0
				if !e.pol {
					want = 1
				}
				if seen == want {
					return i
				}
				seen++
			}
		}
	}
	return idx
}

// basicIV: phi = init + step*K when every back edge carries phi+step, step invariant.
func (g *Graph) basicIV(n *Node, fr *Frame, v *ssa.Phi) *Term {
	L := n.loop
	if !isInteger(v.Type()) && !isFloat(v.Type()) {
		return nil
	}
	var step *Term
	var init *Term
	for _, e := range n.pred {
		i := predIndex(n, e, v)
		if i < 0 {
			return nil
		}
		op := v.Edges[i]
		if !e.back {
			t := g.atF(e.from, fr, op)
			if init != nil && init != t {
				return nil
			}
			init = t
			continue
		}
		b, ok := op.(*ssa.BinOp)
		if !ok || (b.Op != token.ADD && b.Op != token.SUB) {
			return nil
		}
		var s ssa.Value
		if b.X == v {
			s = b.Y
		} else if b.Y == v && b.Op == token.ADD {
			s = b.X
		} else {
			return nil
		}
		if !g.invariant(L, fr, s) {
			return nil
		}
		bn := g.defs[vkey{fr, b}]
		if bn == nil {
			return nil
		}
		st := g.atF(bn, fr, s)
		if st.sym && (mentions(st, L.K) || g.variant(st, L)) {
			return nil
		}
		if b.Op == token.SUB {
			st = neg(st)
		}
		if step != nil && step != st {
			return nil
		}
		step = st
	}
	if init == nil || step == nil {
		return nil
	}
	return add(init, mul(step, L.K))
}

// invariant: s is a constant or is computed from loop-invariant locations.
func (g *Graph) invariant(L *Loop, fr *Frame, s ssa.Value) bool {
	switch s := s.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
		return true
	case *ssa.UnOp:
		if s.Op == token.MUL {
			return g.invariant(L, fr, s.X)
		}
	case *ssa.IndexAddr:
		return g.invariant(L, fr, s.X) && g.invariant(L, fr, s.Index)
	case *ssa.FieldAddr:
		return g.invariant(L, fr, s.X)
	case *ssa.Field:
		return g.invariant(L, fr, s.X)
	case *ssa.Index:
		return g.invariant(L, fr, s.X) && g.invariant(L, fr, s.Index)
	case *ssa.Extract:
		return g.invariant(L, fr, s.Tuple)
	case *ssa.Convert:
		return g.invariant(L, fr, s.X)
	}
	d := g.defs[vkey{fr, s}]
	return d != nil && !L.contains(d)
}

// muParts evaluates the entry and next-iteration values of a loop-carried value.
func (g *Graph) muParts(m *Mu) {
	if m.known {
		return
	}
	m.known = true
	L := m.L
	join := func(es []*Edge, val func(*Edge) *Term, R *Loop) *Term {
		var gs []B
		var vs []*Term
		tot := BFalse
		for _, e := range es {
			q := g.edgeIn(e, R)
			gs = append(gs, q)
			tot = bor(tot, q)
			if t := val(e); g.flat && q > BTrue {
				vs = append(vs, constrainT(t, q))
			} else {
				vs = append(vs, t)
			}
		}
		for i := range gs {
			gs[i] = constrain(gs[i], tot)
		}
		return ite(gs, vs)
	}
	if m.cont != nil {
		f := func(e *Edge) *Term { return g.contVal(m, e) }
		m.init, m.next = join(L.enter, f, L.parent), join(L.back, f, L)
		return
	}
	val := func(e *Edge) *Term {
		if m.phi != nil {
			i := predIndex(L.head, e, m.phi)
			return g.atF(e.from, m.fr, m.phi.Edges[i])
		}
		return g.after(e.from, m.loc, m.typ)
	}
	m.init = join(L.enter, func(e *Edge) *Term {
		if m.phi != nil {
			return val(e)
		}
		return g.viaEdge(e, m.loc, m.typ)
	}, L.parent)
	m.next = join(L.back, func(e *Edge) *Term {
		if m.phi != nil {
			return val(e)
		}
		return g.viaEdge(e, m.loc, m.typ)
	}, L)
}

// ---------- solving loop-carried values ----------

func (g *Graph) solveAll() {
	// force everything once so that all loop-carried values are known
	for _, n := range g.rpo {
		g.touch(n)
	}
	for i := 0; i < len(g.mus); i++ {
		g.muParts(g.muInfo[g.mus[i]])
	}
	for round := 0; round < 6; round++ {
		ch := false
		for i := 0; i < len(g.mus); i++ {
			m := g.muInfo[g.mus[i]]
			g.muParts(m)
			if m.closed == nil {
				if c := g.solve(m); c != nil {
					m.closed = c
					ch = true
				}
			}
		}
		if !ch {
			break
		}
	}
	g.settled = true
}

func (g *Graph) touch(n *Node) {
	if v, ok := n.ins.(ssa.Value); ok {
		g.at(n, v)
	}
	switch ins := n.ins.(type) {
	case *ssa.Store:
		g.at(n, ins.Addr)
		g.at(n, ins.Val)
	case *ssa.Return:
		for _, r := range ins.Results {
			g.at(n, r)
		}
	}
	if n.kind == "block" {
		for _, i := range n.blk.Instrs {
			if p, ok := i.(*ssa.Phi); ok {
				g.atF(n, n.fr, p)
			}
		}
	}
	g.guard(n)
}

// R rewrites solved loop-carried values to their closed forms.
func (g *Graph) R(t *Term) *Term {
	for i := 0; i < 8; i++ {
		if !t.sym && t.hb == 0 {
			return t
		}
		S := newSubst(map[*Term]*Term{})
		r := g.rewrite(S, t)
		if r == t {
			return t
		}
		t = r
	}
	return t
}

func (g *Graph) RB(b B) B {
	if b <= BTrue {
		return b
	}
	return toB(g.R(intern(&Term{op: "bool", g: []B{b}})))
}

func (g *Graph) rewrite(S *subst, t *Term) *Term {
	S.post = func(x *Term) *Term {
		if x.op != "mu" {
			return x
		}
		m := g.muOf(x)
		if m == nil || m.closed == nil {
			return x
		}
		mm := map[*Term]*Term{}
		for i, a := range m.t.args {
			if a != x.args[i] {
				mm[a] = x.args[i]
			}
		}
		return substT(m.closed, mm)
	}
	return S.t(t)
}

// settle makes sure a loop-carried value met after the main pass has its parts and, if it has one, its closed form.
func (g *Graph) settle(m *Mu) {
	if !g.settled || m.trying || m.lateTried || m.closed != nil {
		return
	}
	m.trying, m.lateTried = true, true
	g.muParts(m)
	m.closed = g.solve(m)
	m.trying = false
}

func (g *Graph) solve(m *Mu) *Term {
	K := m.L.K
	next, init := g.R(m.next), g.R(m.init)
	self := m.t
	if next == self {
		return init
	}
	cases, gs := []*Term{next}, []B{BTrue}
	if next.op == "ite" {
		cases, gs = next.args, next.g
	}
	for _, b := range gs {
		if mentionsB(b, self) {
			return nil
		}
	}
	v := tmpVar()
	atV := map[*Term]*Term{K: v}
	if isBool(m.typ) {
		if f := toB(next); g.flat && f <= BTrue {
			return ite([]B{le0(K), bnot(le0(K))}, []*Term{init, next})
		}
		if g.flat {
			return nil // kept as a recurrence: the state of a long loop has many of these inside each other
		}
		f := toB(next)
		f1 := toB(substT(fromB(f), map[*Term]*Term{self: fromB(BTrue)}))
		f0 := toB(substT(fromB(f), map[*Term]*Term{self: fromB(BFalse)}))
		if mentionsB(f1, self) || mentionsB(f0, self) {
			return nil
		}
		if f1 == BTrue {
			x := toB(substT(fromB(f0), atV))
			return fromB(bor(toB(init), mkEx(v, K, x)))
		}
		if f0 == BFalse {
			x := toB(substT(fromB(bnot(f1)), atV))
			return fromB(band(toB(init), bnot(mkEx(v, K, x))))
		}
		return nil
	}
	if isInteger(m.typ) || isFloat(m.typ) {
		ds := make([]*Term, len(cases))
		for i, c := range cases {
			ds[i] = sub(c, self)
			if mentions(ds[i], self) {
				return nil
			}
		}
		d := substT(ite(gs, ds), atV)
		return add(init, mkSum(v, K, d))
	}
	if isString(m.typ) {
		return nil
	}
	if _, ok := m.typ.Underlying().(*types.Slice); ok {
		ys := make([]*Term, len(cases))
		single := 0
		var se *Term
		var sg B
		for i, c := range cases {
			switch {
			case c == self:
				ys[i] = T("lit", "")
			case c.op == "append" && c.args[0] == self && !mentions(c.args[1], self):
				ys[i] = c.args[1]
				single++
				if ys[i].op == "lit" && len(ys[i].args) == 1 {
					se, sg = ys[i].args[0], gs[i]
				} else {
					single += 10
				}
			default:
				return nil
			}
		}
		if single == 1 {
			S := newSubst(atV)
			return mkAppend(init, mkComp(v, K, S.t(se), S.b(sg)))
		}
		allone := true
		for _, y := range ys {
			if y.op != "lit" || len(y.args) != 1 {
				allone = false
			}
		}
		if allone {
			es := make([]*Term, len(ys))
			for i, y := range ys {
				es[i] = y.args[0]
			}
			return mkAppend(init, mkTab(v, K, substT(ite(gs, es), atV)))
		}
		y := substT(ite(gs, ys), atV)
		return mkAppend(init, bind("cat", v, K, []*Term{y}, nil))
	}
	return nil
}

// ---------- calls ----------

// callVal is the value of a call: of the expanded callee's returns, or of a known function.
func (g *Graph) callVal(n *Node, fr *Frame, v *ssa.Call) *Term {
	if n.kind == "post" { // expanded
		f2 := n.fr
		nres := f2.fn.Signature.Results().Len()
		rets := g.retsOf[f2]
		if len(rets) == 0 {
			return T("dead", "")
		}
		tot := BTrue
		if len(rets) > 1 {
			tot = g.guard(n)
		}
		outs := make([]*Term, nres)
		for i := 0; i < nres; i++ {
			var gs []B
			var vs []*Term
			for _, e := range n.pred {
				r, ok := e.from.ins.(*ssa.Return)
				if !ok {
					continue
				}
				if len(rets) > 1 {
					gs = append(gs, constrain(g.edgeIn(e, n.loop), tot))
				} else {
					gs = append(gs, BTrue)
				}
				t := g.at(e.from, r.Results[i])
				vs = append(vs, g.leave(t, e.from, n))
			}
			outs[i] = ite(gs, vs)
		}
		switch nres {
		case 0:
			return T("void", "")
		case 1:
			return outs[0]
		}
		return T("tuple", "", outs...)
	}
	c := v.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return g.builtin(n, b.Name(), c)
	}
	var args []*Term
	name := ""
	var fn *ssa.Function
	if n.opq != nil {
		fn = n.opq
	} else {
		fn = c.StaticCallee()
	}
	if c.IsInvoke() {
		args = append(args, g.at(n, c.Value))
	}
	for _, a := range c.Args {
		args = append(args, g.at(n, a))
	}
	if fn != nil {
		name = fname(fn)
	} else if c.IsInvoke() {
		name = short(c.Method.FullName())
	} else {
		name = "dyn"
		args = append([]*Term{g.at(n, c.Value)}, args...)
	}
	if t := g.known(n, name, args, v); t != nil {
		return t
	}
	if isPure(name) || (!g.flat && fn != nil && g.P.own(fn) && g.P.pureFunc(fn)) {
		return T("call", name, args...)
	}
	return g.res(n, name, args...)
}

func (g *Graph) builtin(n *Node, name string, c *ssa.CallCommon) *Term {
	var a []*Term
	for _, x := range c.Args {
		a = append(a, g.at(n, x))
	}
	switch name {
	case "len":
		return mkLen(a[0])
	case "cap":
		return T("cap", "", a[0])
	case "append":
		if len(a) == 1 {
			return a[0]
		}
		if emptyList(a[0]) {
			if l := g.contents(n, a[1], c.Args[1].Type()); l != nil {
				return l // a copy
			}
		}
		if l := g.contents(n, a[1], c.Args[1].Type()); l != nil {
			return mkAppend(a[0], l)
		}
		if a[1].op == "str" && len(a[1].s) <= 16 { // bytes
			var l []*Term
			for i := 0; i < len(a[1].s); i++ {
				l = append(l, numI(int64(a[1].s[i])))
			}
			a[1] = T("lit", "", l...)
		}
		return mkAppend(a[0], a[1])
	case "min", "max":
		r := a[0]
		for _, x := range a[1:] {
			if isFloat(c.Args[0].Type()) {
				r = fmm("f"+name, r, x)
			} else {
				r = mm(name, r, x)
			}
		}
		return r
	case "copy":
		return mkmin(mkLen(a[0]), mkLen(a[1]))
	}
	return g.res(n, "builtin."+name, a...)
}

var purePkgs = []string{"math.", "strings.", "strconv.", "fmt.Sprint", "fmt.Errorf", "errors.", "slices.Contains", "slices.Index", "slices.Max", "slices.Min", "slices.Equal", "unicode.", "path.", "path/filepath.", "cmp.", "maps.", "bytes."}

func isPure(name string) bool {
	for _, p := range purePkgs {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// contents: the elements of list x at n, as a list of their own.
func (g *Graph) contents(n *Node, x *Term, typ types.Type) *Term {
	st, ok := typ.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	switch x.op {
	case "param", "fld", "idx", "ext", "vres", "new":
	case "ite":
		vs := make([]*Term, len(x.args))
		for i, a := range x.args {
			if vs[i] = g.contents(n, a, typ); vs[i] == nil {
				return nil
			}
		}
		return ite(x.g, vs)
	case "slice":
		if x.args[2].op == "nil" || x.args[0].op == "tab" || x.args[0].op == "comp" || x.args[0].op == "lit" {
			return nil
		}
	default:
		return nil
	}
	if x.op == "new" && x.s != "slice" {
		return nil
	}
	v := tmpVar()
	return mkTab(v, mkLen(x), g.load(n, mkEaddr(x, v), st.Elem()))
}
