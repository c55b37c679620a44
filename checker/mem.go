package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- locations ----------
//
// A location is an address term: faddr(p,f), eaddr(s,i), maddr(D,i,j) (matrix
// cell), maploc(m,k), a variable cell (new), a package variable (glob).

func mkEaddr(x, i *Term) *Term {
	switch x.op {
	case "slice":
		return mkEaddr(x.args[0], add(x.args[1], i))
	case "rowview":
		return mkMaddr(x.args[0], x.args[1], i)
	case "data":
		// row-major storage: element i*stride+j is cell (i,j)
		if c, rest := linear(i, T("stride", "", x.args[0])); c != nil && rest != nil {
			return mkMaddr(x.args[0], c, rest)
		}
	}
	return T("eaddr", "", x, i)
}

// sameCell: the condition for two addresses into one object to name the same cell.
func sameCell(a, b *Term) (B, bool) {
	if a == b {
		return BTrue, true
	}
	if a.op != b.op || a.s != b.s || len(a.args) != len(b.args) {
		return BFalse, false
	}
	switch a.op {
	case "eaddr", "maddr", "maploc", "faddr":
	case "new":
		if a.node != b.node {
			return BFalse, false
		}
		r := BTrue
		for i := range a.args {
			if a.args[i] != b.args[i] {
				if i == 0 {
					continue // the size follows from the iteration
				}
				r = band(r, eq0(sub(a.args[i], b.args[i])))
			}
		}
		return r, true
	default:
		return BFalse, false
	}
	r, ok := sameCell(a.args[0], b.args[0])
	if !ok {
		return BFalse, false
	}
	for i := 1; i < len(a.args); i++ {
		if a.op == "maploc" {
			r = band(r, eqv(a.args[i], b.args[i]))
		} else {
			r = band(r, eq0(sub(a.args[i], b.args[i])))
		}
	}
	return r, true
}

func mkMaddr(D, i, j *Term) *Term {
	if D.op == "new" && D.s == "dense" {
		d := D.args[0]
		if d.args[2].op != "nil" {
			if d.args[0].isInt(1) {
				return mkEaddr(d.args[2], j)
			}
			return mkEaddr(d.args[2], add(mul(i, d.args[1]), j))
		}
	}
	return T("maddr", "", D, i, j)
}

func mkDim(which string, D *Term) *Term {
	switch D.op {
	case "new":
		if D.s == "dense" {
			if which == "rows" {
				return D.args[0].args[0]
			}
			return D.args[0].args[1]
		}
	case "ite":
		vs := make([]*Term, len(D.args))
		for i, a := range D.args {
			vs[i] = mkDim(which, a)
		}
		return ite(D.g, vs)
	}
	return T(which, "", D)
}

func mkData(D *Term) *Term {
	if D.op == "new" && D.s == "dense" && D.args[0].args[2].op != "nil" {
		return D.args[0].args[2]
	}
	return T("data", "", D)
}

func isAddr(t *Term) bool {
	switch t.op {
	case "faddr", "eaddr", "glob", "maddr":
		return true
	}
	return false
}

// rootOf strips field and element selections.
func rootOf(loc *Term) *Term {
	for {
		switch loc.op {
		case "faddr", "eaddr", "maddr", "maploc", "mapok", "data", "rowview", "slice":
			loc = loc.args[0]
			continue
		}
		return loc
	}
}

// axioms: what is known about the arguments from every place the function is called.
var axioms map[*Term]*Term

func initial(loc *Term, typ types.Type) *Term {
	switch loc.op {
	case "faddr":
		b := loc.args[0]
		if isAddr(b) {
			b = initial(b, nil)
		}
		t := T("fld", loc.s, b)
		if a, ok := axioms[t]; ok {
			return a
		}
		return t
	case "eaddr":
		b := loc.args[0]
		if isAddr(b) {
			b = initial(b, nil)
		}
		return mkIdx(b, loc.args[1])
	case "maddr":
		return T("atm", "", loc.args...)
	case "glob":
		return T("gval", loc.s)
	case "free":
		return T("cell", loc.s)
	case "maploc":
		return T("mapval", "", loc.args...)
	case "mapok":
		return T("maphas", "", loc.args...)
	}
	return T("deref", "", loc)
}

// ---------- reads ----------

// fixedGlobal: nothing in the module but package initialisation does more than read it.
func (P *Prog) fixedGlobal(name string) bool {
	if P.moving == nil {
		P.moving = map[string]bool{}
		for _, f := range P.all {
			if f.Name() == "init" && f.Signature.Recv() == nil {
				continue
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					for _, o := range ins.Operands(nil) {
						if v, ok := (*o).(*ssa.Global); ok {
							P.moving[short(v.String())] = true
						}
					}
				}
			}
		}
	}
	return !P.moving[name]
}

func (g *Graph) load(n *Node, loc *Term, typ types.Type) *Term {
	if loc.op == "glob" && g.P.fixedGlobal(loc.s) {
		return initial(loc, typ)
	}
	if loc.op == "eaddr" && !loc.args[1].isInt(0) && loc.args[0].op == "new" && loc.args[0].s == "slice" && mkLen(loc.args[0]).isInt(1) {
		loc = mkEaddr(loc.args[0], numI(0)) // the only element there is
	}
	if loc.sym && !g.settled {
		if m := g.baseMu(loc); m != nil && !m.L.contains(n) && g.early(m, 0) {
			if l2 := g.R(loc); l2 != loc {
				return g.load(n, reloc(l2), typ)
			}
		}
	}
	if loc.op == "ite" {
		vs := make([]*Term, len(loc.args))
		for i, a := range loc.args {
			vs[i] = g.load(n, a, typ)
		}
		return ite(loc.g, vs)
	}
	if loc.op == "eaddr" && loc.args[0].op == "ite" {
		b := loc.args[0]
		split := false
		for _, a := range b.args {
			if a.op == "slice" || a.op == "rowview" || a.op == "tab" || a.op == "comp" || a.op == "lit" {
				split = true
			}
		}
		if split {
			vs := make([]*Term, len(b.args))
			for i, a := range b.args {
				vs[i] = g.load(n, mkEaddr(a, loc.args[1]), typ)
			}
			return ite(b.g, vs)
		}
	}
	if typ != nil {
		switch u := typ.Underlying().(type) {
		case *types.Struct:
			var as []*Term
			for i := 0; i < u.NumFields(); i++ {
				as = append(as, g.load(n, T("faddr", u.Field(i).Name(), loc), u.Field(i).Type()))
			}
			return T("struct", structName(typ), as...)
		case *types.Array:
			if u.Len() <= 64 {
				var as []*Term
				for i := int64(0); i < u.Len(); i++ {
					as = append(as, g.load(n, mkEaddr(loc, numI(i)), u.Elem()))
				}
				return T("lit", "", as...)
			}
		}
	}
	return g.before(n, loc, typ)
}

// baseMu: the loop-carried list or object a location lies in.
func (g *Graph) baseMu(loc *Term) *Mu {
	for {
		switch loc.op {
		case "faddr", "eaddr", "maddr", "idx", "slice", "fld", "data", "rowview":
			loc = loc.args[0]
			continue
		case "mu":
			for _, c := range g.mus {
				if c.s == loc.s {
					return g.muInfo[c]
				}
			}
		}
		return nil
	}
}

// early finds the closed form of a value of a loop that is over.
func (g *Graph) early(m *Mu, d int) bool {
	if m.closed != nil {
		return true
	}
	if m.trying || d > 6 {
		return false
	}
	m.trying = true
	defer func() { m.trying = false }()
	g.muParts(m)
	if m.next == nil || m.init == nil {
		return false
	}
	for _, t := range []*Term{m.init, m.next} {
		for _, x := range t.args {
			if k := g.baseMu(x); k != nil && k != m {
				g.early(k, d+1)
			}
			for _, y := range x.args {
				if k := g.baseMu(y); k != nil && k != m {
					g.early(k, d+1)
				}
			}
		}
	}
	m.closed = g.solve(m)
	return m.closed != nil
}

// reloc puts a rewritten location in its normal form.
func reloc(l *Term) *Term {
	switch l.op {
	case "eaddr":
		return mkEaddr(reloc(l.args[0]), l.args[1])
	case "faddr":
		return T("faddr", l.s, reloc(l.args[0]))
	}
	return l
}

// before: the contents of loc when control arrives at n.
func (g *Graph) before(n *Node, loc *Term, typ types.Type) *Term {
	if typ != nil && g.ltyp[loc] == nil {
		g.ltyp[loc] = typ
	}
	k := lkey{loc, n}
	if t, ok := g.memo[k]; ok {
		return t
	}
	t := g.before1(n, loc, typ)
	g.memo[k] = t
	return t
}

func (g *Graph) before1(n *Node, loc *Term, typ types.Type) *Term {
	// straight-line walk
	for {
		if n == g.entry {
			return initial(loc, typ)
		}
		if n.loop != nil && n.loop.head == n {
			break
		}
		if len(n.pred) != 1 {
			break
		}
		e := n.pred[0]
		if e.from.loop != n.loop {
			return g.viaEdge(e, loc, typ)
		}
		if g.isMemOp(e.from) {
			if t, hit := g.effect(e.from, loc, typ); hit {
				return t
			}
		}
		n = e.from
		if t, ok := g.memo[lkey{loc, n}]; ok {
			return t
		}
	}
	if n.loop != nil && n.loop.head == n {
		L := n.loop
		if t := g.carriedObj(L, loc, typ); t != nil {
			return t
		}
		if !g.crossWrites(L, loc) {
			return g.joinEdges(L.enter, L.parent, loc, typ)
		}
		if mentions(loc, L.K) {
			// the cell is named by the running iteration: keep that name apart from the counter
			j := T("tmp", fmt.Sprintf("mu%d", L.id))
			t := g.before(n, substT(loc, map[*Term]*Term{L.K: j}), typ)
			return substT(t, map[*Term]*Term{j: L.K})
		}
		as := g.ks(L)
		has := map[*Term]bool{}
		for _, a := range as {
			has[a] = true
		}
		loc.walk(func(x *Term) bool {
			if (x.op == "k" || x.op == "tmp") && !has[x] {
				has[x] = true
				as = append(as, x)
			}
			return true
		})
		t := T("mu", fmt.Sprintf("%d.%d@%d", graphIDof(g), loc.id, L.head.id), as...)
		if os.Getenv("BOOCHECK_MU") != "" && g.muInfo[t] == nil {
			fmt.Printf("mu %s n%d loc %s\n", t.s, n.id, skel(loc, 6))
		}
		if g.muInfo[t] == nil {
			g.muInfo[t] = &Mu{t: t, L: L, loc: loc, typ: typ}
			if typ == nil {
				g.muInfo[t].typ = types.Typ[types.UnsafePointer]
			}
			g.mus = append(g.mus, t)
		}
		return t
	}
	var es []*Edge
	for _, e := range n.pred {
		if !e.back {
			es = append(es, e)
		}
	}
	return g.joinEdges(es, n.loop, loc, typ)
}

func (g *Graph) joinEdges(es []*Edge, R *Loop, loc *Term, typ types.Type) *Term {
	if len(es) == 0 {
		return T("unreached", "")
	}
	if len(es) == 1 {
		return g.viaEdge(es[0], loc, typ)
	}
	vs := make([]*Term, len(es))
	same := true
	for i, e := range es {
		vs[i] = g.viaEdge(e, loc, typ)
		if vs[i] != vs[0] {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	gs := make([]B, len(es))
	tot := BFalse
	for i, e := range es {
		gs[i] = g.edgeIn(e, R)
		tot = bor(tot, gs[i])
	}
	for i := range gs {
		gs[i] = constrain(gs[i], tot)
	}
	return ite(gs, vs)
}

// viaEdge: contents of loc after taking e; e may leave loops.
func (g *Graph) viaEdge(e *Edge, loc *Term, typ types.Type) *Term {
	p := e.from
	// outermost loop left by e
	var C *Loop
	for L := p.loop; L != nil && !L.contains(e.to); L = L.parent {
		C = L
	}
	if C == nil {
		return g.after(p, loc, typ)
	}
	if l2 := g.atEnd(e, C, loc); l2 != loc {
		t := g.after(p, l2, typ)
		for L := p.loop; L != nil && !L.contains(e.to); L = L.parent {
			t = g.leaveBy(t, L, e)
		}
		return t
	}
	if !g.writesIn(C, loc) {
		return g.joinEdges(C.enter, C.parent, loc, typ)
	}
	if t := g.elemLoop(C, e, loc, typ); t != nil {
		return t
	}
	t := g.after(p, loc, typ)
	for L := p.loop; L != nil && !L.contains(e.to); L = L.parent {
		t = g.leaveBy(t, L, e)
	}
	return t
}

func (g *Graph) after(p *Node, loc *Term, typ types.Type) *Term {
	if g.isMemOp(p) {
		if t, hit := g.effect(p, loc, typ); hit {
			return t
		}
	}
	return g.before(p, loc, typ)
}

// carriedObj: what the object a loop-carried pointer refers to holds at the start of an
// iteration: at first what the first object holds, then what the object it was pointed at
// held at the end of the iteration before.
func (g *Graph) carriedObj(L *Loop, loc *Term, typ types.Type) *Term {
	if loc.op != "faddr" || !g.flat {
		return nil
	}
	r := rootOf(loc)
	if r.op != "mu" || !slices.Equal(r.args, g.ks(L)) {
		return nil
	}
	base := g.baseMu(r)
	if base == nil || base.L != L || base.cont != nil {
		return nil
	}
	pt, ok := base.typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	if _, ok := pt.Elem().Underlying().(*types.Struct); !ok {
		return nil
	}
	t := T("mu", fmt.Sprintf("%d.c%d@%d", graphIDof(g), loc.id, L.head.id), g.ks(L)...)
	if g.muInfo[t] == nil {
		if typ == nil {
			typ = types.Typ[types.UnsafePointer]
		}
		g.muInfo[t] = &Mu{t: t, L: L, loc: loc, typ: typ, cont: base}
		g.mus = append(g.mus, t)
	}
	return t
}

// contVal: what the object the pointer refers to after edge e then holds.
func (g *Graph) contVal(m *Mu, e *Edge) *Term {
	b := m.cont
	var pv *Term
	if b.phi != nil {
		pv = g.atF(e.from, b.fr, b.phi.Edges[predIndex(b.L.head, e, b.phi)])
	} else {
		pv = g.viaEdge(e, b.loc, b.typ)
	}
	var at func(p *Term) *Term
	at = func(p *Term) *Term {
		if p.op == "ite" {
			vs := make([]*Term, len(p.args))
			for i, a := range p.args {
				vs[i] = at(a)
			}
			return ite(p.g, vs)
		}
		return g.viaEdge(e, reloc(substT(m.loc, map[*Term]*Term{b.t: p})), m.typ)
	}
	return at(pv)
}

// atEnd: loc lies in the object a pointer refers to when the loop is left by e; the same
// place as seen from inside.
func (g *Graph) atEnd(e *Edge, C *Loop, loc *Term) *Term {
	r := rootOf(loc)
	if loc.op != "faddr" || !g.flat || r.op != "mu" {
		return loc
	}
	m := g.baseMu(r)
	if m == nil || m.cont != nil || len(r.args) != len(m.t.args) {
		return loc
	}
	for L := e.from.loop; L != nil && !L.contains(e.to); L = L.parent {
		if m.L != L {
			continue
		}
		k := g.kend(L, e)
		for i, a := range m.t.args {
			if a == L.K && r.args[i] == k {
				return substT(loc, map[*Term]*Term{r: substT(r, map[*Term]*Term{k: L.K})})
			}
		}
	}
	return loc
}

// elemLoop: after loop C, which writes one element per iteration, the contents of
// an element are what its own iteration left there.
func (g *Graph) elemLoop(C *Loop, e *Edge, loc *Term, typ types.Type) *Term {
	if loc.op != "eaddr" && loc.op != "maddr" {
		return nil
	}
	n := g.N(C)
	if e != C.main {
		return nil
	}
	var x, loc2 *Term
	for _, m := range g.memOps {
		if !C.contains(m) || g.mayAffect(m, loc) == 0 {
			continue
		}
		var x2, l2 *Term
		switch ins := m.ins.(type) {
		case *ssa.Alloc, *ssa.MakeSlice:
			r := rootOf(loc)
			v := g.at(m, ins.(ssa.Value))
			if v.op == r.op && v.s == r.s && len(v.args) == len(r.args) {
				x2, l2 = matchK(v, r, C.K)
				if x2 != nil {
					l2 = reroot(loc, r, v)
				}
			}
		default:
			a := g.writeAddr(m)
			if a == nil {
				return nil
			}
			x2, l2 = matchK(a, loc, C.K)
		}
		if x2 == nil || (x != nil && (x2 != x || l2 != loc2)) {
			return nil
		}
		x, loc2 = x2, l2
	}
	if x == nil {
		return nil
	}
	// value at the end of the iteration that owns the element
	var vs []*Term
	var gs []B
	tot := BFalse
	for _, b := range C.back {
		vs = append(vs, g.viaEdge(b, loc2, typ))
		q := g.edgeIn(b, C)
		gs = append(gs, q)
		tot = bor(tot, q)
	}
	for i := range gs {
		gs[i] = constrain(gs[i], tot)
	}
	v := substT(ite(gs, vs), map[*Term]*Term{C.K: x})
	in := BTrue
	if x.op != "flat" {
		lo, hi := le0(neg(x)), ilt(x, n)
		if loc.op == "eaddr" && len(loc.args) == 2 && loc.args[1] == x { // an index outside the slice stops the program
			lo = BTrue
			if mkLen(loc.args[0]) == n {
				hi = BTrue
			}
		}
		in = band(lo, hi)
	}
	if in == BTrue {
		return v
	}
	return ite([]B{in, bnot(in)}, []*Term{v, g.joinEdges(C.enter, C.parent, loc, typ)})
}

// matchK solves addr(K) = loc for K; loc2 is loc with the solved part put back in terms of K.
func matchK(addr, loc, K *Term) (x, loc2 *Term) {
	if addr.op == "eaddr" && loc.op == "maddr" && addr.args[0].op == "data" && addr.args[0].args[0] == loc.args[0] && addr.args[1] == K {
		return T("flat", "", loc.args...), addr
	}
	if addr.op != loc.op || len(addr.args) != len(loc.args) || addr.s != loc.s {
		return nil, nil
	}
	as := make([]*Term, len(loc.args))
	copy(as, loc.args)
	for i := range addr.args {
		a, l := addr.args[i], loc.args[i]
		if !mentions(a, K) {
			continue
		}
		if i == 0 {
			x2, l2 := matchK(a, l, K)
			if x2 == nil {
				return nil, nil
			}
			x = x2
			as[0] = l2
			continue
		}
		c, rest := linear(a, K)
		if c == nil || !c.isInt(1) || mentions(rest, K) {
			if x != nil {
				continue // the object itself belongs to one iteration
			}
			return nil, nil
		}
		y := sub(l, rest)
		if x != nil && x != y {
			return nil, nil
		}
		x = y
		as[i] = a
	}
	if x == nil {
		return nil, nil
	}
	return x, T(loc.op, loc.s, as...)
}

// ---------- aliasing ----------

func alias(a, b *Term) int {
	if a == b {
		return 2
	}
	if a.op == "ite" || b.op == "ite" {
		if a.op != "ite" {
			a, b = b, a
		}
		r := 0
		for _, x := range a.args {
			if alias(x, b) > 0 {
				r = 1
			}
		}
		return r
	}
	// matrix cell vs its flat storage
	if a.op == "eaddr" && b.op == "maddr" {
		a, b = b, a
	}
	if a.op == "maddr" && b.op == "eaddr" {
		if b.args[0].op == "data" && aliasV(a.args[0], b.args[0].args[0]) > 0 {
			return 1
		}
		return 0
	}
	if a.op != b.op {
		if (a.op == "mapok" && b.op == "maploc") || (b.op == "mapok" && a.op == "maploc") {
			return alias(T("maploc", "", a.args...), T("maploc", "", b.args...))
		}
		return 0
	}
	switch a.op {
	case "faddr":
		if a.s != b.s {
			return 0
		}
		return aliasV(a.args[0], b.args[0])
	case "eaddr", "maddr", "maploc", "mapok":
		r := aliasV(a.args[0], b.args[0])
		if r == 0 {
			return 0
		}
		for i := 1; i < len(a.args); i++ {
			if a.args[i] == b.args[i] {
				continue
			}
			if distinct(a.args[i], b.args[i]) {
				return 0
			}
			r = 1
		}
		return r
	case "new":
		return aliasV(a, b)
	}
	return 0
}

func distinct(x, y *Term) bool {
	if x.op == "str" && y.op == "str" {
		return true
	}
	d := sub(x, y)
	if d.op == "num" {
		return d.num.Sign() != 0
	}
	return nonneg(sub(d, numI(1))) || nonneg(sub(neg(d), numI(1)))
}

// aliasV: can two pointers or slices refer to the same object?
// Different parameters of the analysed function are taken to be different objects.
func aliasV(x, y *Term) int {
	if x == y {
		return 2
	}
	if x.op == "ite" || y.op == "ite" {
		if x.op != "ite" {
			x, y = y, x
		}
		for _, c := range x.args {
			if aliasV(c, y) > 0 {
				return 1
			}
		}
		return 0
	}
	fx, fy := x.op == "new" || x.op == "mkmap", y.op == "new" || y.op == "mkmap"
	if fx && fy {
		if x.node != y.node || x.s != y.s {
			return 0
		}
		for i := range x.args {
			if i < len(y.args) && x.args[i] != y.args[i] && distinct(x.args[i], y.args[i]) {
				return 0
			}
		}
		return 1
	}
	if fx || fy {
		return 0
	}
	if isAddr(x) && isAddr(y) {
		return alias(x, y)
	}
	if x.op == "param" && y.op == "param" {
		return 0
	}
	if x.op == "ext" && y.op == "ext" && x.args[0] == y.args[0] {
		return 0 // different results of one call
	}
	if x.op == "lit" || y.op == "lit" || x.op == "tab" || y.op == "tab" || x.op == "comp" || y.op == "comp" {
		return 0
	}
	if x.op == "nil" || y.op == "nil" {
		return 0
	}
	if isAddr(x) != isAddr(y) {
		return 0
	}
	// selections of different fields, or of the same field of different objects
	if x.op == "fld" && y.op == "fld" && x.s != y.s {
		return 0
	}
	if x.op == "data" && y.op == "data" {
		return aliasV(x.args[0], y.args[0])
	}
	if (x.op == "data") != (y.op == "data") {
		return 0
	}
	return 1
}

// ---------- writes ----------

func (g *Graph) mayWrite(n *Node) bool {
	if n.kind == "post" || n.kind == "entry" {
		return false
	}
	switch ins := n.ins.(type) {
	case *ssa.Store, *ssa.MapUpdate, *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		return true
	case *ssa.Call:
		if len(n.succ) == 1 && n.succ[0].to.kind == "entry" {
			return false
		}
		if b, ok := ins.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "copy" || b.Name() == "clear" || b.Name() == "delete"
		}
		f := ins.Call.StaticCallee()
		if f != nil && !g.P.own(f) && isPure(fname(f)) {
			return false
		}
		return true
	}
	return false
}

func (g *Graph) isMemOp(n *Node) bool {
	if n.ins == nil {
		return false
	}
	switch n.ins.(type) {
	case *ssa.Store, *ssa.MapUpdate, *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.Call:
		return g.mayWrite(n)
	}
	return false
}

// writeAddr is the address a plain write node writes (nil for calls).
func (g *Graph) writeAddr(n *Node) *Term {
	switch ins := n.ins.(type) {
	case *ssa.Store:
		return g.at(n, ins.Addr)
	case *ssa.MapUpdate:
		return T("maploc", "", g.at(n, ins.Map), g.at(n, ins.Key))
	case *ssa.Call:
		c := ins.Common()
		if f := c.StaticCallee(); f != nil && fname(f) == "(*gonum.org/v1/gonum/mat.Dense).Set" {
			return mkMaddr(g.at(n, c.Args[0]), g.at(n, c.Args[1]), g.at(n, c.Args[2]))
		}
	}
	return nil
}

// sublocation: loc lies inside the object stored at addr as a whole.
func sublocation(loc, addr *Term) bool {
	for l := loc; ; {
		switch l.op {
		case "faddr", "eaddr":
			if !(isAddr(l.args[0]) || l.args[0].op == "new" || l.args[0].op == "param" || l.args[0].op == "free" || l.args[0].op == "fld" || l.args[0].op == "idx") {
				return false
			}
			l = l.args[0]
			if l == addr {
				return true
			}
			continue
		}
		return false
	}
}

// mayAffect: 0 if node n certainly leaves loc alone.
func (g *Graph) mayAffect(n *Node, loc *Term) int {
	switch ins := n.ins.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		r := rootOf(loc)
		if r.op == "new" || r.op == "mkmap" {
			v := g.at(n, ins.(ssa.Value))
			if r == v || (r.node == n && r.op == v.op) {
				if r == v {
					return 2
				}
				return aliasV(r, v)
			}
		}
		return 0
	case *ssa.Store:
		if g.cannotTouch(n, ins, loc) {
			return 0
		}
		a := g.at(n, ins.Addr)
		if r := g.aliasSt(n, ins, a, loc); r > 0 {
			return r
		}
		if sublocation(loc, a) {
			return 2
		}
		return 0
	case *ssa.MapUpdate:
		if c := mapCell(loc); c.op != "maploc" && c.op != "mapok" {
			return 0 // not an entry of a map
		}
		return alias(T("maploc", "", g.at(n, ins.Map), g.at(n, ins.Key)), mapCell(loc))
	case *ssa.Call:
		sv := g.probing
		g.probing = true
		_, hit := g.callEffect(n, ins, loc, nil, true)
		g.probing = sv
		if hit {
			return 1
		}
	}
	return 0
}

// aliasSt: as alias, for the store st to a; a loop-carried pointer may be to an object made
// before the loop.
func (g *Graph) aliasSt(n *Node, st *ssa.Store, a, loc *Term) int {
	if r := alias(a, loc); r > 0 || a.op != "faddr" || loc.op != "faddr" || a.s != loc.s {
		return r
	}
	x, y := rootOf(a), rootOf(loc)
	if a.args[0] != x || loc.args[0] != y {
		return 0
	}
	var m *Mu
	var made map[*Node]bool
	switch {
	case x.op == "mu" && y.op == "new" && y.s == "obj":
		if m = g.baseMu(x); m != nil {
			made = g.madeAt(n.fr, st.Addr, 0, map[ssa.Value]bool{})
		}
	case y.op == "mu" && x.op == "new" && x.s == "obj":
		x, y = y, x
		if m = g.baseMu(x); m != nil && m.phi != nil {
			made = g.madeAt(m.fr, m.phi, 0, map[ssa.Value]bool{})
		}
	}
	if m == nil || !made[y.node] || m.L.contains(y.node) {
		return 0
	}
	return 1
}

// cannotTouch rules a store out by the type it writes or by where its target was made.
func (g *Graph) cannotTouch(n *Node, st *ssa.Store, loc *Term) bool {
	lt := g.ltyp[loc]
	if pt, ok := st.Addr.Type().Underlying().(*types.Pointer); ok && lt != nil {
		if s := leafType(pt.Elem()); s != "" && s != lt.String() && lt != types.Type(types.Typ[types.UnsafePointer]) && loc.op != "maddr" && loc.op != "mapok" {
			return true
		}
	}
	return g.elsewhere(n.fr, st.Addr, loc)
}

// elsewhere: the object v points into is one made here, and loc is in another.
func (g *Graph) elsewhere(fr *Frame, v ssa.Value, loc *Term) bool {
	made := g.madeAt(fr, v, 0, map[ssa.Value]bool{})
	if len(made) == 0 {
		return false
	}
	r := rootOf(loc)
	switch r.op {
	case "new", "mkmap", "param", "glob", "fld", "idx", "lit", "tab", "comp":
		return loc.op != "maddr" && !made[r.node]
	}
	return false
}

// madeAt: the nodes of the allocations an address certainly belongs to (nil if unknown).
func (g *Graph) madeAt(fr *Frame, v ssa.Value, d int, busy map[ssa.Value]bool) map[*Node]bool {
	for ; d < 20; d++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Alloc:
			return made1(g.defs[vkey{fr, x}])
		case *ssa.MakeSlice:
			return made1(g.defs[vkey{fr, x}])
		case *ssa.Phi:
			if busy[x] {
				return map[*Node]bool{}
			}
			busy[x] = true
			out := map[*Node]bool{}
			for _, e := range x.Edges {
				m := g.madeAt(fr, e, d+1, busy)
				if m == nil {
					return nil
				}
				for k := range m {
					out[k] = true
				}
			}
			delete(busy, x)
			return out
		case *ssa.Call:
			n := g.defs[vkey{fr, x}]
			if n == nil || n.kind != "post" || n.fr.fn.Signature.Results().Len() != 1 {
				return nil
			}
			out := map[*Node]bool{}
			for _, e := range n.pred {
				r, ok := e.from.ins.(*ssa.Return)
				if !ok || e.from.fr != n.fr {
					return nil
				}
				m := g.madeAt(n.fr, r.Results[0], d+1, busy)
				if m == nil {
					return nil
				}
				for k := range m {
					out[k] = true
				}
			}
			return out
		case *ssa.Parameter:
			if fr.parent == nil || fr.call == nil {
				return nil
			}
			i := -1
			for j, p := range fr.fn.Params {
				if p == x {
					i = j
				}
			}
			c := fr.call.Common()
			if fr.invoke {
				i--
			}
			if i < 0 || i >= len(c.Args) || len(c.Args) != len(fr.fn.Params) && !fr.invoke {
				return nil
			}
			v, fr = c.Args[i], fr.parent
		default:
			return nil
		}
	}
	return nil
}

func made1(n *Node) map[*Node]bool {
	if n == nil {
		return nil
	}
	return map[*Node]bool{n: true}
}

func (g *Graph) writesIn(C *Loop, loc *Term) bool {
	for _, m := range g.memOps {
		if C.contains(m) && g.mayAffect(m, loc) > 0 {
			return true
		}
	}
	return false
}

// crossWrites: an earlier iteration of L may have written loc (as named in this iteration).
func (g *Graph) crossWrites(L *Loop, loc *Term) bool {
	if !mentions(loc, L.K) {
		return g.writesIn(L, loc)
	}
	for _, m := range g.memOps {
		if !L.contains(m) || g.mayAffect(m, loc) == 0 {
			// also writes that only alias in other iterations
			if L.contains(m) {
				if st, ok := m.ins.(*ssa.Store); ok && g.cannotTouch(m, st, loc) {
					continue
				}
				if lt := g.ltyp[loc]; lt != nil && lt != types.Type(types.Typ[types.UnsafePointer]) && !isFloat(lt) {
					if _, ok := m.ins.(*ssa.Call); ok {
						continue // matrix cells are numbers
					}
				}
				if _, ok := m.ins.(*ssa.MapUpdate); ok {
					if c := mapCell(loc); c.op != "maploc" && c.op != "mapok" {
						continue
					}
				}
				if a := g.writeAddr(m); a != nil && mentions(a, L.K) {
					old := substT(a, map[*Term]*Term{L.K: T("tmp", "prev")})
					if alias(old, loc) > 0 && !g.shifted(a, loc, L.K) {
						return true
					}
				}
			}
			continue
		}
		if _, ok := m.ins.(*ssa.Alloc); ok {
			continue
		}
		a := g.writeAddr(m)
		if a == nil {
			return true
		}
		if !g.shifted(a, loc, L.K) {
			return true
		}
	}
	return false
}

// shifted: a and loc differ, between different iterations, in an index that moves with K.
func (g *Graph) shifted(a, loc, K *Term) bool {
	if a.op != loc.op || len(a.args) != len(loc.args) {
		return false
	}
	for i := range a.args {
		ca, ra := linear(a.args[i], K)
		cl, rl := linear(loc.args[i], K)
		if ca != nil && cl != nil && ca == cl && ra == rl && !ca.isInt(0) {
			return true
		}
	}
	if len(a.args) > 0 && (a.args[0].op == "faddr" || a.args[0].op == "eaddr" || a.args[0].op == "new") && a.args[0].op == loc.args[0].op {
		return g.shifted(a.args[0], loc.args[0], K)
	}
	return false
}

// effect of node p on loc: the new contents, and whether p determines them.
func (g *Graph) effect(p *Node, loc *Term, typ types.Type) (*Term, bool) {
	switch ins := p.ins.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		r := rootOf(loc)
		if r.op != "new" && r.op != "mkmap" {
			return nil, false
		}
		v := g.at(p, ins.(ssa.Value))
		if r == v {
			return g.zeroAt(loc, typ), true
		}
		if r.node == p { // constant-size make: slice over the array
			return g.zeroAt(loc, typ), true
		}
		return nil, false
	case *ssa.Store:
		if g.cannotTouch(p, ins, loc) {
			return nil, false
		}
		a := g.at(p, ins.Addr)
		switch g.aliasSt(p, ins, a, loc) {
		case 2:
			return g.at(p, ins.Val), true
		case 1:
			if a.op == "ite" { // one of several cells, by condition
				gs := make([]B, len(a.args))
				vs := make([]*Term, len(a.args))
				for i, x := range a.args {
					gs[i] = a.g[i]
					if alias(x, loc) == 2 {
						vs[i] = g.at(p, ins.Val)
					} else if alias(x, loc) == 0 {
						vs[i] = g.before(p, loc, typ)
					} else {
						return g.clob(p, loc), true
					}
				}
				return ite(gs, vs), true
			}
			if c, ok := sameCell(a, loc); ok {
				old := g.before(p, loc, typ)
				v := g.at(p, ins.Val)
				if v.op != "num" {
					if x := g.before(p, a, typ); x != v && x.any(func(y *Term) bool { return y.op == "mu" }) && mentions(v, x) {
						v = substT(v, map[*Term]*Term{x: old}) // a cell updated from its own contents
					}
				}
				return ite([]B{c, bnot(c)}, []*Term{v, old}), true
			}
			return g.clob(p, loc), true
		}
		if sublocation(loc, a) {
			return sel(g.at(p, ins.Val), loc, a, ins.Val.Type()), true
		}
	case *ssa.MapUpdate:
		a := T("maploc", "", g.at(p, ins.Map), g.at(p, ins.Key))
		switch alias(a, mapCell(loc)) {
		case 2:
			if loc.op == "mapok" {
				return fromB(BTrue), true
			}
			if mapCell(loc) != loc {
				return sel(g.at(p, ins.Value), loc, a, ins.Value.Type()), true
			}
			return g.at(p, ins.Value), true
		case 1:
			return g.clob(p, loc), true
		}
	case *ssa.Call:
		return g.callEffect(p, ins, loc, typ, false)
	}
	return nil, false
}

func (g *Graph) zeroAt(loc *Term, typ types.Type) *Term {
	if loc.op == "mapok" {
		return fromB(BFalse)
	}
	if typ != nil {
		return zero(typ)
	}
	return numI(0)
}

// mapCell: the map entry a location lies in.
func mapCell(loc *Term) *Term {
	for l := loc; ; l = l.args[0] {
		switch l.op {
		case "maploc", "mapok":
			return l
		case "faddr", "eaddr":
			continue
		}
		return loc
	}
}

// sel selects the part of v (stored whole at a) that loc names.
func sel(v, loc, a *Term, vt types.Type) *Term {
	var path []*Term
	for l := loc; l != a; l = l.args[0] {
		path = append([]*Term{l}, path...)
	}
	t := vt
	for _, s := range path {
		switch s.op {
		case "faddr":
			st, _ := t.Underlying().(*types.Struct)
			idx := -1
			if st != nil {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == s.s {
						idx = i
					}
				}
			}
			if idx < 0 {
				v = T("fld", s.s, v)
				continue
			}
			v = mkField(v, s.s, t, idx)
			t = st.Field(idx).Type()
		case "eaddr":
			v = mkIdx(v, s.args[1])
			if at, ok := t.Underlying().(*types.Array); ok {
				t = at.Elem()
			}
		}
	}
	return v
}

// clob: the contents of loc after p, which may have changed it in a way not followed further.
func (g *Graph) clob(p *Node, loc *Term) *Term {
	if g.probing {
		return tNil
	}
	name := "store"
	as := []*Term{loc}
	switch ins := p.ins.(type) {
	case *ssa.Call:
		c := ins.Common()
		name = "dyn"
		if b, ok := c.Value.(*ssa.Builtin); ok {
			name = b.Name()
		} else if p.opq != nil {
			name = fname(p.opq)
		} else if f := c.StaticCallee(); f != nil {
			name = fname(f)
		}
		for _, a := range c.Args {
			as = append(as, g.at(p, a))
		}
	case *ssa.Store:
		as = append(as, g.at(p, ins.Addr), g.at(p, ins.Val))
	case *ssa.MapUpdate:
		as = append(as, g.at(p, ins.Map), g.at(p, ins.Key), g.at(p, ins.Value))
	}
	return g.res(p, "after "+name, as...)
}

const (
	mDense = "(*gonum.org/v1/gonum/mat.Dense)."
	fl     = "gonum.org/v1/gonum/floats."
)

// callEffect models what known functions write.
func (g *Graph) callEffect(p *Node, c *ssa.Call, loc *Term, typ types.Type, probe bool) (*Term, bool) {
	load := func(n *Node, l *Term, t types.Type) *Term {
		if probe {
			return tNil
		}
		return g.load(n, l, t)
	}
	before := func(n *Node, l *Term, t types.Type) *Term {
		if probe {
			return tNil
		}
		return g.before(n, l, t)
	}
	cc := c.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "copy" && loc.op == "eaddr" {
			lt := typ
			if lt == nil {
				lt = g.ltyp[loc]
			}
			if st, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok && lt != nil && lt != types.Type(types.Typ[types.UnsafePointer]) {
				if l := leafType(st.Elem()); l != "" && l != lt.String() {
					return nil, false
				}
			}
			if g.elsewhere(p.fr, cc.Args[0], loc) {
				return nil, false
			}
			d, s := g.at(p, cc.Args[0]), g.at(p, cc.Args[1])
			da := mkEaddr(d, numI(0))
			if da.op == "eaddr" && aliasV(da.args[0], loc.args[0]) > 0 {
				if aliasV(da.args[0], loc.args[0]) < 2 {
					return g.clob(p, loc), true
				}
				i := sub(loc.args[1], da.args[1])
				val := load(p, mkEaddr(s, i), typ)
				if mkLen(s) == mkLen(d) && da.args[1].isInt(0) {
					return val, true
				}
				in := ball(le0(neg(i)), ilt(i, mkLen(s)), ilt(i, mkLen(d)))
				if in == BTrue {
					return val, true
				}
				return ite([]B{in, bnot(in)}, []*Term{val, before(p, loc, typ)}), true
			}
		}
		if (b.Name() == "delete" || b.Name() == "clear") && (loc.op == "maploc" || loc.op == "mapok") && aliasV(g.at(p, cc.Args[0]), loc.args[0]) > 0 {
			return g.clob(p, loc), true
		}
		return nil, false
	}
	fn := cc.StaticCallee()
	if p.opq != nil {
		fn = p.opq
	}
	if fn == nil {
		return nil, false // interface or unknown calls: see effects analysis (C06, C07)
	}
	name := fname(fn)
	arg := func(i int) *Term { return g.at(p, cc.Args[i]) }
	num := func(i int) *Term {
		if probe {
			return tNil
		}
		return g.at(p, cc.Args[i])
	}
	if strings.HasPrefix(name, mDense) || strings.HasPrefix(name, fl) {
		lt := typ
		if lt == nil {
			lt = g.ltyp[loc]
		}
		if lt != nil && lt != types.Type(types.Typ[types.UnsafePointer]) && !isFloat(lt) {
			return nil, false // they write floating-point numbers only
		}
	}
	if name == "gonum.org/v1/gonum/mat.NewDense" {
		if loc.op == "maddr" || (loc.op == "eaddr" && loc.args[0].op == "data") {
			b := loc.args[0]
			if b.op == "data" {
				b = b.args[0]
			}
			if b.op == "new" && b.s == "dense" && b.node == p && b.args[0].args[2].op == "nil" {
				return numI(0), true
			}
		}
		return nil, false
	}
	// whole-matrix operations
	if strings.HasPrefix(name, mDense) {
		if loc.op != "maddr" && !(loc.op == "eaddr" && loc.args[0].op == "data") && !(loc.op == "eaddr") {
			return nil, false
		}
		op := name[len(mDense):]
		switch op {
		case "Scale", "Sub", "Add", "MulElem", "DivElem", "Set", "SetRow", "Zero", "Apply", "Mul", "Copy", "SetCol", "Exp", "CloneFrom", "Reset", "Inverse", "Pow":
		default:
			return nil, false
		}
		D := arg(0)
		cell, own := g.cellOf(D, loc)
		if own == 0 {
			return nil, false
		}
		if own == 1 {
			return g.clob(p, loc), true
		}
		rd := func(X *Term) *Term { return load(p, cell(X), typ) }
		switch op {
		case "Scale":
			return mul(num(1), rd(arg(2))), true
		case "Sub":
			return sub(rd(arg(1)), rd(arg(2))), true
		case "Add":
			return add(rd(arg(1)), rd(arg(2))), true
		case "MulElem":
			return mul(rd(arg(1)), rd(arg(2))), true
		case "DivElem":
			return fdiv(rd(arg(1)), rd(arg(2))), true
		case "Zero":
			return numI(0), true
		case "Set":
			a := mkMaddr(D, arg(1), arg(2))
			switch alias(a, loc) {
			case 2:
				return num(3), true
			case 0:
				return nil, false
			}
			if c, ok := sameCell(a, loc); ok {
				return ite([]B{c, bnot(c)}, []*Term{num(3), before(p, loc, typ)}), true
			}
			return g.clob(p, loc), true
		case "SetRow":
			if loc.op == "maddr" {
				if loc.args[1] == arg(1) {
					src := mkEaddr(arg(2), loc.args[2])
					if src == loc {
						return nil, false // the row is its own source
					}
					return load(p, src, typ), true
				}
				if distinct(loc.args[1], arg(1)) {
					return nil, false
				}
			}
			return g.clob(p, loc), true
		}
		return g.clob(p, loc), true
	}
	if strings.HasPrefix(name, fl) {
		if loc.op != "eaddr" {
			return nil, false
		}
		op := name[len(fl):]
		var dst *Term
		switch op {
		case "Scale", "AddConst":
			dst = arg(1)
		case "Add", "Sub", "Mul", "Div", "AddScaled", "AddTo", "SubTo", "MulTo", "DivTo", "CumSum", "Reverse", "ScaleTo", "AddScaledTo":
			dst = arg(0)
		default:
			return nil, false
		}
		a := mkEaddr(dst, numI(0))
		if a.op != "eaddr" {
			return nil, false
		}
		switch aliasV(a.args[0], loc.args[0]) {
		case 0:
			return nil, false
		case 1:
			return g.clob(p, loc), true
		}
		i := sub(loc.args[1], a.args[1])
		rd := func(x *Term) *Term { return load(p, mkEaddr(x, i), typ) }
		switch op {
		case "Scale":
			return mul(num(0), rd(dst)), true
		case "AddConst":
			return add(num(0), rd(dst)), true
		case "Add":
			return add(rd(dst), rd(arg(1))), true
		case "Sub":
			return sub(rd(dst), rd(arg(1))), true
		case "Mul":
			return mul(rd(dst), rd(arg(1))), true
		case "Div":
			return fdiv(rd(dst), rd(arg(1))), true
		case "AddScaled":
			return add(rd(dst), mul(num(1), rd(arg(2)))), true
		case "AddTo":
			return add(rd(arg(1)), rd(arg(2))), true
		case "SubTo":
			return sub(rd(arg(1)), rd(arg(2))), true
		case "MulTo":
			return mul(rd(arg(1)), rd(arg(2))), true
		case "DivTo":
			return fdiv(rd(arg(1)), rd(arg(2))), true
		case "ScaleTo":
			return mul(num(1), rd(arg(2))), true
		}
		return g.clob(p, loc), true
	}
	switch name {
	case "encoding/json.Unmarshal":
		q := arg(1)
		if rootOf(loc) == rootOf(q) || sublocation(loc, q) {
			return initial(reroot(loc, q, g.res(p, "decoded", arg(0))), typ), true
		}
		return nil, false
	case "sort.Sort", "sort.Stable", "slices.Sort", "slices.SortFunc", "slices.Reverse", "sort.Slice", "sort.Float64s", "sort.Ints", "slices.SortStableFunc", "sort.SliceStable":
		if loc.op != "eaddr" {
			return nil, false
		}
		lt := typ
		if lt == nil {
			lt = g.ltyp[loc]
		}
		if st, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok && lt != nil && !types.Identical(lt, st.Elem()) {
			if _, ok := st.Elem().Underlying().(*types.Basic); ok {
				return nil, false
			}
		}
		a := arg(0)
		if a.op == loc.args[0].op && aliasV(a, loc.args[0]) == 2 {
			if name == "slices.Reverse" {
				return load(p, mkEaddr(loc.args[0], sub(sub(mkLen(a), numI(1)), loc.args[1])), typ), true
			}
			return g.clob(p, loc), true
		}
		if a.op == "new" { // an object holding slices
			if st := structOf(cc.Args[0]); st != nil {
				for i := 0; i < st.NumFields(); i++ {
					if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && lt != nil && !types.Identical(lt, sl.Elem()) {
						continue
					}
					f := g.load(p, T("faddr", st.Field(i).Name(), a), st.Field(i).Type())
					if f == loc.args[0] || aliasV(f, loc.args[0]) > 0 {
						return g.clob(p, loc), true
					}
				}
			}
			return nil, false
		}
		if rootOf(loc).op == "new" || rootOf(loc).op == "lit" || (a.op == "ext" && loc.args[0].op == "ext" && aliasV(a, loc.args[0]) == 0) {
			return nil, false
		}
		return g.clob(p, loc), true
	}
	if g.P.own(fn) {
		m := g.P.visible(fn)
		for _, w := range m {
			lt := typ
			if lt == nil {
				lt = g.ltyp[loc]
			}
			if !w.matches(loc, lt) {
				continue
			}
			var args []ssa.Value // only the one written through is evaluated
			if cc.IsInvoke() {
				args = append(args, cc.Value)
			}
			args = append(args, cc.Args...)
			r := rootOf(loc)
			if w.param < 0 || w.param >= len(args) {
				if r.op == "new" {
					continue
				}
				return g.clob(p, loc), true
			}
			if w.direct && g.elsewhere(p.fr, args[w.param], loc) {
				continue
			}
			a := g.at(p, args[w.param])
			if a == tNil {
				continue
			}
			if w.via != "" && loc.op == "eaddr" {
				b := loc.args[0]
				for b.op == "idx" || b.op == "slice" || (b.op == "eaddr" && len(b.args) > 0) {
					b = b.args[0]
				}
				if (b.op == "fld" && b.s != w.via) || b.op == "tab" || b.op == "comp" || b.op == "lit" {
					continue
				} else if b.op == "fld" && aliasV(a, b.args[0]) == 0 {
					continue
				}
			}
			if w.direct {
				switch {
				case w.elem && loc.op == "eaddr":
					b := mkEaddr(a, numI(0))
					if b.op == "eaddr" && aliasV(b.args[0], loc.args[0]) == 0 {
						continue
					}
					return g.clob(p, loc), true
				case w.elem && (loc.op == "maploc" || loc.op == "mapok" || loc.op == "maddr"):
					if aliasV(a, loc.args[0]) == 0 {
						continue
					}
					return g.clob(p, loc), true
				case !w.elem && loc.op == "faddr":
					if aliasV(a, loc.args[0]) == 0 {
						continue
					}
					return g.clob(p, loc), true
				}
			}
			if mentions(a, r) || mentions(loc, a) || (r.op != "new" && r.op != "param" && a.op != "new") {
				// a matrix argument written as a whole
				return g.clob(p, loc), true
			}
		}
	}
	return nil, false
}

func structOf(v ssa.Value) *types.Struct {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	t := v.Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func reroot(loc, from, to *Term) *Term {
	if loc == from {
		return to
	}
	if len(loc.args) == 0 {
		return loc
	}
	as := append([]*Term{}, loc.args...)
	as[0] = reroot(as[0], from, to)
	return T(loc.op, loc.s, as...)
}

// cellOf maps loc, a cell of matrix D, to the same cell of another matrix.
// own: 2 loc is a cell of D, 1 maybe, 0 no.
func (g *Graph) cellOf(D, loc *Term) (func(*Term) *Term, int) {
	switch {
	case loc.op == "maddr":
		switch aliasV(D, loc.args[0]) {
		case 2:
			return func(X *Term) *Term { return mkMaddr(X, loc.args[1], loc.args[2]) }, 2
		case 1:
			return nil, 1
		}
	case loc.op == "eaddr" && loc.args[0].op == "data":
		switch aliasV(D, loc.args[0].args[0]) {
		case 2:
			return func(X *Term) *Term { return mkEaddr(mkData(X), loc.args[1]) }, 2
		case 1:
			return nil, 1
		}
	case loc.op == "eaddr" && D.op == "new" && D.s == "dense" && mkData(D) == loc.args[0]:
		return func(X *Term) *Term { return mkEaddr(mkData(X), loc.args[1]) }, 2
	}
	return nil, 0
}

// ---------- known functions ----------

func (g *Graph) sumOver(n *Node, x *Term, f func(v *Term) *Term) *Term {
	v := tmpVar()
	return mkSum(v, mkLen(x), f(v))
}

func (g *Graph) known(n *Node, name string, a []*Term, v *ssa.Call) *Term {
	f64 := types.Typ[types.Float64]
	switch name {
	case "gonum.org/v1/gonum/mat.NewDense":
		if mk, ok := v.Call.Args[2].(*ssa.MakeSlice); ok && mk.Referrers() != nil {
			k := 0
			for _, r := range *mk.Referrers() {
				if _, dbg := r.(*ssa.DebugRef); !dbg {
					k++
				}
			}
			if k == 1 && mkLen(a[2]) == mul(a[0], a[1]) {
				a[2] = tNil // zeros nobody else sees
			}
		}
		d := T("dims", "", a[0], a[1], a[2])
		return g.fresh(n, "dense", d)
	case mDense + "Dims":
		return T("tuple", "", mkDim("rows", a[0]), mkDim("cols", a[0]))
	case mDense + "RawMatrix":
		return T("rawmat", "", a[0])
	case mDense + "RawRowView":
		if a[0].op == "new" && a[0].s == "dense" && a[0].args[0].args[2].op != "nil" && a[0].args[0].args[0].isInt(1) {
			return a[0].args[0].args[2]
		}
		return T("rowview", "", a[0], a[1])
	case mDense + "At":
		return g.load(n, mkMaddr(a[0], a[1], a[2]), f64)
	case "gonum.org/v1/gonum/mat.Sum":
		return T("call", name, a...)
	case fl + "Sum":
		return g.sumOver(n, a[0], func(v *Term) *Term { return g.load(n, mkEaddr(a[0], v), f64) })
	case fl + "Max", fl + "Min":
		return T("call", name, a...)
	case "math.Inf":
		if a[0].op == "num" {
			if a[0].num.Sign() >= 0 {
				return pinf
			}
			return neg(pinf)
		}
	case "math.MaxFloat64":
	case "math.IsInf":
		if a[1].op == "num" {
			p, m := feq(a[0], pinf), feq(a[0], neg(pinf))
			switch a[1].num.Sign() {
			case 1:
				return fromB(p)
			case -1:
				return fromB(m)
			}
			return fromB(bor(p, m))
		}
	case "math.IsNaN":
		return fromB(batom(T("eq", "", a[0], T("nan", ""))))
	case "math.Max":
		return fmm("fmax", a[0], a[1])
	case "math.Min":
		return fmm("fmin", a[0], a[1])
	case "math.Pow":
		if a[1].isInt(2) {
			return mul(a[0], a[0])
		}
	case "slices.Contains", "slices.Index":
		s := v.Common().Args[0].Type().Underlying().(*types.Slice)
		w := tmpVar()
		el := g.load(n, mkEaddr(a[0], w), s.Elem())
		var b B
		switch {
		case isFloat(s.Elem()):
			b = feq(el, a[1])
		case isInteger(s.Elem()):
			b = eq0(sub(el, a[1]))
		default:
			b = eqv(el, a[1])
		}
		ln := mkLen(a[0])
		if name == "slices.Contains" {
			return fromB(mkEx(w, ln, b))
		}
		e := mkEx(w, ln, b)
		return ite([]B{e, bnot(e)}, []*Term{mkFirst(w, ln, b), numI(-1)})
	case "slices.Clone", "bytes.Clone", "strings.Clone":
		if l := g.contents(n, a[0], v.Call.Args[0].Type()); l != nil {
			return l
		}
		return a[0]
	case "fmt.Errorf", "errors.New":
		return T("errv", name, a...)
	case "fmt.Sprintf":
		if t := g.sprintf(n, v, a); t != nil {
			return t
		}
	case "fmt.Sprint":
		if a[0].op == "lit" && len(a[0].args) == 1 {
			return fmtTerm("%v", a[0].args[0], argType(v, 0, 0))
		}
	case "strings.Replace", "strings.ReplaceAll", "strings.TrimSuffix", "strings.TrimRight":
		// the line end of a line that was read
		if a[1].op == "str" && a[1].s == "\n" && (strings.HasPrefix(name, "strings.Trim") || (a[2].op == "str" && a[2].s == "" && (len(a) == 3 || a[3].isInt(-1)))) {
			return T("call", "strings.TrimSuffix", a[0], a[1])
		}
	case "strings.Fields":
		x := a[0]
		for x.op == "call" && (x.s == "strings.TrimSpace" || (x.s == "strings.TrimSuffix" && x.args[1] == str("\n"))) {
			x = x.args[0]
		}
		return T("call", name, x)
	case "strings.Join":
		if l := g.contents(n, a[0], v.Call.Args[0].Type()); l != nil {
			return T("call", name, l, a[1])
		}
	case "strconv.Itoa":
		return T("fmt", "%d", a[0])
	case "strconv.FormatInt":
		if a[1].isInt(10) {
			return T("fmt", "%d", a[0])
		}
	case "strconv.FormatFloat":
		if a[2].isInt(-1) && a[3].isInt(64) && (a[1].isInt('g') || a[1].isInt('f') || a[1].isInt('e') || a[1].isInt('G') || a[1].isInt('E')) {
			return T("fmt", "%v", a[0])
		}
	case "(error).Error":
		return T("call", name, a...)
	case "errors.Is":
		if isEOF(a[1]) {
			return fromB(eqv(a[0], a[1]))
		}
	}
	return nil
}

func fmm(op string, a, b *Term) *Term {
	if b.op == "num" {
		a, b = b, a
	}
	if a.op == "num" && b.op != "num" && assumed != nil {
		switch lt := flt(b, a); {
		case lt == BTrue && op == "fmax", lt == BFalse && op == "fmin":
			return a
		case lt == BTrue, lt == BFalse:
			return b
		}
	}
	if a.op == "num" && b.op == "num" {
		if (a.num.Cmp(b.num) >= 0) == (op == "fmax") {
			return a
		}
		return b
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T(op, "", a, b)
}

var pinf = T("pinf", "")

// argType: static type of the i-th variadic argument of a call.
func argType(c *ssa.Call, va, i int) types.Type {
	args := c.Common().Args
	if va >= len(args) {
		return nil
	}
	sl, ok := args[va].(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		ci, ok := ia.Index.(*ssa.Const)
		if !ok || ci.Int64() != int64(i) {
			continue
		}
		for _, rr := range *ia.Referrers() {
			if st, ok := rr.(*ssa.Store); ok {
				if mi, ok := st.Val.(*ssa.MakeInterface); ok {
					return mi.X.Type()
				}
				return st.Val.Type()
			}
		}
	}
	return nil
}

func fmtTerm(verb string, x *Term, t types.Type) *Term {
	if t != nil && isString(t) && (verb == "%s" || verb == "%v") {
		return x
	}
	if t != nil && isInteger(t) && verb == "%v" {
		verb = "%d"
	}
	if t != nil && isInteger(t) && strings.HasSuffix(verb, "d") && len(verb) > 2 && strings.Trim(verb[1:len(verb)-1], "0123456789") == "" {
		verb = "%d" // padded on the left
	}
	if t != nil && isFloat(t) && verb == "%g" {
		verb = "%v"
	}
	return T("fmt", verb, x)
}

// sprintf splits a constant format into its literal parts and formatted values.
func (g *Graph) sprintf(n *Node, v *ssa.Call, a []*Term) *Term {
	if a[0].op != "str" {
		return nil
	}
	f := a[0].s
	var as []*Term
	if len(a) > 1 {
		if a[1].op == "lit" {
			as = a[1].args
		} else if a[1].op != "nil" {
			return nil
		}
	}
	r := str("")
	k := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			r = mkConcat(r, str(f[i:i+j]))
			i += j
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			return nil
		}
		verb := f[i : j+1]
		i = j + 1
		if verb == "%%" {
			r = mkConcat(r, str("%"))
			continue
		}
		if k >= len(as) {
			return nil
		}
		r = mkConcat(r, fmtTerm(verb, as[k], argType(v, 1, k)))
		k++
	}
	if k != len(as) {
		return nil
	}
	return r
}

// ---------- module summaries ----------

// write is a kind of store a function may do to something it was handed.
type write struct {
	param  int // root parameter, -1 unknown
	field  string
	elem   bool
	direct bool   // reached from the parameter without following a stored reference
	typ    string // type of what is written ("" unknown)
	via    string // elements of a slice held in this field
}

func (w write) matches(loc *Term, typ types.Type) bool {
	if typ != nil && w.typ != "" && typ != types.Type(types.Typ[types.UnsafePointer]) && loc.op != "maddr" && w.typ != typ.String() {
		return false
	}
	if w.elem {
		return loc.op == "eaddr" || loc.op == "maddr" || loc.op == "maploc" || loc.op == "mapok"
	}
	if w.typ != "" && w.field != "*" { // a plain value is stored in the field itself, not in a part of it
		return loc.op == "faddr" && loc.s == w.field
	}
	for l := loc; len(l.args) > 0; l = l.args[0] {
		if l.op == "faddr" && l.s == w.field {
			return true
		}
	}
	return false
}

// mods: the stores fn (or anything it calls) may do to non-fresh objects.
func (P *Prog) mods(fn *ssa.Function) []write {
	if P.modMemo == nil {
		P.modMemo = map[*ssa.Function][]write{}
	}
	if r, ok := P.modMemo[fn]; ok {
		return r
	}
	P.modMemo[fn] = nil
	set := map[write]bool{}
	for ch := true; ch; {
		ch = false
		P.modMemo[fn] = keys(set)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, w := range P.insMods(fn, ins) {
					if !set[w] {
						set[w] = true
						ch = true
					}
				}
			}
		}
	}
	P.modMemo[fn] = keys(set)
	return P.modMemo[fn]
}

// visible: the writes of mods that the points-to analysis confirms may reach something
// that exists outside the call.
func (P *Prog) visible(fn *ssa.Function) []write {
	if P.visMemo == nil {
		P.visMemo = map[*ssa.Function][]write{}
	}
	if r, ok := P.visMemo[fn]; ok {
		return r
	}
	r := []write{}
	if m := P.mods(fn); len(m) > 0 {
		H := P.Heap(fn)
		typs := map[string]bool{}
		for _, a := range H.acc {
			if !a.write || a.grow || (a.l.o.kind != "root" && a.l.o.kind != "global") {
				continue
			}
			t := typeAt(a.l.o.typ, a.l.path)
			if t == nil {
				typs["?"] = true
				continue
			}
			lt, p := leafType(t), a.l.path
			typs[lt] = true
			switch {
			case strings.HasSuffix(p, "[]"), strings.HasSuffix(p, "{}"):
				typs[lt+"[]"] = true
			case strings.LastIndexByte(p, '.') >= 0 && !strings.HasSuffix(p, "<>"):
				typs[lt+p[strings.LastIndexByte(p, '.'):]] = true
			default:
				typs[lt+"[]"], typs[lt+".*"] = true, true
			}
		}
		for _, w := range m {
			if w.typ != "" && !typs["?"] && w.field != "*" {
				if w.elem && !typs[w.typ+"[]"] || !w.elem && !typs[w.typ+"."+w.field] && !typs[w.typ+".*"] {
					continue
				}
			}
			if typs["?"] || typs[w.typ] || (w.typ == "" && len(typs) > 0) {
				r = append(r, w)
			}
		}
	}
	P.visMemo[fn] = r
	return r
}

func keys(m map[write]bool) []write {
	var r []write
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return fmt.Sprint(r[i]) < fmt.Sprint(r[j]) })
	return r
}

func (P *Prog) insMods(fn *ssa.Function, ins ssa.Instruction) []write {
	mk := func(addr ssa.Value) []write {
		fresh, p := P.rootParam(fn, addr, 0)
		if fresh {
			return nil
		}
		w := write{param: p, direct: directAddr(addr)}
		if pt, ok := addr.Type().Underlying().(*types.Pointer); ok {
			w.typ = leafType(pt.Elem())
		}
		switch a := addr.(type) {
		case *ssa.FieldAddr:
			w.field = fieldName(a.X.Type(), a.Field)
		case *ssa.IndexAddr:
			w.elem = true
			w.via = viaField(a.X)
			// an array inside a struct counts as the field
			if fa, ok := a.X.(*ssa.FieldAddr); ok {
				w.elem = false
				w.field = fieldName(fa.X.Type(), fa.Field)
			}
		default:
			w.field = "*"
		}
		return []write{w}
	}
	elems := func(v ssa.Value) []write {
		fresh, p := P.rootParam(fn, v, 0)
		if fresh {
			return nil
		}
		w := write{param: p, elem: true}
		switch u := v.Type().Underlying().(type) {
		case *types.Slice:
			w.typ = leafType(u.Elem())
			_, w.direct = v.(*ssa.Parameter)
			w.via = viaField(v)
		case *types.Pointer:
			if n, ok := u.Elem().(*types.Named); ok && n.Obj().Name() == "Dense" {
				w.typ = "float64"
			}
		}
		return []write{w}
	}
	switch ins := ins.(type) {
	case *ssa.Store:
		return mk(ins.Addr)
	case *ssa.MapUpdate:
		return elems(ins.Map)
	case ssa.CallInstruction:
		c := ins.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			if b.Name() == "copy" {
				return elems(c.Args[0])
			}
			return nil
		}
		f := c.StaticCallee()
		var out []write
		own := []*ssa.Function{f}
		args := c.Args
		switch {
		case f != nil:
		case c.IsInvoke():
			own = P.implementers(c.Value.Type(), c.Method.Name())
			args = append([]ssa.Value{c.Value}, args...)
		default:
			own = P.addrTaken(c.Signature())
		}
		if f == nil || P.own(f) {
			var ws []write
			for _, f := range own {
				ws = append(ws, P.mods(f)...)
			}
			for _, w := range ws {
				if w.param >= 0 && w.param < len(args) {
					a := args[w.param]
					fresh, p := P.rootParam(fn, a, 0)
					if fresh {
						continue
					}
					w.param = p
					if _, ok := a.(*ssa.Parameter); !ok {
						if w.direct && w.elem {
							w.via = viaField(a)
						}
						w.direct = false
					}
				}
				out = append(out, w)
			}
			return out
		}
		if n := fname(f); n == "sort.Sort" || n == "sort.Stable" {
			if mi, ok := c.Args[0].(*ssa.MakeInterface); ok {
				if ms := P.ssa.MethodSets.MethodSet(mi.X.Type()).Lookup(nil, "Swap"); ms != nil {
					if sw := P.ssa.MethodValue(ms); sw != nil && P.own(sw) {
						fresh, p := P.rootParam(fn, mi.X, 0)
						if !fresh {
							for _, w := range P.mods(sw) {
								if w.param == 0 {
									w.param, w.direct = p, false
									out = append(out, w)
								}
							}
							return out
						}
						for _, v := range heldBy(fn, mi.X) {
							out = append(out, elems(v)...)
						}
						return out
					}
				}
			}
		}
		for _, i := range extWrites(fname(f)) {
			if i < len(c.Args) {
				out = append(out, elems(c.Args[i])...)
				// an object built here around slices that came from outside
				if mi, ok := c.Args[i].(*ssa.MakeInterface); ok {
					for _, v := range heldBy(fn, mi.X) {
						out = append(out, elems(v)...)
					}
				}
			}
		}
		return out
	}
	return nil
}

// heldBy: slices stored into fields of the object obj built in fn.
func heldBy(fn *ssa.Function, obj ssa.Value) []ssa.Value {
	var r []ssa.Value
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.X == obj {
				if _, ok := st.Val.Type().Underlying().(*types.Slice); ok {
					r = append(r, st.Val)
				}
			}
		}
	}
	return r
}

// viaField: v is (a slice of) what a field holds.
func viaField(v ssa.Value) string {
	for {
		switch x := v.(type) {
		case *ssa.Slice:
			v = x.X
			continue
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
				return fieldName(fa.X.Type(), fa.Field)
			}
		}
		return ""
	}
}

func leafType(t types.Type) string {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return ""
	}
	return t.String()
}

// directAddr: the address is a field or element of a parameter itself.
func directAddr(a ssa.Value) bool {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.Slice:
			a = x.X
		case *ssa.Parameter:
			return true
		default:
			return false
		}
	}
}

// extWrites: which arguments an external function writes through.
func extWrites(name string) []int {
	if strings.HasPrefix(name, mDense) {
		switch name[len(mDense):] {
		case "Dims", "At", "RawMatrix", "RawRowView", "Caps", "T", "RowView", "ColView":
			return nil
		}
		return []int{0}
	}
	if strings.HasPrefix(name, fl) {
		switch name[len(fl):] {
		case "Scale", "AddConst":
			return []int{1}
		case "Add", "Sub", "Mul", "Div", "AddScaled", "AddTo", "SubTo", "MulTo", "DivTo", "CumSum", "CumProd", "Reverse", "ScaleTo", "AddScaledTo", "Span", "LogSpan", "Argsort":
			return []int{0}
		}
		return nil
	}
	switch name {
	case "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable", "sort.Ints", "sort.Float64s", "sort.Strings", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse":
		return []int{0}
	case "encoding/json.Unmarshal":
		return []int{1}
	case "slices.Delete", "slices.Insert", "slices.Compact", "slices.Replace", "slices.DeleteFunc":
		return []int{0}
	}
	return nil
}

// rootParam traces an address or reference back to the object it belongs to.
func (P *Prog) rootParam(fn *ssa.Function, v ssa.Value, d int) (fresh bool, param int) {
	if d > 12 {
		return false, -1
	}
	switch v := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeClosure:
		return true, -1
	case *ssa.Parameter:
		for i, p := range fn.Params {
			if p == v {
				return false, i
			}
		}
	case *ssa.FieldAddr:
		return P.rootParam(fn, v.X, d+1)
	case *ssa.IndexAddr:
		return P.rootParam(fn, v.X, d+1)
	case *ssa.Slice:
		return P.rootParam(fn, v.X, d+1)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			// a reference loaded from somewhere: what it points to belongs to the holder
			if fr, p := P.rootParam(fn, v.X, d+1); fr {
				// loaded from a local object: everything stored there
				return P.storedFresh(fn, v.X, d+1)
			} else {
				return false, p
			}
		}
	case *ssa.Phi:
		fresh := true
		param := -1
		for _, e := range v.Edges {
			if e == v {
				continue
			}
			f, p := P.rootParam(fn, e, d+4)
			if !f {
				fresh = false
				param = p
			}
		}
		return fresh, param
	case *ssa.Const:
		return true, -1
	case *ssa.MakeInterface:
		return P.rootParam(fn, v.X, d+1)
	case *ssa.TypeAssert:
		return P.rootParam(fn, v.X, d+1)
	case *ssa.ChangeType:
		return P.rootParam(fn, v.X, d+1)
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			if f := c.Common().StaticCallee(); f != nil && P.own(f) {
				return P.resultRoot(fn, c, v.Index, d)
			}
		}
		return P.rootParam(fn, v.Tuple, d+1)
	case *ssa.Call:
		c := v.Common()
		if f := c.StaticCallee(); f != nil && P.own(f) {
			return P.resultRoot(fn, v, 0, d)
		}
		if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			f1, p1 := P.rootParam(fn, c.Args[0], d+1)
			return f1, p1
		}
		if f := c.StaticCallee(); f != nil && !P.own(f) {
			n := fname(f)
			if n == "gonum.org/v1/gonum/mat.NewDense" {
				if len(c.Args) == 3 {
					if k, ok := c.Args[2].(*ssa.Const); ok && k.Value == nil {
						return true, -1
					}
					return P.rootParam(fn, c.Args[2], d+1)
				}
			}
			if strings.HasPrefix(n, mDense) {
				return P.rootParam(fn, c.Args[0], d+1)
			}
		}
		return false, -1
	}
	return false, -1
}

// resultRoot: where result i of an own function called in fn comes from.
func (P *Prog) resultRoot(fn *ssa.Function, c *ssa.Call, i, d int) (bool, int) {
	f := c.Common().StaticCallee()
	if P.rootBusy == nil {
		P.rootBusy = map[*ssa.Function]bool{}
	}
	if P.rootBusy[f] || f.Blocks == nil {
		return false, -1
	}
	P.rootBusy[f] = true
	defer delete(P.rootBusy, f)
	from := -2
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || i >= len(r.Results) {
			continue
		}
		fr, p := P.rootParam(f, r.Results[i], d+1)
		switch {
		case fr:
		case p < 0 || (from >= 0 && from != p):
			return false, -1
		default:
			from = p
		}
	}
	if from < 0 {
		return true, -1
	}
	return P.rootParam(fn, c.Common().Args[from], d+1)
}

func (P *Prog) storedFresh(fn *ssa.Function, addr ssa.Value, d int) (bool, int) {
	var key string
	var base ssa.Value
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		key, base = fieldName(a.X.Type(), a.Field), a.X
	case *ssa.Alloc:
		base = a
	case *ssa.IndexAddr:
		key, base = "[]", a.X
	default:
		return false, -1
	}
	switch base.(type) {
	case *ssa.Alloc, *ssa.MakeSlice:
	default:
		return false, -1
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}
			match := false
			switch a := st.Addr.(type) {
			case *ssa.FieldAddr:
				match = key == fieldName(a.X.Type(), a.Field) && a.X == base
			case *ssa.Alloc:
				match = a == base && key != "[]"
			case *ssa.IndexAddr:
				match = key == "[]" && a.X == base
			}
			if match {
				if f, p := P.rootParam(fn, st.Val, d+2); !f {
					return false, p
				}
			}
		}
	}
	return true, -1
}

// pureFunc: fn writes nothing it was handed, does no I/O, draws no random numbers.
func (P *Prog) pureFunc(fn *ssa.Function) bool {
	if P.pureMemo == nil {
		P.pureMemo = map[*ssa.Function]int{}
	}
	switch P.pureMemo[fn] {
	case 1:
		return true
	case 2:
		return false
	}
	P.pureMemo[fn] = 1 // optimistic for recursion
	r := len(P.mods(fn)) == 0
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.Go, *ssa.Send, *ssa.Defer, *ssa.Select:
				r = false
			case *ssa.UnOp:
				if ins.Op == token.ARROW {
					r = false
				}
			case *ssa.Call:
				c := ins.Common()
				if _, ok := c.Value.(*ssa.Builtin); ok {
					continue
				}
				f := c.StaticCallee()
				if f == nil {
					if c.IsInvoke() {
						for _, m := range P.implementers(c.Value.Type(), c.Method.Name()) {
							if !P.pureFunc(m) {
								r = false
							}
						}
						continue
					}
					continue
				}
				if P.own(f) {
					if !P.pureFunc(f) {
						r = false
					}
					continue
				}
				n := fname(f)
				if strings.HasPrefix(n, "math/rand") || strings.HasPrefix(n, "os.") || strings.HasPrefix(n, "time.") || strings.HasPrefix(n, "(*bufio") || strings.HasPrefix(n, "(*os") || strings.HasPrefix(n, "(*encoding/csv") {
					r = false
				}
			}
		}
	}
	if r {
		P.pureMemo[fn] = 1
	} else {
		P.pureMemo[fn] = 2
	}
	return r
}

// addrTaken: the module's functions of this signature that are used as values.
func (P *Prog) addrTaken(sig *types.Signature) []*ssa.Function {
	if P.taken == nil {
		P.taken = []*ssa.Function{}
		seen := map[*ssa.Function]bool{}
		for _, f := range P.all {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					var skip ssa.Value
					if c, ok := ins.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
						skip = c.Common().Value
					}
					for _, op := range ins.Operands(nil) {
						if *op == nil || (*op == skip && skip != nil) {
							continue
						}
						if g, ok := (*op).(*ssa.Function); ok && P.own(g) && !seen[g] && !P.isSpec(g) {
							seen[g] = true
							P.taken = append(P.taken, g)
						}
					}
				}
			}
		}
	}
	var out []*ssa.Function
	for _, f := range P.taken {
		if types.Identical(types.NewSignatureType(nil, nil, nil, f.Signature.Params(), f.Signature.Results(), f.Signature.Variadic()), types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())) {
			out = append(out, f)
		}
	}
	return out
}

// implementers: the module's implementations of an interface method.
func (P *Prog) implementers(t types.Type, method string) []*ssa.Function {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	if n, ok := t.(*types.Named); !ok || n.Obj().Pkg() == nil || !P.inMod[n.Obj().Pkg()] {
		return nil
	}
	var out []*ssa.Function
	for _, sp := range P.spkgs {
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, nm := range names {
			tm, ok := sp.Members[nm].(*ssa.Type)
			if !ok {
				continue
			}
			n, ok := tm.Type().(*types.Named)
			if !ok || types.IsInterface(n) || n.TypeParams().Len() > 0 {
				continue
			}
			for _, x := range []types.Type{n, types.NewPointer(n)} {
				if types.Implements(x, it) {
					ms := P.ssa.MethodSets.MethodSet(x)
					for i := 0; i < ms.Len(); i++ {
						if ms.At(i).Obj().Name() == method {
							if f := P.ssa.MethodValue(ms.At(i)); f != nil {
								out = append(out, f)
							}
						}
					}
					break
				}
			}
		}
	}
	return out
}
