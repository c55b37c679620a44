package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed canonical value. Two values the analysis gives the same
// Term are equal in every execution (over the reals, for floats).
//
// Numbers are kept as polynomials over atoms; conditional values as disjoint
// guarded cases; loops are lifted to binders (tab, comp, sum, ex, ...), whose
// bound variable is named by its height so that equal loops give equal terms.
type Term struct {
	id   int
	op   string
	s    string
	args []*Term
	num  *big.Rat // op num
	poly []mono   // op poly
	g    []B      // formulas (op ite: one per arg; ex, first, comp...: last)
	fv   uint64   // which leaves may occur inside (hashed)
	hb   int      // greatest bound-variable height inside
	cond bool     // contains formulas
	sym  bool     // contains loop variables, mu or other open symbols
	node *Node    // for fresh objects and impure results
}

type mono struct {
	c *big.Rat
	f []*Term // factors, sorted by id, repeated for powers
}

var (
	termTab = map[string]*Term{}
	terms   []*Term
	gensymN int
)

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.s)
	for _, a := range t.args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	if t.num != nil {
		sb.WriteByte('#')
		sb.WriteString(t.num.RatString())
	}
	for _, m := range t.poly {
		sb.WriteByte('+')
		sb.WriteString(m.c.RatString())
		for _, f := range m.f {
			sb.WriteByte('*')
			sb.WriteString(strconv.Itoa(f.id))
		}
	}
	for _, b := range t.g {
		sb.WriteByte('?')
		sb.WriteString(strconv.Itoa(int(b)))
	}
	k := sb.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	t.id = len(terms)
	switch t.op {
	case "k", "mu", "fin", "kx", "tmp", "xit", "x":
		t.sym = true
	case "b":
		t.hb, _ = strconv.Atoi(t.s)
	}
	t.fv = t.leafBit()
	for _, a := range t.args {
		t.fv |= a.fv
		t.hb = max(t.hb, a.hb)
		t.sym = t.sym || a.sym
		t.cond = t.cond || a.cond
	}
	for _, m := range t.poly {
		for _, f := range m.f {
			t.fv |= f.fv
			t.hb = max(t.hb, f.hb)
			t.sym = t.sym || f.sym
			t.cond = t.cond || f.cond
		}
	}
	t.cond = t.cond || len(t.g) > 0
	for _, b := range t.g {
		t.fv |= bddFV(b)
		t.hb = max(t.hb, bddHB(b))
		t.sym = t.sym || bddSym(b)
	}
	if isBinder(t.op) {
		h, _ := strconv.Atoi(t.s)
		t.hb = max(t.hb, h)
	}
	termTab[k] = t
	terms = append(terms, t)
	return t
}

// leafBit: the hash bit of a variable (0 for anything else).
func (t *Term) leafBit() uint64 {
	if len(t.args) == 0 && len(t.poly) == 0 && len(t.g) == 0 {
		switch t.op {
		case "k", "tmp", "b", "kk", "x", "kx", "xit":
			return 1 << (uint(t.id) % 64)
		}
	}
	return 0
}

func T(op, s string, args ...*Term) *Term { return intern(&Term{op: op, s: s, args: args}) }

func tmpVar() *Term { gensymN++; return T("tmp", strconv.Itoa(gensymN)) }

var (
	tNil = T("nil", "")
)

// ---------- numbers ----------

func numR(r *big.Rat) *Term   { return intern(&Term{op: "num", num: r}) }
func numI(i int64) *Term      { return numR(big.NewRat(i, 1)) }
func numRat(a, b int64) *Term { return numR(big.NewRat(a, b)) }
func str(s string) *Term      { return T("str", s) }
func (t *Term) isNum() bool   { return t.op == "num" }
func (t *Term) isInt(i int64) bool {
	return t.op == "num" && t.num.Cmp(big.NewRat(i, 1)) == 0
}

func monosOf(t *Term) []mono {
	switch t.op {
	case "num":
		if t.num.Sign() == 0 {
			return nil
		}
		return []mono{{t.num, nil}}
	case "poly":
		return t.poly
	}
	return []mono{{big.NewRat(1, 1), []*Term{t}}}
}

func fkey(f []*Term) string {
	var sb strings.Builder
	for _, x := range f {
		sb.WriteString(strconv.Itoa(x.id))
		sb.WriteByte('*')
	}
	return sb.String()
}

func fromMonos(ms []mono) *Term {
	acc := map[string]*mono{}
	var order []string
	for _, m := range ms {
		k := fkey(m.f)
		if a, ok := acc[k]; ok {
			a.c = new(big.Rat).Add(a.c, m.c)
		} else {
			acc[k] = &mono{m.c, m.f}
			order = append(order, k)
		}
	}
	var out []mono
	for _, k := range order {
		if acc[k].c.Sign() != 0 {
			out = append(out, *acc[k])
		}
	}
	sort.Slice(out, func(i, j int) bool { return lessF(out[i].f, out[j].f) })
	if len(out) == 0 {
		return numI(0)
	}
	if len(out) == 1 {
		if len(out[0].f) == 0 {
			return numR(out[0].c)
		}
		if len(out[0].f) == 1 && out[0].c.Cmp(big.NewRat(1, 1)) == 0 {
			return out[0].f[0]
		}
	}
	return intern(&Term{op: "poly", poly: out})
}

// graded, then lexicographic by id; constants last
func lessF(a, b []*Term) bool {
	if len(a) != len(b) {
		return len(a) > len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i].id < b[i].id
		}
	}
	return false
}

func add(a, b *Term) *Term { return fromMonos(append(append([]mono{}, monosOf(a)...), monosOf(b)...)) }
func scale(a *Term, r *big.Rat) *Term {
	var out []mono
	for _, m := range monosOf(a) {
		out = append(out, mono{new(big.Rat).Mul(m.c, r), m.f})
	}
	return fromMonos(out)
}
func neg(a *Term) *Term    { return scale(a, big.NewRat(-1, 1)) }
func sub(a, b *Term) *Term { return add(a, neg(b)) }
func mul(a, b *Term) *Term {
	var out []mono
	for _, m := range monosOf(a) {
		for _, n := range monosOf(b) {
			f := append(append([]*Term{}, m.f...), n.f...)
			sort.Slice(f, func(i, j int) bool { return f[i].id < f[j].id })
			out = append(out, mono{new(big.Rat).Mul(m.c, n.c), f})
		}
	}
	return fromMonos(out)
}

// inv is the reciprocal of a real.
func inv(a *Term) *Term {
	if a.op == "num" && a.num.Sign() != 0 {
		return numR(new(big.Rat).Inv(a.num))
	}
	if a.op == "inv" {
		return a.args[0]
	}
	ms := monosOf(a)
	if len(ms) == 1 {
		r := numR(new(big.Rat).Inv(ms[0].c))
		for _, f := range ms[0].f {
			if f.op == "inv" {
				r = mul(r, f.args[0])
			} else {
				r = mul(r, T("inv", "", f))
			}
		}
		return r
	}
	if len(ms) > 0 { // leading coefficient 1
		c := ms[0].c
		return scale(T("inv", "", scale(a, new(big.Rat).Inv(c))), new(big.Rat).Inv(c))
	}
	return T("inv", "", a)
}
func fdiv(a, b *Term) *Term { return mul(a, inv(b)) }

// ---------- formulas ----------

// nonneg: the atom can never be negative.
func nonneg(t *Term) bool {
	switch t.op {
	case "len", "k", "b", "cap", "cnt", "rows", "cols", "stride", "kx", "tmp", "first", "cntst":
		return true
	case "num":
		return t.num.Sign() >= 0
	case "poly":
		for _, m := range t.poly {
			if m.c.Sign() < 0 {
				return false
			}
			for _, f := range m.f {
				if !nonneg(f) {
					return false
				}
			}
		}
		return true
	case "max":
		return nonneg(t.args[0]) || nonneg(t.args[1])
	case "sum":
		return nonneg(t.args[1])
	case "ite":
		for _, a := range t.args {
			if !nonneg(a) {
				return false
			}
		}
		return true
	}
	return false
}

// splitIte decides an arithmetic formula case by case when p holds a conditional value.
func splitIte(p *Term, f func(*Term) B) (B, bool) {
	var c *Term
	if p.op == "ite" {
		c = p
	}
	for _, m := range p.poly {
		for _, x := range m.f {
			if x.op == "ite" && c == nil {
				c = x
			}
		}
	}
	if c == nil || len(c.args) > 8 {
		return BFalse, false
	}
	r := BFalse
	for i := range c.args {
		q := c.args[i]
		if p != c {
			q = numI(0)
			for _, m := range p.poly {
				x := numR(m.c)
				for _, y := range m.f {
					if y == c {
						y = c.args[i]
					}
					x = mul(x, y)
				}
				q = add(q, x)
			}
		}
		r = bor(r, band(c.g[i], f(q)))
	}
	return r, true
}

// le0 is the integer formula p <= 0.
func le0(p *Term) B {
	if b, ok := splitIte(p, le0); ok {
		return b
	}
	if p.op == "num" {
		return bconst(p.num.Sign() <= 0)
	}
	if nonneg(neg(p)) {
		return BTrue
	}
	if nonneg(sub(p, numI(1))) {
		return BFalse
	}
	// canonical polarity: leading coefficient positive; not(p<=0) == 1-p<=0
	ms := monosOf(p)
	if ms[0].c.Sign() < 0 {
		return bnot(batom(T("le0", "", sub(numI(1), p))))
	}
	return batom(T("le0", "", p))
}
func eq0(p *Term) B {
	if b, ok := splitIte(p, eq0); ok {
		return b
	}
	if p.op == "num" {
		return bconst(p.num.Sign() == 0)
	}
	ms := monosOf(p)
	if ms[0].c.Sign() < 0 {
		p = neg(p)
	}
	if nonneg(p) {
		if nonneg(sub(p, numI(1))) {
			return BFalse
		}
		return le0(p)
	}
	if d := neg(p); nonneg(sub(d, numI(1))) {
		return BFalse
	}
	return batom(T("eq0", "", p))
}

// ilt: a < b on integers
func ilt(a, b *Term) B { return le0(add(sub(a, b), numI(1))) }
func ile(a, b *Term) B { return le0(sub(a, b)) }

// float comparisons keep NaN apart: not(a<b) is not b<=a.
func flt(a, b *Term) B { return fcmp("flt", sub(a, b)) }
func fle(a, b *Term) B { return fcmp("fle", sub(a, b)) }

// ordered: the property says nothing about NaN, so they are the same.
var ordered bool

func fcmp(op string, p *Term) B {
	if ordered && op == "fle" {
		return bnot(fcmp("flt", neg(p)))
	}
	if b, ok := splitIte(p, func(q *Term) B { return fcmp(op, q) }); ok {
		return b
	}
	if p.op == "num" {
		if op == "flt" {
			return bconst(p.num.Sign() < 0)
		}
		return bconst(p.num.Sign() <= 0)
	}
	ms := monosOf(p)
	c := new(big.Rat).Abs(ms[0].c)
	if c.Sign() != 0 {
		p = scale(p, new(big.Rat).Inv(c))
	}
	return batom(T(op, "", p))
}
func feq(a, b *Term) B {
	return feq0(sub(a, b))
}
func feq0(p *Term) B {
	if b, ok := splitIte(p, feq0); ok {
		return b
	}
	if p.op == "num" {
		return bconst(p.num.Sign() == 0)
	}
	ms := monosOf(p)
	inf, rest := 0, 0
	for _, m := range ms {
		switch {
		case len(m.f) == 1 && m.f[0].op == "pinf":
			inf++
		case len(m.f) > 0:
			rest++
		}
	}
	if inf == 1 && rest == 0 { // infinity and a number
		return BFalse
	}
	p = scale(p, new(big.Rat).Inv(ms[0].c))
	return batom(T("feq", "", p))
}

// eqv is equality of two non-numeric values.
func eqv(a, b *Term) B {
	if a == b {
		return BTrue
	}
	if a.op == "nil" {
		a, b = b, a
	}
	if b.op == "nil" {
		return isnil(a)
	}
	if a.op == "str" && b.op == "str" {
		return BFalse
	}
	if a.op == "ite" {
		r := BFalse
		for i, x := range a.args {
			r = bor(r, band(a.g[i], eqv(x, b)))
		}
		return r
	}
	if b.op == "ite" {
		return eqv(b, a)
	}
	if isFresh(a) && isFresh(b) && a.node != b.node {
		return BFalse
	}
	if isEOF(b) || (b.op == "str" && b.s == "EOF") {
		a, b = b, a
	}
	if a.op == "str" && a.s == "EOF" && b.op == "call" && b.s == "(error).Error" {
		a, b = eofV, b.args[0] // the only error that reads so
	}
	if isEOF(a) {
		if b.op == "errv" || isEOF(b) {
			return bconst(isEOF(b))
		}
		x, y := a, b
		if x.id > y.id {
			x, y = y, x
		}
		return band(bnot(isnil(b)), batom(T("eq", "", x, y)))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return batom(T("eq", "", a, b))
}

var eofV = T("gval", "io.EOF")

func isEOF(t *Term) bool { return t == eofV }

func isFresh(t *Term) bool {
	return t.op == "new" || t.op == "clo" || t.op == "mkmap" || t.op == "mkchan"
}

func isnil(a *Term) B {
	switch a.op {
	case "nil":
		return BTrue
	case "new", "clo", "lit", "faddr", "eaddr", "fn", "mkmap", "mkchan", "glob", "errv":
		return BFalse
	case "append":
		for _, x := range a.args {
			if x.op == "lit" && len(x.args) > 0 {
				return BFalse
			}
		}
		return batom(T("isnil", "", a))
	case "comp", "tab":
		// a list built from a non-nil base is not nil; from nil it is nil exactly when empty
		return batom(T("isnil", "", a))
	case "ite":
		r := BFalse
		for i, x := range a.args {
			r = bor(r, band(a.g[i], isnil(x)))
		}
		return r
	case "slice":
		return isnil(a.args[0])
	case "gval":
		if isEOF(a) {
			return BFalse
		}
	case "call":
		if a.s == "errors.Join" && len(a.args) == 1 && a.args[0].op == "lit" {
			r := BTrue
			for _, x := range a.args[0].args {
				r = band(r, isnil(x))
			}
			return r
		}
	}
	return batom(T("isnil", "", a))
}

func toB(t *Term) B {
	if t.op == "bool" {
		return t.g[0]
	}
	if t.op == "ite" {
		r := BFalse
		for i, x := range t.args {
			r = bor(r, band(t.g[i], toB(x)))
		}
		return r
	}
	return batom(t)
}
func fromB(b B) *Term {
	if b > BTrue {
		n := bddNodes[b]
		if n.lo == BFalse && n.hi == BTrue {
			return bddVars[n.v]
		}
	}
	return intern(&Term{op: "bool", g: []B{b}})
}

// ---------- conditional values ----------

// ite builds a value from disjoint guarded cases that cover everything.
func ite(gs []B, vs []*Term) *Term {
	var og []B
	var ov []*Term
	var addCase func(g B, v *Term)
	addCase = func(g B, v *Term) {
		if g == BFalse {
			return
		}
		if v.op == "ite" {
			for i := range v.args {
				addCase(band(g, v.g[i]), v.args[i])
			}
			return
		}
		for i := range ov {
			if ov[i] == v {
				og[i] = bor(og[i], g)
				return
			}
		}
		og, ov = append(og, g), append(ov, v)
	}
	anyBool := false
	for i := range vs {
		anyBool = anyBool || (gs[i] != BFalse && isBoolTerm(vs[i]))
	}
	if anyBool { // the cases of a value are all of one type
		r := BFalse
		for i := range vs {
			r = bor(r, band(gs[i], toB(vs[i])))
		}
		return fromB(r)
	}
	for i := range vs {
		addCase(gs[i], vs[i])
	}
	if len(ov) == 0 {
		return T("undef", "")
	}
	if len(ov) == 1 {
		return ov[0]
	}
	if len(ov) == 2 {
		if t := minmax(og, ov); t != nil {
			return t
		}
	}
	ix := make([]int, len(ov))
	for i := range ix {
		ix[i] = i
	}
	sort.Slice(ix, func(a, b int) bool { return ov[ix[a]].id < ov[ix[b]].id })
	g2 := make([]B, len(ix))
	v2 := make([]*Term, len(ix))
	for i, j := range ix {
		g2[i], v2[i] = og[j], ov[j]
	}
	return intern(&Term{op: "ite", args: v2, g: g2})
}

func isBoolTerm(t *Term) bool {
	switch t.op {
	case "bool", "le0", "eq0", "flt", "fle", "feq", "eq", "isnil", "ex":
		return true
	}
	return false
}

// minmax recognises integer clamps: ite(a<=b: b, a) is max(a,b).
func minmax(g []B, v []*Term) *Term {
	a, b := v[0], v[1]
	switch g[0] {
	case ilt(a, b), ile(a, b):
		return mkmin(a, b)
	case ilt(b, a), ile(b, a):
		return mkmax(a, b)
	}
	for i, c := range v {
		x := v[1-i]
		if c.op != "num" || x.op == "num" {
			continue
		}
		switch g[i] { // a NaN keeps to the other branch
		case flt(x, c), fle(x, c):
			return fmm("fmax", c, x)
		case flt(c, x), fle(c, x):
			return fmm("fmin", c, x)
		}
	}
	return nil
}
func mkmin(a, b *Term) *Term { return mm("min", a, b) }
func mkmax(a, b *Term) *Term { return mm("max", a, b) }
func mm(op string, a, b *Term) *Term {
	if a == b {
		return a
	}
	if d := sub(a, b); d.op == "num" {
		if (d.num.Sign() > 0) == (op == "max") {
			return a
		}
		return b
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T(op, "", a, b)
}

// ---------- binders ----------

// binder layouts (v bound in bodies and formulas, not in the domain args[0]):
//
//	tab(N; e)       list of e(v), v<N
//	comp(N; e|g)    list of e(v), v<N, where g(v)
//	cat(N; s|g)     concatenation of the lists s(v), v<N, where g(v)
//	sum(N; e)       sum of e(v), v<N
//	ex(N; |g)       some v<N has g(v)
//	first(N; |g)    the first v<N with g(v)
//	cnt(|g)         number of leading v with g(v)
func isBinder(op string) bool {
	switch op {
	case "tab", "comp", "cat", "sum", "ex", "first", "cnt", "fx", "fold":
		return true
	}
	return false
}

// facts: formulas known to hold, and polynomials known to be <= 0.
type facts struct {
	m  map[*Term]*Term
	le []*Term
}

func factsOf(c B) *facts {
	F := &facts{m: map[*Term]*Term{}}
	walkAtoms(c, func(a *Term) {
		x := batom(a)
		if x <= BTrue {
			return
		}
		if band(c, bnot(x)) == BFalse {
			F.know(a, true)
		} else if band(c, x) == BFalse {
			F.know(a, false)
		}
	})
	return F
}

func (F *facts) know(a *Term, v bool) {
	F.m[a] = fromB(bconst(v))
	switch {
	case a.op == "le0" && v:
		F.le = append(F.le, a.args[0])
	case a.op == "le0":
		F.le = append(F.le, sub(numI(1), a.args[0]))
	case a.op == "eq0" && v:
		F.le = append(F.le, a.args[0], neg(a.args[0]))
	}
}

// atom decides an integer comparison from the facts (nil: not decided).
func (F *facts) atom(x *Term) *Term {
	if x.op != "le0" && x.op != "eq0" {
		return nil
	}
	p := x.args[0]
	for _, q := range F.le {
		// q <= 0
		if x.op == "le0" && nonneg(sub(q, p)) {
			return fromB(BTrue)
		}
		if nonneg(sub(add(p, q), numI(1))) {
			return fromB(BFalse)
		}
		if x.op == "eq0" && nonneg(sub(sub(q, p), numI(1))) {
			return fromB(BFalse)
		}
	}
	return nil
}

func (F *facts) subst() *subst {
	S := newSubst(F.m)
	S.pre = func(x *Term) *Term {
		if x.op == "le0" || x.op == "eq0" {
			return F.atom(x)
		}
		if !x.cond && !isBoolTerm(x) {
			return x
		}
		return nil
	}
	return S
}

// past: the scan over v stops when g(v) holds, but g(v) means a bound on v has been
// passed beyond which no iteration changes anything: the same as scanning to the end
// with a body that does nothing once g holds.
func past(v *Term, g B, body *Term) *Term {
	body = ite([]B{g, bnot(g)}, []*Term{T("rec", "1"), body})
	var at []*Term
	walkAtoms(g, func(a *Term) { at = append(at, a) })
	for _, a := range at {
		if a.op != "le0" {
			continue
		}
		c, _ := linear(a.args[0], v)
		if c == nil || !c.isNum() {
			continue
		}
		x := batom(a)
		if c.num.Sign() > 0 {
			x = bnot(x)
		}
		if band(g, bnot(x)) != BFalse {
			continue
		}
		if b := constrainT(body, x); b.op == "rec" && b.s == "1" {
			return body
		}
	}
	return nil
}

func bind(op string, v *Term, dom *Term, bodies []*Term, gs []B) *Term {
	// inside, 0 <= v < dom
	cond := len(gs) > 0
	for _, b := range bodies {
		cond = cond || b.cond || isBoolTerm(b)
	}
	if cond && op != "fx" && dom.op != "ite" && dom.op != "nil" {
		F := &facts{m: map[*Term]*Term{}, le: []*Term{add(sub(v, dom), numI(1))}}
		S := F.subst()
		b2 := make([]*Term, len(bodies))
		for i, b := range bodies {
			b2[i] = b
			if !(op == "fold" && i == 0) {
				b2[i] = S.t(b)
			}
		}
		g2 := make([]B, len(gs))
		for i, g := range gs {
			g2[i] = S.b(g)
		}
		bodies, gs = b2, g2
	}
	h := 0
	for _, b := range bodies {
		h = max(h, b.hb)
	}
	for _, g := range gs {
		h = max(h, bddHB(g))
	}
	h++
	bv := T("b", strconv.Itoa(h))
	m := map[*Term]*Term{v: bv}
	S := newSubst(m)
	args := []*Term{dom}
	for _, b := range bodies {
		args = append(args, S.t(b))
	}
	var g2 []B
	for _, g := range gs {
		g2 = append(g2, S.b(g))
	}
	return intern(&Term{op: op, s: strconv.Itoa(h), args: args, g: g2})
}

// open gives the parts of a binder with its variable replaced by v.
func (t *Term) open(v *Term) (dom *Term, bodies []*Term, gs []B) {
	bv := T("b", t.s)
	S := newSubst(map[*Term]*Term{bv: v})
	for _, b := range t.args[1:] {
		bodies = append(bodies, S.t(b))
	}
	for _, g := range t.g {
		gs = append(gs, S.b(g))
	}
	return t.args[0], bodies, gs
}

func mkTab(v, n, e *Term) *Term {
	if n.op == "num" && n.num.IsInt() && n.num.Cmp(big.NewRat(6, 1)) <= 0 {
		as := []*Term{}
		for i := int64(0); i < n.num.Num().Int64(); i++ {
			as = append(as, substT(e, map[*Term]*Term{v: numI(i)}))
		}
		return T("lit", "", as...)
	}
	if C, body, z := fused(v, n, e); C != nil {
		u := tmpVar()
		d, b, g := C.open(u)
		return mkComp(u, d, substT(body, map[*Term]*Term{z: b[0]}), g[0])
	}
	return bind("tab", v, n, []*Term{e}, nil)
}
func mkComp(v, n, e *Term, g B) *Term {
	if g == BTrue {
		return mkTab(v, n, e)
	}
	if g == BFalse {
		return T("lit", "")
	}
	if C, body, z := fused(v, n, T("pair", "", e, fromB(g))); C != nil {
		u := tmpVar()
		d, b, cg := C.open(u)
		body = substT(body, map[*Term]*Term{z: b[0]})
		return mkComp(u, d, body.args[0], band(cg[0], toB(body.args[1])))
	}
	return bind("comp", v, n, []*Term{constrainT(e, g)}, []B{g})
}

// fused: a walk over the positions v of a filtered list C that looks at nothing but
// C[v] is a walk over what C was filtered from; gives C and the body in terms of C[v].
func fused(v, n, e *Term) (C, body, z *Term) {
	if n.op != "sum" {
		return nil, nil, nil
	}
	var at *Term
	e.walk(func(x *Term) bool {
		if x.op == "idx" && x.args[1] == v && x.args[0].op == "comp" && mkLen(x.args[0]) == n {
			at = x
			return false
		}
		return true
	})
	if at == nil {
		return nil, nil, nil
	}
	z = tmpVar()
	body = substT(e, map[*Term]*Term{at: z})
	if mentions(body, v) {
		return nil, nil, nil
	}
	return at.args[0], body, z
}

func mkSum(v, n, e *Term) *Term {
	if C, body, z := fused(v, n, e); C != nil {
		u := tmpVar()
		d, b, g := C.open(u)
		return mkSum(u, d, ite([]B{g[0], bnot(g[0])}, []*Term{substT(body, map[*Term]*Term{z: b[0]}), numI(0)}))
	}
	// sum of a polynomial: term by term, invariant factors outside
	if n.isInt(0) {
		return numI(0)
	}
	r := numI(0)
	for _, m := range monosOf(e) {
		out := numR(m.c)
		in := numI(1)
		dep := false
		for _, f := range m.f {
			if mentions(f, v) {
				in = mul(in, f)
				dep = true
			} else {
				out = mul(out, f)
			}
		}
		if !dep {
			r = add(r, mul(out, n))
			continue
		}
		if in.op == "ite" { // sum(ite(g: c*e)) keeps guards; pull a common constant factor
			r = add(r, mul(out, bind("sum", v, n, []*Term{in}, nil)))
			continue
		}
		r = add(r, mul(out, bind("sum", v, n, []*Term{in}, nil)))
	}
	return r
}
func mkEx(v, n *Term, g B) B {
	if g == BFalse || n.isInt(0) || (assumed != nil && le0(n) == BTrue) {
		return BFalse
	}
	if C, body, z := fused(v, n, fromB(g)); C != nil {
		u := tmpVar()
		d, b, cg := C.open(u)
		return mkEx(u, d, band(cg[0], toB(substT(body, map[*Term]*Term{z: b[0]}))))
	}
	return batom(bind("ex", v, n, nil, []B{g}))
}
func mkFirst(v, n *Term, g B) *Term { return bind("first", v, n, nil, []B{g}) }

// mentions reports whether x occurs in t.
func mentions(t, x *Term) bool {
	seen := map[int]bool{}
	seenB := map[B]bool{}
	var ft func(*Term) bool
	var fb func(B) bool
	fb = func(b B) bool {
		if b <= BTrue || seenB[b] {
			return false
		}
		seenB[b] = true
		n := bddNodes[b]
		return ft(bddVars[n.v]) || fb(n.lo) || fb(n.hi)
	}
	ft = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		for _, a := range t.args {
			if ft(a) {
				return true
			}
		}
		for _, m := range t.poly {
			for _, f := range m.f {
				if ft(f) {
					return true
				}
			}
		}
		for _, b := range t.g {
			if fb(b) {
				return true
			}
		}
		return false
	}
	return ft(t)
}

func mentionsB(b B, x *Term) bool {
	return mentions(intern(&Term{op: "bool", g: []B{b}}), x)
}

// any reports whether some subterm satisfies p.
func (t *Term) any(p func(*Term) bool) bool {
	found := false
	t.walk(func(x *Term) bool {
		if p(x) {
			found = true
		}
		return !found
	})
	return found
}

// walk visits every distinct subterm (formulas included) until f returns false.
func (t *Term) walk(f func(*Term) bool) {
	seen := map[int]bool{}
	seenB := map[B]bool{}
	stop := false
	var ft func(*Term)
	var fb func(B)
	fb = func(b B) {
		if stop || b <= BTrue || seenB[b] {
			return
		}
		seenB[b] = true
		n := bddNodes[b]
		ft(bddVars[n.v])
		fb(n.lo)
		fb(n.hi)
	}
	ft = func(t *Term) {
		if stop || seen[t.id] {
			return
		}
		seen[t.id] = true
		if !f(t) {
			stop = true
			return
		}
		for _, a := range t.args {
			ft(a)
		}
		for _, m := range t.poly {
			for _, x := range m.f {
				ft(x)
			}
		}
		for _, b := range t.g {
			fb(b)
		}
	}
	ft(t)
}

func walkB(b B, f func(*Term) bool) { intern(&Term{op: "bool", g: []B{b}}).walk(f) }

// ---------- substitution ----------

type subst struct {
	m    map[*Term]*Term
	post func(*Term) *Term
	pre  func(*Term) *Term // decides a term as a whole (nil: go on)
	mt   map[*Term]*Term
	mb   map[B]B
	mask uint64 // leaves replaced (all ones: anything may be)
	ren  bool   // only exchanges variables
}

func newSubst(m map[*Term]*Term) *subst {
	S := &subst{m: m, mt: map[*Term]*Term{}, mb: map[B]B{}, ren: true}
	for k, v := range m {
		b := k.leafBit()
		if b == 0 {
			b = ^uint64(0)
		}
		S.mask |= b
		S.ren = S.ren && b != ^uint64(0) && v.leafBit() != 0
	}
	return S
}

func substT(t *Term, m map[*Term]*Term) *Term { return newSubst(m).t(t) }

func (S *subst) t(t *Term) *Term {
	if r, ok := S.m[t]; ok {
		return r
	}
	if t.op == "num" || t.op == "str" || t.op == "nil" {
		return t
	}
	if t.fv&S.mask == 0 && S.pre == nil && S.post == nil {
		return t
	}
	if r, ok := S.mt[t]; ok {
		return r
	}
	if S.pre != nil {
		if r := S.pre(t); r != nil {
			S.mt[t] = r
			return r
		}
	}
	r := S.t1(t)
	if S.post != nil {
		r = S.post(r)
	}
	S.mt[t] = r
	return r
}

// steps counts rewriting steps; a comparison that goes beyond stepLimit (0: none) is given up.
var steps, stepLimit int

func (S *subst) t1(t *Term) *Term {
	if steps++; stepLimit > 0 && steps > stepLimit {
		panic("the values grow too large to compare")
	}
	if isBinder(t.op) && S.ren && S.pre == nil && S.post == nil {
		ch := false
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = S.t(a)
			ch = ch || args[i] != a
		}
		gs := make([]B, len(t.g))
		for i, g := range t.g {
			gs[i] = S.b(g)
			ch = ch || gs[i] != g
		}
		if !ch {
			return t
		}
		n := *t
		n.args, n.g, n.hb, n.sym = args, gs, 0, false
		return intern(&n)
	}
	if isBinder(t.op) {
		v := tmpVar()
		// rename the bound variable, then substitute in the parts
		dom, bodies, gs := t.open(v)
		var dom2 *Term = S.t(dom)
		b2 := make([]*Term, len(bodies))
		ch := dom2 != dom
		for i := range bodies {
			b2[i] = S.t(bodies[i])
			ch = ch || b2[i] != bodies[i]
		}
		g2 := make([]B, len(gs))
		for i := range gs {
			g2[i] = S.b(gs[i])
			ch = ch || g2[i] != gs[i]
		}
		if !ch {
			return t
		}
		return rebind(t.op, v, dom2, b2, g2)
	}
	ch := false
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = S.t(a)
		ch = ch || args[i] != a
	}
	if t.op == "poly" {
		r := numI(0)
		for _, m := range t.poly {
			x := numR(m.c)
			for _, f := range m.f {
				f2 := S.t(f)
				ch = ch || f2 != f
				x = mul(x, f2)
			}
			r = add(r, x)
		}
		if !ch {
			return t
		}
		return r
	}
	gs := make([]B, len(t.g))
	for i, g := range t.g {
		gs[i] = S.b(g)
		ch = ch || gs[i] != g
	}
	if !ch {
		return t
	}
	return rebuild(t, args, gs)
}

func (S *subst) b(b B) B {
	if b <= BTrue {
		return b
	}
	if r, ok := S.mb[b]; ok {
		return r
	}
	n := bddNodes[b]
	a := bddVars[n.v]
	var fa B
	if r := S.t(a); r == a {
		fa = batom(a)
	} else {
		fa = toB(r)
	}
	r := bite(fa, S.b(n.hi), S.b(n.lo))
	S.mb[b] = r
	return r
}

func rebind(op string, v, dom *Term, b []*Term, g []B) *Term {
	switch op {
	case "tab":
		return mkTab(v, dom, b[0])
	case "comp":
		return mkComp(v, dom, b[0], g[0])
	case "sum":
		return mkSum(v, dom, b[0])
	case "ex":
		return fromB(mkEx(v, dom, g[0]))
	}
	return bind(op, v, dom, b, g)
}

// rebuild makes t's operator over new operands, simplifying.
func rebuild(t *Term, a []*Term, g []B) *Term {
	switch t.op {
	case "inv":
		return inv(a[0])
	case "le0":
		return fromB(le0(a[0]))
	case "eq0":
		return fromB(eq0(a[0]))
	case "flt", "fle":
		return fromB(fcmp(t.op, a[0]))
	case "feq":
		return fromB(feq(a[0], numI(0)))
	case "eq":
		return fromB(eqv(a[0], a[1]))
	case "isnil":
		return fromB(isnil(a[0]))
	case "bool":
		return fromB(g[0])
	case "ite":
		return ite(g, a)
	case "min", "max":
		return mm(t.op, a[0], a[1])
	case "len":
		return mkLen(a[0])
	case "idx":
		return mkIdx(a[0], a[1])
	case "slice":
		return mkSlice(a[0], a[1], a[2])
	case "append":
		return mkAppend(a[0], a[1])
	case "idiv":
		return mkIdiv(a[0], a[1])
	case "rows", "cols":
		if a[0].op == "matrix" {
			if t.op == "rows" {
				return a[0].args[0]
			}
			return a[0].args[1]
		}
		return mkDim(t.op, a[0])
	}
	n := *t
	n.args, n.g = a, g
	n.hb, n.sym = 0, false
	return intern(&n)
}

// ---------- lists ----------

func mkLen(x *Term) *Term {
	switch x.op {
	case "nil":
		return numI(0)
	case "lit":
		return numI(int64(len(x.args)))
	case "tab":
		return x.args[0]
	case "append":
		return add(mkLen(x.args[0]), mkLen(x.args[1]))
	case "slice":
		if x.args[2].op != "nil" {
			return sub(x.args[2], x.args[1])
		}
		return sub(mkLen(x.args[0]), x.args[1])
	case "str":
		return numI(int64(len(x.s)))
	case "ite":
		vs := make([]*Term, len(x.args))
		for i, a := range x.args {
			vs[i] = mkLen(a)
		}
		return ite(x.g, vs)
	case "comp":
		v := tmpVar()
		n, _, gs := x.open(v)
		return mkSum(v, n, ite([]B{gs[0], bnot(gs[0])}, []*Term{numI(1), numI(0)}))
	case "new":
		if x.s == "slice" {
			return x.args[0]
		}
	}
	return T("len", "", x)
}

func mkIdx(x, i *Term) *Term {
	switch x.op {
	case "lit":
		if i.op == "num" && i.num.IsInt() {
			n := i.num.Num().Int64()
			if n >= 0 && n < int64(len(x.args)) {
				return x.args[n]
			}
		}
		if len(x.args) == 1 { // the only valid index
			return x.args[0]
		}
	case "tab":
		_, b, _ := x.open(i)
		return b[0]
	case "slice":
		return mkIdx(x.args[0], add(x.args[1], i))
	case "append":
		l := mkLen(x.args[0])
		if d := sub(i, l); d.op == "num" && d.num.Sign() >= 0 {
			return mkIdx(x.args[1], d)
		}
		if d := sub(sub(l, numI(1)), i); nonneg(d) {
			return mkIdx(x.args[0], i)
		}
	case "ite":
		vs := make([]*Term, len(x.args))
		for j, a := range x.args {
			vs[j] = mkIdx(a, i)
		}
		return ite(x.g, vs)
	}
	return T("idx", "", x, i)
}

func mkSlice(x, lo, hi *Term) *Term {
	if lo.isInt(0) && (hi.op == "nil" || hi == mkLen(x)) {
		return x
	}
	if hi.isInt(0) {
		return T("lit", "")
	}
	if x.op == "slice" {
		nhi := x.args[2]
		if hi.op != "nil" {
			nhi = add(x.args[1], hi)
		}
		return mkSlice(x.args[0], add(x.args[1], lo), nhi)
	}
	if hi == mkLen(x) {
		hi = tNil
	}
	if x.op == "append" && x.args[0].op == "lit" && hi.op == "nil" && lo.op == "num" {
		n := int(lo.num.Num().Int64())
		if n >= 0 && n <= len(x.args[0].args) {
			return mkAppend(T("lit", "", x.args[0].args[n:]...), x.args[1])
		}
	}
	if x.op == "lit" && lo.op == "num" && (hi.op == "nil" || hi.op == "num") {
		l, h := int(lo.num.Num().Int64()), len(x.args)
		if hi.op == "num" {
			h = int(hi.num.Num().Int64())
		}
		if 0 <= l && l <= h && h <= len(x.args) {
			return T("lit", "", x.args[l:h]...)
		}
	}
	return T("slice", "", x, lo, hi)
}

// emptyList: a list known to have no elements (its contents are what counts).
func emptyList(x *Term) bool {
	return x.op == "nil" || (x.op == "lit" && len(x.args) == 0) || (x.op == "new" && x.s == "slice" && x.args[0].isInt(0)) ||
		(x.op == "slice" && sub(x.args[1], x.args[2]).isInt(0) && x.args[2].op != "nil")
}

// mkAppend is the contents of append(x, y...).
func mkAppend(x, y *Term) *Term {
	if emptyList(y) {
		return x
	}
	if emptyList(x) || (x.op == "param" && le0(mkLen(x)) == BTrue) {
		return y
	}
	if x.op == "lit" && y.op == "lit" {
		return T("lit", "", append(append([]*Term{}, x.args...), y.args...)...)
	}
	if x.op == "append" && x.args[1].op == "lit" && y.op == "lit" {
		return T("append", "", x.args[0], mkAppend(x.args[1], y))
	}
	if y.op == "append" {
		return mkAppend(mkAppend(x, y.args[0]), y.args[1])
	}
	return T("append", "", x, y)
}

func mkIdiv(a, b *Term) *Term {
	if a.op == "num" && b.op == "num" && b.num.Sign() != 0 && a.num.IsInt() && b.num.IsInt() {
		return numR(new(big.Rat).SetInt(new(big.Int).Quo(a.num.Num(), b.num.Num())))
	}
	if b.isInt(1) {
		return a
	}
	return T("idiv", "", a, b)
}

// ---------- printing ----------

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 14 {
		return "…"
	}
	l := func(as []*Term) string {
		var o []string
		for _, a := range as {
			o = append(o, a.str(d+1))
		}
		return strings.Join(o, ", ")
	}
	switch t.op {
	case "num":
		return t.num.RatString()
	case "str":
		return strconv.Quote(t.s)
	case "nil":
		return "nil"
	case "b":
		return "b" + t.s
	case "k":
		return "k" + t.s
	case "poly":
		var o []string
		for _, m := range t.poly {
			var fs []string
			if m.c.Cmp(big.NewRat(1, 1)) != 0 || len(m.f) == 0 {
				fs = append(fs, m.c.RatString())
			}
			for _, f := range m.f {
				fs = append(fs, f.str(d+1))
			}
			o = append(o, strings.Join(fs, "*"))
		}
		return "(" + strings.Join(o, " + ") + ")"
	case "param":
		return t.s
	case "fld":
		return t.args[0].str(d+1) + "." + t.s
	case "faddr":
		return "&" + t.args[0].str(d+1) + "." + t.s
	case "idx":
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	case "eaddr":
		return "&" + t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	case "le0":
		return t.args[0].str(d+1) + "<=0"
	case "eq0":
		return t.args[0].str(d+1) + "==0"
	case "flt":
		return t.args[0].str(d+1) + "<.0"
	case "fle":
		return t.args[0].str(d+1) + "<=.0"
	case "feq":
		return t.args[0].str(d+1) + "==.0"
	case "eq":
		return t.args[0].str(d+1) + "==" + t.args[1].str(d+1)
	case "bool":
		return "{" + bstr(t.g[0], d+1) + "}"
	case "ite":
		var o []string
		for i, a := range t.args {
			o = append(o, bstr(t.g[i], d+1)+" ? "+a.str(d+1))
		}
		return "ite(" + strings.Join(o, " ; ") + ")"
	}
	if isBinder(t.op) {
		s := t.op + "(b" + t.s + "<" + t.args[0].str(d+1) + ": " + l(t.args[1:])
		for _, g := range t.g {
			s += " | " + bstr(g, d+1)
		}
		return s + ")"
	}
	s := t.op
	if t.s != "" {
		s += ":" + t.s
	}
	if len(t.args) > 0 {
		s += "(" + l(t.args) + ")"
	}
	return s
}

func bstr(b B, d int) string {
	if b == BTrue {
		return "T"
	}
	if b == BFalse {
		return "F"
	}
	// sum of cubes
	var cubes []string
	var rec func(b B, lits []string)
	rec = func(b B, lits []string) {
		if len(cubes) > 12 {
			return
		}
		if b == BFalse {
			return
		}
		if b == BTrue {
			cubes = append(cubes, strings.Join(lits, " & "))
			return
		}
		n := bddNodes[b]
		a := bddVars[n.v].str(d + 1)
		rec(n.hi, append(append([]string{}, lits...), a))
		rec(n.lo, append(append([]string{}, lits...), "!"+a))
	}
	rec(b, nil)
	return "[" + strings.Join(cubes, " || ") + "]"
}

var _ = fmt.Sprint
