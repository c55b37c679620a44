package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Equiv compares a function of the program with a reference formulation of what
// the property says about it, by canonical value: equal results and, where asked,
// equal contents of everything reachable from the parameters afterwards.
type Equiv struct {
	fn, spec string
	opaque   []string
	noRes    bool
	given    map[*Term]bool // decided beforehand
	axioms   map[*Term]*Term
	noEff    bool            // do not compare effects on parameters
	results  []int           // which results to compare (nil: all)
	cond     bool            // compare the condition for returning normally
	only     func(cell) bool // which effects
	depth    int
	split    []*Term             // conditions to decide the cases of separately
	alt      []string            // other formulations that are as good
	keep     map[string][]string // struct type -> the fields that matter here (nil: all)
}

func (P *Prog) opaqueSet(names []string) func(*ssa.Function) bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return func(f *ssa.Function) bool { return m[fname(f)] }
}

func (C *Ctx) Equiv(e Equiv) {
	C.run(e.fn, func() {
		axioms = e.axioms
		defer func() { axioms = nil }()
		n := len(C.fails)
		C.equiv(e)
		first := C.fails[n:]
		for _, a := range e.alt {
			if len(C.fails) == n {
				return
			}
			C.fails = append([]Fail{}, C.fails[:n]...)
			e2 := e
			e2.spec, e2.alt = a, nil
			C.equiv(e2)
		}
		if len(e.alt) > 0 && len(C.fails) > n {
			C.fails = append(append([]Fail{}, C.fails[:n]...), first...)
		}
	})
}

func (C *Ctx) equiv(e Equiv) {
	P := C.P
	f := P.Func(e.fn)
	s := P.Func(e.spec)
	if f == nil {
		C.fail("anchor", e.fn, "the function %s is gone: the property cannot be established", e.fn)
		return
	}
	if s == nil {
		C.fail("anchor", e.fn, "the reference for %s does not fit the declarations any more: %s", e.fn, P.specErr)
		return
	}
	assumed = nil
	ats := C.splits(C.graph(f, e.opaque, nil))
	for _, a := range C.splits(C.graph(s, e.opaque, nil)) {
		if !hasT(ats, a) {
			ats = append(ats, a)
		}
	}
	for _, a := range e.split {
		if !hasT(ats, a) {
			ats = append(ats, a)
		}
	}
	rank := func(a *Term) int {
		switch a.op {
		case "isnil":
			return 0
		case "fld":
			return 1
		}
		return 2
	}
	if e.given != nil {
		var l []*Term
		for _, a := range ats {
			if _, ok := e.given[a]; !ok {
				l = append(l, a)
			}
		}
		ats = l
	}
	sort.SliceStable(ats, func(i, j int) bool { return rank(ats[i]) < rank(ats[j]) })
	if len(ats) > 6 {
		ats = ats[:6]
	}
	n := len(C.fails)
	for m := 0; m < 1<<len(ats); m++ {
		var as map[*Term]bool
		if len(ats) > 0 || e.given != nil {
			as = map[*Term]bool{}
			for a, v := range e.given {
				as[a] = v
			}
			for i, a := range ats {
				as[a] = m>>i&1 == 1
			}
			if !possible(as) {
				continue
			}
		}
		C.equivCase(e, f, s, as)
		if len(C.fails) > n {
			var w []string
			for i, a := range ats {
				if m>>i&1 == 1 {
					w = append(w, a.String())
				} else {
					w = append(w, "!"+a.String())
				}
			}
			if len(w) > 0 {
				for i := n; i < len(C.fails); i++ {
					C.fails[i].Detail += "\n    (case " + strings.Join(w, ", ") + ")"
				}
			}
			break
		}
	}
	assumed = nil
}

func (g *Graph) returns() bool {
	return len(g.retsOf[g.rootFrame()]) > 0 && g.guard(g.exit) != BFalse
}

func hasT(l []*Term, t *Term) bool {
	for _, x := range l {
		if x == t {
			return true
		}
	}
	return false
}

// splits finds the conditions on what the caller passed that are decided separately.
func (C *Ctx) splits(g *Graph) []*Term {
	var out []*Term
	for _, n := range g.rpo {
		i, ok := n.ins.(*ssa.If)
		if !ok {
			continue
		}
		walkAtoms(toB(g.at(n, i.Cond)), func(a *Term) {
			if !hasT(out, a) && atEntry(a) {
				out = append(out, a)
			}
		})
	}
	return out
}

// atEntry: decided by what the caller passed, before anything is changed.
func atEntry(t *Term) bool {
	switch t.op {
	case "num", "str", "nil", "param", "pinf":
		return true
	case "idx":
		return t.args[1].isNum() && atEntry(t.args[0])
	case "poly":
		for _, m := range t.poly {
			for _, f := range m.f {
				if !atEntry(f) {
					return false
				}
			}
		}
		return true
	case "fld", "len", "isnil", "le0", "eq0", "rows", "cols", "feq", "flt", "fle", "eq":
		for _, a := range t.args {
			if !atEntry(a) {
				return false
			}
		}
		return len(t.g) == 0
	}
	return false
}

// possible: no two of the assumptions contradict each other.
func possible(as map[*Term]bool) bool {
	var le []*Term // p <= 0
	for a, v := range as {
		switch {
		case a.op == "le0" && v:
			le = append(le, a.args[0])
		case a.op == "le0":
			le = append(le, add(neg(a.args[0]), numI(1)))
		case a.op == "eq0" && v:
			le = append(le, a.args[0], neg(a.args[0]))
		case a.op == "isnil" && v:
			le = append(le, T("len", "", a.args[0]))
		}
	}
	for i, p := range le {
		if p.isNum() && p.num.Sign() > 0 {
			return false
		}
		for _, q := range le[:i] {
			if s := add(p, q); s.isNum() && s.num.Sign() > 0 {
				return false
			}
		}
	}
	return true
}

func (C *Ctx) equivCase(e Equiv, f, s *ssa.Function, as map[*Term]bool) {
	P := C.P
	gf := C.graph(f, e.opaque, as)
	gs := C.graph(s, e.opaque, as)
	assumed = as
	C.analysed(gf)
	if !gf.returns() || !gs.returns() {
		// refused in this case
		C.oblig++
		if e.cond && gf.returns() != gs.returns() {
			C.fail("refusal", e.fn, "%s: returns normally: %v instead of %v", P.pos(f.Pos()), gf.returns(), gs.returns())
		}
		return
	}
	vf, vs := gf.View(gf.exit), gs.View(gs.exit)
	rf, rs := gf.results(vf), gs.results(vs)
	if len(rf) != len(rs) {
		C.fail("results", e.fn, "%d results instead of %d", len(rf), len(rs))
		return
	}
	for i := range rf {
		if e.noRes {
			break
		}
		if e.results != nil {
			ok := false
			for _, j := range e.results {
				ok = ok || i == j
			}
			if !ok {
				continue
			}
		}
		C.oblig++
		rf[i], rs[i] = project(rf[i], e.keep, P), project(rs[i], e.keep, P)
		if f.Signature.Results().At(i).Type().String() == "error" {
			a, b := isnil(rf[i]), isnil(rs[i])
			if a != b {
				C.fail("error", e.fn, "%s: no error is reported when\n      %s\n    instead of when\n      %s", P.pos(f.Pos()), clipB(a), clipB(b))
			}
			continue
		}
		if rf[i] != rs[i] {
			C.fail("result", e.fn, "%s: result %d %s", P.pos(f.Pos()), i, differ(rf[i], rs[i]))
		}
	}
	if e.cond {
		C.oblig++
		a, b := vf.B(gf.RB(gf.guard(gf.exit))), vs.B(gs.RB(gs.guard(gs.exit)))
		if a != b {
			C.fail("refusal", e.fn, "%s: returns normally when\n      %s\n    instead of when\n      %s", P.pos(f.Pos()), clipB(a), clipB(b))
		}
	}
	if !e.noEff {
		d := e.depth
		if d == 0 {
			d = 1
		}
		for i, p := range f.Params {
			if i >= len(s.Params) {
				break
			}
			cells(fmt.Sprintf("parameter %s", p.Name()), T("param", fmt.Sprintf("p%d", i)), p.Type(), d, 1, func(c cell) {
				if e.only != nil && !e.only(c) {
					return
				}
				C.oblig++
				vf.n, vs.n = gf.exit, gs.exit
				a := vf.T(gf.load(gf.exit, c.loc, c.typ))
				b := vs.T(gs.load(gs.exit, c.loc, c.typ))
				a, b = project(a, e.keep, P), project(b, e.keep, P)
				if a != b {
					C.fail("effect", e.fn, "%s: afterwards %s %s", P.pos(f.Pos()), c.name, differ(a, b))
				}
			})
		}
	}
}

// differ shows where two terms part.
func differ(a, b *Term) string {
	path := ""
	x, y := a, b
	atoms := func(t *Term) map[*Term]bool {
		m := map[*Term]bool{}
		for _, g := range t.g {
			walkAtoms(g, func(a *Term) { m[a] = true })
		}
		return m
	}
	only := func(a, b map[*Term]bool) (r []*Term) {
		for t := range a {
			if !b[t] {
				r = append(r, t)
			}
		}
		sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
		return
	}
loop:
	for d := 0; d < 60; d++ {
		if x.op == "poly" && y.op == "poly" {
			var p, q []mono
			key := func(m mono) string { return m.c.RatString() + fkey(m.f) }
			in := func(m mono, l []mono) bool {
				for _, o := range l {
					if key(o) == key(m) {
						return true
					}
				}
				return false
			}
			for _, m := range x.poly {
				if !in(m, y.poly) {
					p = append(p, m)
				}
			}
			for _, m := range y.poly {
				if !in(m, x.poly) {
					q = append(q, m)
				}
			}
			if len(p) > 0 && len(q) > 0 {
				u, v := map[*Term]bool{}, map[*Term]bool{}
				for _, f := range p[0].f {
					u[f] = true
				}
				for _, f := range q[0].f {
					v[f] = true
				}
				a, b := only(u, v), only(v, u)
				if len(a) > 0 && len(b) > 0 {
					path += "/poly"
					x, y = a[0], b[0]
					continue
				}
			}
			break
		}
		if x.op != y.op || len(x.args) != len(y.args) || len(x.g) != len(y.g) || (x.s != y.s && !isBinder(x.op)) {
			break
		}
		for k := range x.args {
			if x.args[k] != y.args[k] && !(x.op == "ite" && x.g[k] != y.g[k]) {
				path += fmt.Sprintf("/%s%s.%d", x.op, x.s, k)
				x, y = x.args[k], y.args[k]
				continue loop
			}
		}
		u, v := atoms(x), atoms(y)
		a, b := only(u, v), only(v, u)
		if len(a) > 0 && len(b) > 0 {
			path += fmt.Sprintf("/%s?", x.op)
			x, y = a[0], b[0]
			continue
		}
		break
	}
	if len(path) > 300 {
		path = "…" + path[len(path)-300:]
	}
	if x.op == "bool" && y.op == "bool" {
		return fmt.Sprintf("(at %s) does not hold when it should or holds when it should not, as when %s", path, cube(bite(x.g[0], bnot(y.g[0]), y.g[0])))
	}
	if x.op == "ite" && y.op == "ite" {
		for i, v := range x.args {
			for j, w := range y.args {
				if v == w && x.g[i] != y.g[j] {
					return fmt.Sprintf("(at %s) is %s when it should not or is not when it should, as when %s", path, clip(v), cube(bite(x.g[i], bnot(y.g[j]), y.g[j])))
				}
			}
		}
	}
	return fmt.Sprintf("(at %s) is\n      %s\n    instead of\n      %s", path, clip(x), clip(y))
}

// cube is one way for b to hold.
func cube(b B) string {
	var r []string
	for b > BTrue {
		nd := bddNodes[b]
		s := bddVars[nd.v].String()
		if len(s) > 150 {
			s = s[:70] + "…" + s[len(s)-70:]
		}
		if nd.hi != BFalse {
			b = nd.hi
		} else {
			b, s = nd.lo, "!"+s
		}
		r = append(r, s)
	}
	return strings.Join(r, " & ")
}

func clip(t *Term) string {
	s := t.String()
	if len(s) > 1500 {
		s = s[:1500] + "…"
	}
	return s
}

func clipB(b B) string { return clip(intern(&Term{op: "bool", g: []B{b}})) }

var _ = strings.Join
