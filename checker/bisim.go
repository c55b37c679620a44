package main

import (
	"fmt"
	"os"
	"sort"
)

// Bisim decides when loop-carried values of two graphs are the same: all of them start
// in one class, and classes are split as long as the equations of two members (first
// value, and next value in terms of the values carried so far) differ when carried
// values are written as their class. Members of one class of the stable partition are
// equal in every iteration, by induction over the run.
type Bisim struct {
	contents bool
	roots    []*Term
	keys     []*bisState
	by       map[string]*bisState
	round    int
}

type bisState struct {
	g     *Graph
	m     *Mu
	n     *Node
	L     *Loop // for the number of iterations of a loop: the loop and the exit
	exit  int
	flds  map[string][]string
	color *Term
	open  bool
}

func newBisim() *Bisim { return &Bisim{by: map[string]*bisState{}} }

func (V *View) state(x *Term, m *Mu) *Term {
	S := V.g.bis
	k := fmt.Sprintf("%s@%d.%d", m.t.s, graphIDof(V.g), V.n.id)
	st := S.by[k]
	if st == nil {
		st = &bisState{g: V.g, m: m, n: V.n, flds: V.fields, color: T("color", "0")}
		S.by[k] = st
		S.keys = append(S.keys, st)
	}
	as := []*Term{st.color}
	for _, a := range x.args {
		as = append(as, a)
	}
	for _, k := range V.g.ks(V.n.loop) {
		v, ok := V.subT[k]
		if !ok {
			continue
		}
		in := false
		for i, a := range m.t.args {
			in = in || (a == k && x.args[i] == v)
		}
		if !in {
			as = append(as, v)
		}
	}
	return T("st", "", as...)
}

// count is the iteration in which a loop is left through an exit.
func (V *View) count(x *Term, L *Loop, exit int) *Term {
	S := V.g.bis
	k := fmt.Sprintf("loop%s.%s@%d.%d", x.op, x.s, graphIDof(V.g), V.n.id)
	st := S.by[k]
	if st == nil {
		st = &bisState{g: V.g, L: L, exit: exit, n: V.n, flds: V.fields, color: T("color", "0")}
		S.by[k] = st
		S.keys = append(S.keys, st)
	}
	as := []*Term{st.color}
	for _, a := range x.args {
		as = append(as, a)
	}
	return T("cntst", "", as...)
}

// refine splits the classes once; it reports whether anything may still change.
func (S *Bisim) refine() bool {
	classes := map[*Term]bool{}
	for _, s := range S.keys {
		classes[s.color] = true
	}
	n, nk := len(classes), len(S.keys)
	var next []*Term
	for i := 0; i < len(S.keys); i++ {
		next = append(next, S.keys[i].equation())
	}
	classes = map[*Term]bool{}
	if os.Getenv("BOOCHECK_EQ") != "" {
		for i, s := range S.keys {
			if s.m != nil {
				x := skel(next[i], 4)
				if os.Getenv("BOOCHECK_EQ") == "2" {
					x = next[i].String()
				}
				fmt.Printf("eq %d g%d n%d %s %v: %.4500s\n", S.round, graphIDof(s.g), s.n.id, s.m.t.s, s.color, x)
			}
		}
	}
	for i, s := range S.keys {
		// the class a state was in before is part of its new one
		s.color = T("color", "", s.color, next[i])
		classes[s.color] = true
	}
	// short names, the same for the same class
	var cs []*Term
	for c := range classes {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	nm := map[*Term]*Term{}
	S.round++
	for i, c := range cs {
		nm[c] = T("color", fmt.Sprintf("%d.%d", S.round, i))
	}
	for _, s := range S.keys {
		s.color = nm[s.color]
	}
	if os.Getenv("BOOCHECK_DEBUG") != "" {
		fmt.Println("bisim round", S.round, "states", len(S.keys), "classes", len(classes))
	}
	return len(classes) != n || len(S.keys) != nk
}

func (s *bisState) equation() *Term {
	g, m := s.g, s.m
	V := g.View(s.n)
	V.fields = s.flds
	if s.L != nil {
		pos := map[*Term]*Term{}
		ks := g.ks(s.L)
		for i, a := range ks {
			pos[a] = T("kk", fmt.Sprintf("a%d", len(ks)-i))
		}
		var c B
		if s.exit >= 0 {
			c = g.edgeIn(s.L.exits[s.exit], s.L)
		} else {
			c = bnot(g.econd(s.L.main))
		}
		return substT(T("eqn", "", fromB(V.B(g.RB(c)))), pos)
	}
	// the counters by position
	pos := map[*Term]*Term{}
	for i, a := range m.t.args {
		pos[a] = T("kk", fmt.Sprintf("a%d", len(m.t.args)-i))
	}
	in := BFalse // the loop is entered
	for _, e := range m.L.enter {
		in = bor(in, band(g.guard(e.from), g.econd(e)))
	}
	init := substT(V.T(constrainT(g.R(m.init), g.RB(in))), pos)
	s.open = init.any(func(t *Term) bool { return t.op == "st" && t.args[0] == s.color })
	brk := BFalse
	for _, e := range m.L.exits {
		if e != m.L.main {
			brk = bor(brk, g.breakCond(m.L, e))
		}
	}
	nx := constrainT(g.R(m.next), bnot(g.RB(brk)))
	next := substT(V.T(nx), pos)
	r := T("eqn", "", init, next)
	// loops around the place looked at
	d := map[*Term]*Term{}
	for i, k := range g.ks(s.n.loop) {
		d[k] = T("kk", fmt.Sprintf("n%d", i))
	}
	return substT(r, d)
}

func (S *Bisim) use(x *Term) {
	if S != nil {
		S.roots = append(S.roots, x)
	}
}

// closed: every value that was compared, or that one compared depends on, has a first value.
func (S *Bisim) closed() {
	by := map[*Term][]*bisState{}
	for _, s := range S.keys {
		by[s.color] = append(by[s.color], s)
	}
	seen := map[*Term]bool{}
	for w := S.roots; len(w) > 0; {
		x := w[len(w)-1]
		w = w[:len(w)-1]
		x.walk(func(t *Term) bool {
			if t.op == "color" && !seen[t] {
				seen[t] = true
				for _, s := range by[t] {
					w = append(w, s.equation())
					if s.open && os.Getenv("BOOCHECK_EQ") != "" {
						fmt.Printf("open g%d n%d mu %v loc %s\n   init %s\n", graphIDof(s.g), s.n.id, s.m.t.s, skel(s.m.loc, 6), skel(s.m.init, 6))
					}
					if s.open {
						panic("a loop-carried value without a first value")
					}
				}
			}
			return true
		})
	}
}
