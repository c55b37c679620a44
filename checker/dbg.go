package main

import "fmt"

func dbgMods(P *Prog, names []string) {
	for _, n := range names {
		f := P.Func(n)
		fmt.Println(n)
		for _, w := range P.mods(f) {
			fmt.Printf("   %+v\n", w)
		}
	}
}

func dbgFlow(C *Ctx, fn string) {
	g := C.flatGraph(C.P.Func(fn), trainOpaque, map[*Term]bool{T("isnil", "", mkIdx(T("param", "p1"), numI(0))): false}, nil)
	ev := g.events()["boo.NewTree"][0]
	n := ev.nodes[0]
	b := g.guard(n)
	fmt.Println("guard", clipB(b))
	fmt.Println("guardR", clipB(g.RB(b)))
	for _, t := range g.mus {
		m := g.muInfo[t]
		fmt.Println("MU", t, "closed", m.closed != nil)
		if m.next != nil && m.closed == nil {
			fmt.Println("    init", clip(m.init)[:min(200, len(clip(m.init)))])
			fmt.Println("    next", clip(m.next)[:min(800, len(clip(m.next)))])
		}
	}
}

// skel prints a term down to a depth.
func skel(t *Term, d int) string {
	if t == nil {
		return "nil"
	}
	if len(t.args) == 0 {
		return t.op + ":" + t.s
	}
	if d == 0 {
		return t.op + ":" + t.s + "(..)"
	}
	s := t.op + ":" + t.s + "("
	for i, a := range t.args {
		if i > 0 {
			s += ", "
		}
		s += skel(a, d-1)
	}
	return s + ")"
}
