package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Objects made in a loop and looked at after it: nothing changes them after the iteration
// they were made in (every write the points-to analysis finds is made, in that iteration,
// through a reference just made), so they hold what they held when it ended.

// outlived: the view is outside a loop in which x is made.
func (V *View) outlived(x *Term) bool {
	L := x.node.loop
	return L != nil && V.end != L && !L.contains(V.n)
}

// lateObj shows x as its iteration left it.
func (V *View) lateObj(x *Term) *Term {
	if V.g.altered(x.node) {
		return T("altered", fmt.Sprintf("%d.%d", graphIDof(V.g), x.node.id))
	}
	end := V.end
	defer V.moveTo(x)()
	defer func() { V.end = end }()
	V.end = x.node.loop
	if len(V.end.back) > 0 {
		V.n = V.end.back[0].from
	}
	V.stack = V.stack[:len(V.stack)-1]
	defer func() { V.stack = append(V.stack, x) }()
	return V.obj(x)
}

// loadEnd: the contents of loc at the end of an iteration of L.
func (g *Graph) loadEnd(L *Loop, loc *Term, typ types.Type) *Term {
	if typ != nil {
		switch u := typ.Underlying().(type) {
		case *types.Struct:
			var as []*Term
			for i := 0; i < u.NumFields(); i++ {
				as = append(as, g.loadEnd(L, T("faddr", u.Field(i).Name(), loc), u.Field(i).Type()))
			}
			return T("struct", structName(typ), as...)
		case *types.Array:
			if u.Len() <= 64 {
				var as []*Term
				for i := int64(0); i < u.Len(); i++ {
					as = append(as, g.loadEnd(L, mkEaddr(loc, numI(i)), u.Elem()))
				}
				return T("lit", "", as...)
			}
		}
	}
	made := rootOf(loc).node
	q := g.RB(g.guard(made)) // it was made
	can := g.reachIn(made, L)
	var es []*Edge
	var vs []*Term
	same := true
	for _, e := range append(append([]*Edge{}, L.back...), L.exits...) {
		if !can[e.from] || band(g.RB(g.edgeIn(e, L)), q) == BFalse {
			continue
		}
		v := g.after(e.from, loc, typ)
		for l := e.from.loop; l != nil && l != L; l = l.parent {
			v = g.leaveBy(v, l, e)
		}
		v = constrainT(g.R(v), q)
		es, vs = append(es, e), append(vs, v)
		same = same && v == vs[0]
	}
	if len(es) == 0 {
		panic("an object whose iteration does not end")
	}
	if same {
		return vs[0]
	}
	gs := make([]B, len(es))
	tot := BFalse
	for i, e := range es {
		gs[i] = band(g.RB(g.edgeIn(e, L)), q)
		tot = bor(tot, gs[i])
	}
	for i := range gs {
		gs[i] = constrain(gs[i], tot)
	}
	return ite(gs, vs)
}

// reachIn: the nodes reached from a within the same iteration of L.
func (g *Graph) reachIn(a *Node, L *Loop) map[*Node]bool {
	r := map[*Node]bool{a: true}
	for w := []*Node{a}; len(w) > 0; {
		n := w[len(w)-1]
		w = w[:len(w)-1]
		for _, e := range n.succ {
			if e.to != L.head && L.contains(e.to) && !r[e.to] {
				r[e.to] = true
				w = append(w, e.to)
			}
		}
	}
	return r
}

// altered: something may write the object made at n other than in the iteration that makes it.
func (g *Graph) altered(n *Node) bool {
	if r, ok := g.alt[n]; ok {
		return r
	}
	if g.alt == nil {
		g.alt = map[*Node]bool{}
	}
	r := g.altered1(n)
	g.alt[n] = r
	return r
}

func (g *Graph) altered1(n *Node) bool {
	H := g.P.heapOf(g.root)
	ctx := map[*hctx]*Frame{}
	of := map[*Frame]*hctx{}
	var find func(c *hctx) *Frame
	find = func(c *hctx) *Frame {
		if f, ok := ctx[c]; ok {
			return f
		}
		var r *Frame
		if c == H.root {
			r = g.entry.fr
		} else if p := find(c.parent); p != nil {
			for _, f := range g.frames {
				if f.parent == p && f.fn == c.fn && ssa.Instruction(f.call) == c.site {
					r = f
				}
			}
		}
		ctx[c] = r
		if r != nil {
			of[r] = c
		}
		return r
	}
	for _, c := range H.ctxs {
		find(c)
	}
	c := of[n.fr]
	if c == nil {
		return true
	}
	at := map[string]*Node{}
	for _, m := range g.nodes {
		if m.kind == "" && m.ins != nil {
			at[fmt.Sprintf("%p|%p", m.fr, m.ins)] = m
		}
	}
	for _, a := range H.acc {
		if !a.write || a.l.o.site != n.ins || a.l.o.ctx != c {
			continue
		}
		f := ctx[a.c]
		if f == nil {
			return true
		}
		m := at[fmt.Sprintf("%p|%p", f, a.ins)]
		if m == nil {
			return true
		}
		if !m.live && m.rpo < 0 {
			continue
		}
		ad := g.writeAddr(m)
		if c, ok := m.ins.(*ssa.Call); ok && ad == nil {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" {
				ad = mkEaddr(g.at(m, c.Call.Args[0]), numI(0))
			}
		}
		if ad == nil {
			return true
		}
		r := rootOf(g.R(ad))
		ks := g.ks(n.loop)
		if r.op != "new" || r.node != n || len(r.args) < len(ks) {
			return true
		}
		for i, k := range ks {
			if r.args[len(r.args)-len(ks)+i] != k {
				return true
			}
		}
	}
	return false
}

// heapOf: the points-to analysis of a function, made once.
func (P *Prog) heapOf(fn *ssa.Function) *Heap {
	if P.heaps == nil {
		P.heaps = map[*ssa.Function]*Heap{}
	}
	if h, ok := P.heaps[fn]; ok {
		return h
	}
	h := P.Heap(fn)
	P.heaps[fn] = h
	return h
}

// handedOver: what the call at n is given (field of argument arg) is made in the same
// iteration and never changed after it.
func (C *Ctx) handedOver(g *Graph, where string, n *Node, arg int, field string) {
	var ptr types.Type
	if st := structOf(n.ins.(ssa.CallInstruction).Common().Args[arg]); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == field {
				ptr = st.Field(i).Type()
			}
		}
	}
	v := g.R(g.load(n, T("faddr", field, g.arg(n, arg)), ptr))
	vs := []*Term{v}
	if v.op == "ite" {
		vs = v.args
	}
	for _, x := range vs {
		C.oblig++
		ks := g.ks(n.loop)
		ok := x.op == "new" && len(x.args) >= len(ks)
		for i, k := range ks {
			ok = ok && x.args[len(x.args)-len(ks)+i] == k
		}
		if !ok {
			C.fail("own", where, "%s: what is handed over (%s) is not made for this call", g.where(n), x)
		} else if g.altered(x.node) {
			C.fail("own", where, "%s: what is handed over (made at %s) may be changed later", g.where(n), g.where(x.node))
		}
	}
}
