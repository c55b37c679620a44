package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// full is the condition for reaching n in the iterations its counters name.
func (g *Graph) full(n *Node) B {
	b := g.guard(n)
	for L := n.loop; L != nil; L = L.parent {
		b = band(b, g.enterCond(L))
		if nn := g.N(L); nn.op != "nloop" {
			b = band(b, ilt(L.K, nn))
		}
	}
	return b
}

// calleeName of a call instruction: own functions and library functions alike.
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "invoke:" + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return fname(f)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin:" + b.Name()
	}
	return "dynamic"
}

// calls lists the live call nodes of the named functions, in flow order.
func (g *Graph) calls(names ...string) []*Node {
	var r []*Node
	for _, n := range g.rpo {
		c, ok := n.ins.(ssa.CallInstruction)
		if !ok || n.kind == "post" {
			continue
		}
		nm := calleeName(c.Common())
		for _, w := range names {
			if nm == w {
				r = append(r, n)
			}
		}
	}
	return r
}

// arg is argument i of the call at n (receiver first for methods).
func (g *Graph) arg(n *Node, i int) *Term {
	switch x := n.ins.(type) {
	case *ssa.Send:
		return g.R(g.at(n, []ssa.Value{x.Chan, x.X}[i]))
	case *ssa.UnOp:
		return g.R(g.at(n, x.X))
	case *ssa.MapUpdate:
		return g.R(g.at(n, []ssa.Value{x.Map, x.Key, x.Value}[i]))
	case *ssa.Store:
		if i == 0 {
			return g.R(g.at(n, x.Addr.(*ssa.FieldAddr).X))
		}
		return g.R(g.at(n, x.Val))
	case *ssa.Return:
		return g.retVal(n, i)
	}
	c := n.ins.(ssa.CallInstruction).Common()
	if c.IsInvoke() {
		if i == 0 {
			return g.R(g.at(n, c.Value))
		}
		return g.R(g.at(n, c.Args[i-1]))
	}
	return g.R(g.at(n, c.Args[i]))
}

// fieldStores lists the nodes that store to the named field of the named struct.
func (g *Graph) fieldStores(structN, field string) []*Node {
	var r []*Node
	for _, n := range g.rpo {
		st, ok := n.ins.(*ssa.Store)
		if !ok {
			continue
		}
		if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
			t := deref(fa.X.Type())
			if fieldName(t, fa.Field) == field && strings.HasSuffix(structName(t), structN) {
				r = append(r, n)
			}
		}
	}
	return r
}

// implies: whenever n is reached, req holds.
func (g *Graph) implies(n *Node, req B) bool {
	V := g.View(n)
	c := V.B(g.RB(g.full(n)))
	q := V.B(g.RB(req))
	if band(c, bnot(q)) == BFalse {
		return true
	}
	t := constrainT(fromB(q), c)
	return t == fromB(BTrue)
}

// project blanks every field of the named structs except the kept ones.
func project(t *Term, keep map[string][]string, P *Prog) *Term {
	if keep == nil {
		return t
	}
	S := newSubst(map[*Term]*Term{})
	S.post = func(x *Term) *Term {
		if x.op != "struct" {
			return x
		}
		ks, ok := keep[x.s]
		if !ok {
			return x
		}
		names := P.fields[x.s]
		as := append([]*Term{}, x.args...)
		for i := range as {
			in := false
			for _, k := range ks {
				in = in || (i < len(names) && names[i] == k)
			}
			if !in {
				as[i] = T("any", "")
			}
		}
		return T("struct", x.s, as...)
	}
	return S.t(t)
}

func storeVal(n *Node) ssa.Value { return n.ins.(*ssa.Store).Val }

// extract is component i of the tuple returned by the call at n.
func (g *Graph) extract(n *Node, i int) *Term {
	return mkExt(g.at(n, n.ins.(*ssa.Call)), i)
}
