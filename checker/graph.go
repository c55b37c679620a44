package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Graph is the flow graph of one root function with every callee of the module
// expanded in place (recursive and opaque ones excepted), so that moving code
// into or out of a helper does not change it.
type Graph struct {
	errs    bool
	even    bool        // all ways out of a loop whose iterations cannot be counted are alike
	facts   map[*Loop]B // what holds once a loop with several ways out is left
	P       *Prog
	root    *ssa.Function
	opaque  func(*ssa.Function) bool
	assume  map[*Term]bool
	paramT  map[int]*Term // values given to root parameters instead of symbols
	frames  map[string]*Frame
	nodes   []*Node
	entry   *Node
	exit    *Node // joins all normal returns of the root
	resolve map[string]*callee
	prune   map[string]int // frame key + block -> the only successor kept

	rpo     []*Node
	loops   []*Loop
	val     map[vkey]*Term
	memo    map[lkey]*Term
	busy    map[vkey]bool
	G       map[*Node]B
	muInfo  map[*Term]*Mu
	ltyp    map[*Term]types.Type
	mus     []*Term
	solved  map[*Term]*Term
	defs    map[vkey]*Node
	memOps  []*Node // nodes that may write memory
	cloOf   map[*Term]*callee
	objs    map[*Term]*Node
	retsOf  map[*Frame][]*Node
	dirty   int
	useful  map[string]bool
	settled bool
	probing bool
	muBy    map[string]*Mu
	flat    bool // results of opaque calls are names; what they were given is compared call by call
	rep     map[*Node]*Node
	evN     map[*Node]int
	bis     *Bisim
	alt     map[*Node]bool
	goes    []goEvent
	chans   map[*Term]string
}

type callee struct {
	fn    *ssa.Function
	frame string // frame key of the MakeClosure
	mk    *ssa.MakeClosure
}

type Frame struct {
	key    string
	fn     *ssa.Function
	parent *Frame
	call   ssa.CallInstruction
	callee *callee
	entry  *Node
	post   *Node // joins the returns
	depth  int
	invoke bool // interface call: receiver is call.Value
}

type Node struct {
	cut   bool // a return from within a loop, followed no further
	id    int
	fr    *Frame
	ins   ssa.Instruction
	kind  string // "", entry, post, block
	blk   *ssa.BasicBlock
	succ  []*Edge
	pred  []*Edge
	rpo   int
	idom  *Node
	loop  *Loop
	live  bool
	opq   *ssa.Function // the module function called here but not expanded
	guard B
}

type Edge struct {
	from, to *Node
	cond     ssa.Value // nil: always
	pol      bool
	back     bool
}

// Loop is a natural loop; K counts its iterations from 0.
type Loop struct {
	id     int
	head   *Node
	nodes  map[*Node]bool
	parent *Loop
	K      *Term
	exits  []*Edge
	main   *Edge // the test made at the start of every iteration
	back   []*Edge
	enter  []*Edge
	n      *Term
	nbusy  bool
	g      *Graph
}

type vkey struct {
	fr *Frame
	v  ssa.Value
}

type lkey struct {
	loc *Term
	n   *Node
}

var loopN int

func (P *Prog) pureStop(*ssa.Function) bool { return false }

// NewGraph expands root. opaque functions are not entered.
func (P *Prog) NewGraph(root *ssa.Function, opaque func(*ssa.Function) bool, assume map[*Term]bool, params map[int]*Term) *Graph {
	return P.newGraph(root, opaque, assume, params, false)
}

func (P *Prog) newGraph(root *ssa.Function, opaque func(*ssa.Function) bool, assume map[*Term]bool, params map[int]*Term, flat bool) *Graph {
	g := &Graph{P: P, root: root, opaque: opaque, assume: assume, paramT: params, resolve: map[string]*callee{}, prune: map[string]int{}, flat: flat, even: P.even, facts: map[*Loop]B{}}
	for round := 0; round < 12; round++ {
		g.build()
		assumed = g.assume
		if !g.refine() {
			break
		}
	}
	g.solveAll()
	return g
}

func (g *Graph) newNode(fr *Frame, ins ssa.Instruction, kind string, b *ssa.BasicBlock) *Node {
	n := &Node{id: len(g.nodes), fr: fr, ins: ins, kind: kind, blk: b}
	g.nodes = append(g.nodes, n)
	return n
}

func link(a, b *Node, cond ssa.Value, pol bool) {
	e := &Edge{from: a, to: b, cond: cond, pol: pol}
	a.succ = append(a.succ, e)
	b.pred = append(b.pred, e)
}

func (g *Graph) build() {
	g.frames = map[string]*Frame{}
	g.nodes = nil
	g.loops = nil
	g.val = map[vkey]*Term{}
	g.memo = map[lkey]*Term{}
	g.busy = map[vkey]bool{}
	g.G = map[*Node]B{}
	g.muInfo = map[*Term]*Mu{}
	g.ltyp = map[*Term]types.Type{}
	g.mus = nil
	g.muBy = nil
	g.alt = nil
	g.solved = map[*Term]*Term{}
	g.defs = map[vkey]*Node{}
	g.memOps = nil
	g.cloOf = map[*Term]*callee{}
	g.retsOf = map[*Frame][]*Node{}
	fr := g.frame(g.root, nil, nil, nil, "")
	g.entry, g.exit = fr.entry, fr.post
	g.finish()
}

func ikey(fr *Frame, ins ssa.Instruction) string {
	b := ins.Block()
	for i, x := range b.Instrs {
		if x == ins {
			return fmt.Sprintf("%s/%d.%d", fr.key, b.Index, i)
		}
	}
	return fr.key + "/?"
}

// doomed: every path from b ends in a panic or never returns.
func doomed(b *ssa.BasicBlock) bool {
	for _, ins := range b.Instrs {
		switch c := ins.(type) {
		case *ssa.Panic:
			return true
		case *ssa.Call:
			if noReturn(c) {
				return true
			}
		}
	}
	return len(b.Succs) == 1 && b.Succs[0] != b && len(b.Succs[0].Preds) == 1 && doomed(b.Succs[0])
}

func (g *Graph) frame(fn *ssa.Function, parent *Frame, call ssa.CallInstruction, c *callee, key string) *Frame {
	fr := &Frame{key: key, fn: fn, parent: parent, call: call, callee: c}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	g.frames[key] = fr
	fr.entry = g.newNode(fr, nil, "entry", nil)
	fr.post = g.newNode(fr, nil, "post", nil)
	starts := make([]*Node, len(fn.Blocks))
	for i, b := range fn.Blocks {
		starts[i] = g.newNode(fr, nil, "block", b)
	}
	link(fr.entry, starts[0], nil, false)
	for _, b := range fn.Blocks {
		if b == fn.Recover {
			continue
		}
		cur := starts[b.Index]
		ended := false
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				g.defs[vkey{fr, ins}] = starts[b.Index]
				continue
			}
			n := g.newNode(fr, ins, "", b)
			if v, ok := ins.(ssa.Value); ok {
				g.defs[vkey{fr, v}] = n
			}
			link(cur, n, nil, false)
			cur = n
			switch ins := ins.(type) {
			case *ssa.Call:
				if c, sub := g.target(fr, ins); sub {
					f2 := g.frame(c.fn, fr, ins, c, ikey(fr, ins))
					f2.invoke = ins.Call.IsInvoke()
					link(n, f2.entry, nil, false)
					cur = f2.post
					g.defs[vkey{fr, ins}] = f2.post
				} else {
					if c != nil {
						n.opq = c.fn
					}
					if noReturn(ins) {
						ended = true
					}
				}
			case *ssa.RunDefers:
				ds := defersOf(fn)
				for i := len(ds) - 1; i >= 0; i-- {
					d := ds[i]
					c, sub := g.target(fr, d)
					if c == nil || !sub {
						continue // library calls (closing, unlocking) or functions kept whole
					}
					if !d.Block().Dominates(b) {
						if !reaches(d.Block(), b, d, ins) {
							continue // not yet deferred there
						}
						panic("a deferred call that is not always made: " + g.P.pos(d.Pos()))
					}
					f2 := g.frame(c.fn, fr, d, c, ikey(fr, d)+"@"+ikey(fr, ins))
					f2.invoke = d.Call.IsInvoke()
					link(cur, f2.entry, nil, false)
					cur = f2.post
				}
			case *ssa.Return:
				if g.flat && !g.P.nocut && parent == nil && earlyReturn(b) {
					n.cut = true // compared as an event of its own
				} else {
					link(n, fr.post, nil, false)
				}
				ended = true
			case *ssa.Panic:
				ended = true
			case *ssa.If:
				k, ok := g.prune[ikey(fr, ins)]
				if !ok && g.flat {
					// a path that can only end in a panic makes none of the calls compared
					if a, c := doomed(b.Succs[0]), doomed(b.Succs[1]); a != c {
						ok = true
						if a {
							k = 1
						}
					}
				}
				if ok {
					link(n, starts[b.Succs[k].Index], nil, false)
				} else {
					link(n, starts[b.Succs[0].Index], ins.Cond, true)
					link(n, starts[b.Succs[1].Index], ins.Cond, false)
				}
				ended = true
			case *ssa.Jump:
				link(n, starts[b.Succs[0].Index], nil, false)
				ended = true
			}
			if ended {
				break
			}
		}
	}
	return fr
}

// earlyReturn: b returns from within a loop (not at the loop's own end).
func earlyReturn(b *ssa.BasicBlock) bool {
	for q := b; len(q.Preds) == 1; q = q.Preds[0] {
		p := q.Preds[0]
		for h := p; h != nil; h = h.Idom() { // a loop around p, but not around q
			var body map[*ssa.BasicBlock]bool
			for _, x := range h.Preds {
				if h.Dominates(x) {
					if body == nil {
						body = map[*ssa.BasicBlock]bool{h: true}
					}
					work := []*ssa.BasicBlock{x}
					for len(work) > 0 {
						y := work[len(work)-1]
						work = work[:len(work)-1]
						if body[y] {
							continue
						}
						body[y] = true
						work = append(work, y.Preds...)
					}
				}
			}
			if body == nil || !body[p] || body[q] {
				continue
			}
			out := false
			for _, s := range h.Succs {
				out = out || !body[s]
			}
			return out && p != h
		}
	}
	return false
}

func defersOf(fn *ssa.Function) []*ssa.Defer {
	var r []*ssa.Defer
	for _, b := range fn.DomPreorder() {
		for _, ins := range b.Instrs {
			if d, ok := ins.(*ssa.Defer); ok {
				r = append(r, d)
			}
		}
	}
	return r
}

func noReturn(c *ssa.Call) bool {
	f := c.Call.StaticCallee()
	if f == nil || f.Pkg == nil {
		return false
	}
	switch f.RelString(nil) {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln":
		return true
	}
	return false
}

// target finds the module function a call runs; expand says whether it is inlined.
func (g *Graph) target(fr *Frame, call ssa.CallInstruction) (*callee, bool) {
	c := call.Common()
	var r *callee
	if f := c.StaticCallee(); f != nil {
		r = &callee{fn: f}
		if mk, ok := c.Value.(*ssa.MakeClosure); ok {
			r.mk, r.frame = mk, fr.key
		}
	} else if x, ok := g.resolve[ikey(fr, call)]; ok {
		r = x
	} else if c.IsInvoke() {
		if f := g.P.devirt(c); f != nil {
			r = &callee{fn: f}
		}
	}
	if r == nil {
		return nil, false
	}
	if !g.P.own(r.fn) || len(r.fn.Blocks) == 0 {
		return nil, false
	}
	for p := fr; p != nil; p = p.parent {
		if p.fn == r.fn {
			return r, false
		}
	}
	if fr.depth > 12 || (g.opaque != nil && g.opaque(r.fn)) {
		return r, false
	}
	if s := g.P.subst[r.fn]; s != nil {
		r.fn = s
	}
	return r, true
}

// devirt: an interface method with exactly one implementation in the module
// (for an interface declared in the module).
// Interfaces whose methods mention nothing of the module (a writer, say) are
// implemented elsewhere as well.
func (P *Prog) devirt(c *ssa.CallCommon) *ssa.Function {
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok || !P.mentionsOwn(it) {
		return nil
	}
	if fs := P.implementers(c.Value.Type(), c.Method.Name()); len(fs) == 1 {
		return fs[0]
	}
	return nil
}

// finish: reachability, order, dominators, loops.
func (g *Graph) finish() {
	seen := map[*Node]bool{}
	var post []*Node
	type fr struct {
		n *Node
		i int
	}
	st := []fr{{g.entry, 0}}
	seen[g.entry] = true
	for len(st) > 0 {
		top := &st[len(st)-1]
		if top.i < len(top.n.succ) {
			m := top.n.succ[top.i].to
			top.i++
			if !seen[m] {
				seen[m] = true
				st = append(st, fr{m, 0})
			}
			continue
		}
		post = append(post, top.n)
		st = st[:len(st)-1]
	}
	g.rpo = nil
	for i := len(post) - 1; i >= 0; i-- {
		post[i].rpo = len(g.rpo)
		post[i].live = true
		g.rpo = append(g.rpo, post[i])
	}
	for _, n := range g.nodes {
		var p []*Edge
		for _, e := range n.pred {
			if e.from.live {
				p = append(p, e)
			}
		}
		n.pred = p
	}
	// dominators
	g.entry.idom = g.entry
	for ch := true; ch; {
		ch = false
		for _, n := range g.rpo[1:] {
			var d *Node
			for _, e := range n.pred {
				p := e.from
				if p.idom == nil {
					continue
				}
				if d == nil {
					d = p
				} else {
					d = intersect(d, p)
				}
			}
			if d != n.idom {
				n.idom = d
				ch = true
			}
		}
	}
	// loops
	heads := map[*Node]*Loop{}
	for _, n := range g.rpo {
		for _, e := range n.succ {
			if e.to.live && dominates(e.to, n) {
				e.back = true
				L := heads[e.to]
				if L == nil {
					loopN++
					L = &Loop{id: loopN, head: e.to, nodes: map[*Node]bool{e.to: true}, K: T("k", fmt.Sprint(loopN)), g: g}
					heads[e.to] = L
					g.loops = append(g.loops, L)
				}
				L.back = append(L.back, e)
				work := []*Node{n}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if L.nodes[x] {
						continue
					}
					L.nodes[x] = true
					for _, p := range x.pred {
						work = append(work, p.from)
					}
				}
			}
		}
	}
	// outermost (largest) first
	sort.Slice(g.loops, func(i, j int) bool {
		a, b := g.loops[i], g.loops[j]
		if len(a.nodes) != len(b.nodes) {
			return len(a.nodes) > len(b.nodes)
		}
		return a.head.rpo < b.head.rpo
	})
	for _, L := range g.loops {
		L.parent = L.head.loop
		for n := range L.nodes {
			n.loop = L
		}
	}
	g.tails()
	for _, L := range g.loops {
		for _, n := range g.rpo {
			if !L.nodes[n] {
				continue
			}
			for _, e := range n.succ {
				if !L.nodes[e.to] {
					L.exits = append(L.exits, e)
				}
			}
		}
		for _, e := range L.head.pred {
			if !e.back {
				L.enter = append(L.enter, e)
			}
		}
	}
	for _, n := range g.rpo {
		if r, ok := n.ins.(*ssa.Return); ok && r != nil && !n.cut {
			g.retsOf[n.fr] = append(g.retsOf[n.fr], n)
		}
	}
	for _, n := range g.rpo {
		if g.mayWrite(n) {
			g.memOps = append(g.memOps, n)
		}
	}
}

// tails: what only leads to a return from within a loop belongs to the iteration it ends.
func (g *Graph) tails() {
	reach := func(to func(*Node) bool) map[*Node]bool {
		r := map[*Node]bool{}
		var work []*Node
		for _, n := range g.rpo {
			if to(n) {
				work = append(work, n)
			}
		}
		for len(work) > 0 {
			n := work[len(work)-1]
			work = work[:len(work)-1]
			if r[n] {
				continue
			}
			r[n] = true
			for _, e := range n.pred {
				work = append(work, e.from)
			}
		}
		return r
	}
	any := false
	for _, n := range g.rpo {
		any = any || n.cut
	}
	if !any {
		return
	}
	cut, end := reach(func(n *Node) bool { return n.cut }), reach(func(n *Node) bool { return n == g.exit })
	for _, n := range g.rpo {
		if !cut[n] || end[n] || n.idom == nil || n.idom == n {
			continue
		}
		for L := n.idom.loop; L != nil; L = L.parent {
			if n.loop == nil || n.loop == L.parent {
				L.nodes[n] = true
			}
		}
		if n.loop == nil {
			n.loop = n.idom.loop
		} else if l := n.idom.loop; l != nil && l.head.rpo > n.loop.head.rpo {
			n.loop = l
		}
		for L := n.loop; L != nil; L = L.parent {
			L.nodes[n] = true
		}
	}
}

func intersect(a, b *Node) *Node {
	for a != b {
		for a.rpo > b.rpo {
			a = a.idom
		}
		for b.rpo > a.rpo {
			b = b.idom
		}
	}
	return a
}

func dominates(a, b *Node) bool {
	for b.rpo > a.rpo {
		b = b.idom
	}
	return a == b
}

func (L *Loop) contains(n *Node) bool { return L != nil && L.nodes[n] }

// refine resolves dynamic calls and prunes decided branches; true: rebuild.
func (g *Graph) refine() bool {
	changed := false
	for _, n := range g.rpo {
		switch ins := n.ins.(type) {
		case *ssa.Call:
			if ins.Call.StaticCallee() == nil && !ins.Call.IsInvoke() {
				if _, ok := ins.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				k := ikey(n.fr, ins)
				if g.resolve[k] != nil {
					continue
				}
				t := g.at(n, ins.Call.Value)
				if c := g.asCallee(t); c != nil {
					g.resolve[k] = c
					changed = true
				}
			}
		case *ssa.If:
			k := ikey(n.fr, ins)
			if _, ok := g.prune[k]; ok {
				continue
			}
			switch toB(g.at(n, ins.Cond)) {
			case BTrue:
				g.prune[k] = 0
				changed = true
			case BFalse:
				g.prune[k] = 1
				changed = true
			}
		}
	}
	return changed
}

func (g *Graph) asCallee(t *Term) *callee {
	if c, ok := g.cloOf[t]; ok {
		return c
	}
	if t.op == "ite" { // calling nil does not return
		var r *callee
		for _, a := range t.args {
			if a.op == "nil" {
				continue
			}
			c := g.asCallee(a)
			if c == nil || (r != nil && *r != *c) {
				return nil
			}
			r = c
		}
		return r
	}
	return nil
}

func (n *Node) pos() token.Pos {
	if n == nil {
		return token.NoPos
	}
	if n.ins != nil {
		if p := n.ins.Pos(); p.IsValid() {
			return p
		}
		// stores and such: look at the operands
		for _, op := range n.ins.Operands(nil) {
			if op != nil && *op != nil && (*op).Pos().IsValid() {
				return (*op).Pos()
			}
		}
	}
	if n.blk != nil {
		for _, i := range n.blk.Instrs {
			if i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	if n.fr != nil {
		return n.fr.fn.Pos()
	}
	return token.NoPos
}

// where names the construct a node stands for.
func (g *Graph) where(n *Node) string {
	if n == nil {
		return g.P.pos(g.root.Pos()) + " (" + fname(g.root) + ")"
	}
	return g.P.pos(n.pos()) + " (" + fname(n.fr.fn) + ")"
}

func (P *Prog) mentionsOwn(it *types.Interface) bool {
	for i := 0; i < it.NumMethods(); i++ {
		sig := it.Method(i).Type().(*types.Signature)
		for _, tu := range []*types.Tuple{sig.Params(), sig.Results()} {
			for j := 0; j < tu.Len(); j++ {
				t := tu.At(j).Type()
				for {
					switch x := t.(type) {
					case *types.Pointer:
						t = x.Elem()
						continue
					case *types.Slice:
						t = x.Elem()
						continue
					case *types.Named:
						if x.Obj().Pkg() != nil && P.inMod[x.Obj().Pkg()] {
							return true
						}
					}
					break
				}
			}
		}
	}
	return false
}
