package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- goroutines ----------

// reachFrom: the instructions of a function reachable after ins, not passing through stop.
func reachFrom(ins ssa.Instruction, stop ssa.Instruction) map[ssa.Instruction]bool {
	r := map[ssa.Instruction]bool{}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int)
	walk = func(b *ssa.BasicBlock, from int) {
		for i := from; i < len(b.Instrs); i++ {
			if b.Instrs[i] == stop {
				return
			}
			r[b.Instrs[i]] = true
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	b := ins.Block()
	for i, x := range b.Instrs {
		if x == ins {
			walk(b, i+1)
		}
	}
	return r
}

// under: the contexts reached from c.
func (H *Heap) under(c *hctx) map[*hctx]bool {
	r := map[*hctx]bool{}
	var walk func(*hctx)
	walk = func(x *hctx) {
		if r[x] {
			return
		}
		r[x] = true
		for _, ds := range H.edges[x] {
			for _, d := range ds {
				walk(d)
			}
		}
	}
	walk(c)
	return r
}

func overlap(a, b *hloc) bool {
	return a.o == b.o && (strings.HasPrefix(a.path, b.path) || strings.HasPrefix(b.path, a.path))
}

// siteIn: the instruction of F through which context c is reached (nil: not below F).
func siteIn(F, c *hctx) ssa.Instruction {
	for x := c; x != nil && x.parent != nil; x = x.parent {
		if x.parent == F {
			return x.site
		}
	}
	return nil
}

// shares: data races between goroutines started below the entry point.
func (C *Ctx) shares(name string) {
	C.run("goroutines of "+name, func() {
		H := C.heap(name)
		starts := 0
		for _, F := range H.ctxs {
			for site, ds := range H.edges[F] {
				g, ok := site.(*ssa.Go)
				if !ok {
					continue
				}
				starts++
				in := map[*hctx]bool{}
				for _, d := range ds {
					for x := range H.under(d) {
						in[x] = true
					}
				}
				C.goroutine(H, name, F, g, in)
			}
			// goroutines running code from outside cannot be followed
		}
		C.count("goroutine starts", starts)
	})
}

func (C *Ctx) goroutine(H *Heap, name string, F *hctx, g *ssa.Go, in map[*hctx]bool) {
	what := fmt.Sprintf("goroutine started in %s", fname(F.fn))
	again := reachFrom(g, nil)
	locked := H.locks()
	anchor := func(o *hobj) (ssa.Instruction, bool) { // where in F the object comes to be; inside the goroutine
		if o.ctx == nil || o.site == nil {
			return nil, false
		}
		if in[o.ctx] {
			return nil, true
		}
		if o.ctx == F {
			return o.site, false
		}
		return siteIn(F, o.ctx), false
	}
	byObj := map[*hobj][]haccess{}
	var mine []haccess
	for _, a := range H.acc {
		if a.grow && a.l.o.kind == "root" {
			continue // adding past the end of a list of the caller's: not seen through it
		}
		if in[a.c] {
			mine = append(mine, a)
		} else {
			byObj[a.l.o] = append(byObj[a.l.o], a)
		}
	}
	sentAfter := H.writesAfterSend(in)
	for _, a := range mine {
		C.oblig++
		o := a.l.o
		an, own := anchor(o)
		if o.kind == "func" {
			continue
		}
		// another run of the same statement
		if again[g] && a.write && !own {
			if an == nil || reachFrom(g, an)[g] {
				if !locked[accKey(a)] {
					C.fail("shared-write", what, "%s%s is written by every goroutine this statement starts: %s", H.describe(o), a.l.path, H.where(a))
					continue
				}
			}
		}
		// the starter, going on
		for _, p := range byObj[o] {
			if !(a.write || p.write) || !overlap(a.l, p.l) {
				continue
			}
			if locked[accKey(a)] && locked[accKey(p)] {
				continue
			}
			q := p.ins
			if p.c != F {
				if q = siteIn(F, p.c); q == nil {
					continue // outside F: before it was called or after it returned
				}
			}
			if _, isGo := q.(*ssa.Go); !isGo && !again[q] {
				continue // before the start
			}
			if _, isGo := q.(*ssa.Go); isGo && !again[q] && !reachFrom(q, nil)[g] {
				continue
			}
			if own {
				// handed over through a channel, and left alone afterwards
				if !p.write && !sentAfter[o] {
					continue
				}
				if p.write && !sentAfter[o] && !a.write {
					continue
				}
				if !sentAfter[o] {
					continue
				}
				C.fail("used-after-send", what, "%s%s is written after it was sent: %s", H.describe(o), a.l.path, H.where(a))
				continue
			}
			if an != nil && !reachFrom(g, an)[q] {
				continue // another object by then
			}
			C.fail("race", what, "%s%s is used by the goroutine (%s) and, while it runs, by %s", H.describe(o), a.l.path, H.where(a), H.where(p))
		}
	}
}

func accKey(a haccess) string { return fmt.Sprintf("%d|%p", a.c.id, a.ins) }

func (H *Heap) describe(o *hobj) string {
	switch o.kind {
	case "root":
		return "the argument " + o.label
	case "global":
		return "the package variable " + o.label
	}
	if o.site != nil {
		p := H.P.fset.Position(o.site.Pos())
		return fmt.Sprintf("the object made in %s (line %d)", fname(o.ctx.fn), p.Line)
	}
	return "an object"
}

// writesAfterSend: objects written by the goroutine after it sent them away.
func (H *Heap) writesAfterSend(in map[*hctx]bool) map[*hobj]bool {
	r := map[*hobj]bool{}
	for c := range in {
		for _, b := range c.fn.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Send)
				if !ok {
					continue
				}
				sent := map[*hobj]bool{}
				var add func(l *hloc, d int)
				add = func(l *hloc, d int) {
					if sent[l.o] || d > 4 {
						return
					}
					sent[l.o] = true
					for _, m := range l.o.locs {
						for k := range H.cont[m] {
							add(k, d+1)
						}
					}
				}
				for _, p := range leaves(s.X.Type()) {
					for l := range H.n(c, s.X, p) {
						add(l, 0)
					}
				}
				after := reachFrom(s, nil)
				for _, a := range H.acc {
					if !a.write || !sent[a.l.o] || !in[a.c] {
						continue
					}
					q := a.ins
					if a.c != c {
						if q = siteIn(c, a.c); q == nil {
							continue
						}
					}
					if after[q] {
						r[a.l.o] = true
					}
				}
			}
		}
	}
	return r
}

// ---------- locks ----------

func lockOp(ins ssa.Instruction) (op string, mu ssa.Value) {
	ci, ok := ins.(ssa.CallInstruction)
	if !ok {
		return "", nil
	}
	f := ci.Common().StaticCallee()
	if f == nil {
		return "", nil
	}
	switch f.RelString(nil) {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return "lock", ci.Common().Args[0]
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return "unlock", ci.Common().Args[0]
	case "(*sync.RWMutex).RLock":
		return "rlock", ci.Common().Args[0]
	case "(*sync.RWMutex).RUnlock":
		return "unlock", ci.Common().Args[0]
	}
	return "", nil
}

type lockState struct {
	held     map[*hloc]bool // certainly held
	released map[*hloc]bool // possibly given back before
}

func (s lockState) clone() lockState {
	r := lockState{map[*hloc]bool{}, map[*hloc]bool{}}
	for k := range s.held {
		r.held[k] = true
	}
	for k := range s.released {
		r.released[k] = true
	}
	return r
}

// locks: the accesses made while some lock is certainly held.
func (H *Heap) locks() map[string]bool {
	if H.lockMemo == nil {
		H.lockMemo, H.relock = H.lockFlow()
	}
	return H.lockMemo
}

func (H *Heap) lockFlow() (map[string]bool, []string) {
	out := map[string]bool{}
	var again []string
	acc := map[string]bool{}
	for _, a := range H.acc {
		acc[accKey(a)] = true
	}
	busy := map[*hctx]bool{}
	visited := map[string]bool{}
	var run func(c *hctx, in lockState) lockState
	one := func(s hset) *hloc {
		if len(s) != 1 {
			return nil
		}
		for l := range s {
			return l
		}
		return nil
	}
	run = func(c *hctx, in lockState) lockState {
		if busy[c] {
			return in
		}
		busy[c] = true
		defer func() { busy[c] = false }()
		ins := map[*ssa.BasicBlock]*lockState{}
		first := in.clone()
		ins[c.fn.Blocks[0]] = &first
		work := []*ssa.BasicBlock{c.fn.Blocks[0]}
		var exit *lockState
		for n := 0; len(work) > 0 && n < 2000; n++ {
			b := work[0]
			work = work[1:]
			st := ins[b].clone()
			var defs []ssa.Instruction
			for _, x := range c.fn.Blocks {
				for _, y := range x.Instrs {
					if d, ok := y.(*ssa.Defer); ok && x.Dominates(b) {
						defs = append(defs, d)
					}
				}
			}
			for _, x := range b.Instrs {
				k := fmt.Sprintf("%d|%p", c.id, x)
				if len(st.held) > 0 {
					if !visited[k] {
						out[k] = true
					}
				} else {
					delete(out, k)
				}
				visited[k] = true
				op, mu := lockOp(x)
				apply := func(op string, mu ssa.Value) {
					l := one(H.n(c, mu, ""))
					if l == nil {
						return
					}
					switch op {
					case "lock", "rlock":
						if st.released[l] {
							again = append(again, fmt.Sprintf("%s: the lock is given back and taken again in one operation", c.chain()))
						}
						st.held[l] = true
					case "unlock":
						delete(st.held, l)
						st.released[l] = true
					}
				}
				switch y := x.(type) {
				case *ssa.Defer:
					continue
				case *ssa.RunDefers:
					for i := len(defs) - 1; i >= 0; i-- {
						if op, mu := lockOp(defs[i]); op != "" {
							apply(op, mu)
							continue
						}
						for _, d := range H.edges[c][defs[i]] {
							st = run(d, st)
						}
					}
				case *ssa.Go:
					for _, d := range H.edges[c][y] {
						run(d, lockState{map[*hloc]bool{}, map[*hloc]bool{}})
					}
				case *ssa.Call:
					if op != "" {
						apply(op, mu)
						continue
					}
					for _, d := range H.edges[c][y] {
						st = run(d, st)
					}
				}
				if _, ok := x.(*ssa.Return); ok {
					if exit == nil {
						e := st.clone()
						exit = &e
					} else {
						for l := range exit.held {
							if !st.held[l] {
								delete(exit.held, l)
							}
						}
						for l := range st.released {
							exit.released[l] = true
						}
					}
				}
			}
			for _, s := range b.Succs {
				if ins[s] == nil {
					e := st.clone()
					ins[s] = &e
					work = append(work, s)
					continue
				}
				ch := false
				for l := range ins[s].held {
					if !st.held[l] {
						delete(ins[s].held, l)
						ch = true
					}
				}
				for l := range st.released {
					if !ins[s].released[l] {
						ins[s].released[l] = true
						ch = true
					}
				}
				if ch {
					work = append(work, s)
				}
			}
		}
		if exit == nil {
			return in
		}
		return *exit
	}
	run(H.root, lockState{map[*hloc]bool{}, map[*hloc]bool{}})
	return out, again
}

// guarded: every access of a method to what its receiver holds happens under its lock, in one go.
func (C *Ctx) guarded(name string, floor int) {
	C.run("lock of "+name, func() {
		H := C.heap(name)
		locked := H.locks()
		n := 0
		for _, a := range H.acc {
			if a.l.o.kind != "root" || a.l.o.root != 0 {
				continue
			}
			if op, _ := lockOp(a.ins); op != "" {
				continue
			}
			if ci, ok := a.ins.(ssa.CallInstruction); ok {
				if f := ci.Common().StaticCallee(); f != nil && strings.Contains(f.RelString(nil), "sync/atomic") {
					n++
					continue
				}
			}
			n++
			C.need(locked[accKey(a)], "unlocked", name, "%s%s is used without holding the lock: %s", H.describe(a.l.o), a.l.path, H.where(a))
		}
		for _, s := range H.relock {
			C.need(false, "split-lock", name, "%s", s)
		}
		C.floor("accesses under lock in "+name, n, floor)
	})
}

func init() {
	reg("C18", "proof", "every pair of accesses to the same storage by a goroutine of a search and by another run of it, another goroutine or the code that started it, by context-sensitive points-to analysis with allocation per iteration and hand-over by channel; and, for feature sets and node numbers, every access to the receiver's fields is made in one stretch of holding its lock (must-hold dataflow)", func(C *Ctx) {
		for _, e := range []string{"cv.Grid", "cv.GradientGrid", "cv.HybridGradientGrid", "cv.GradStep", "cv.ParamaterGradStep"} {
			C.shares(e)
		}
		C.floor("goroutine starts in the searches", C.counts["goroutine starts"], 4)
		C.guarded("(*boo.Feats).Add", 4)
		C.guarded("(*utils.idGiver).Next", 2)
	})
}
