package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var readers = []string{"utils.DataBunchFromCSVFile", "utils.ParseCSVFromReader", "utils.DataBunchFromLibSVMFile", "utils.ParseLibSVMFromReader", "confu.ReadNameMap", "boo.UnJSONMultiClass", "utils.UnJSONTree"}

func init() {
	reg("C14", "proof", "every index, slice, assertion and explicit panic reachable from a reader: the conditions it is reached under contradict its failing (bounds by interval reasoning over list lengths); and what each reader accepts, refuses and returns compared in canonical form with a reference reader that substitutes nothing", func(C *Ctx) {
		readerFlows(C)
		loadFlows(C)
		for _, r := range readers {
			C.bounds(r)
		}
		C.floor("indexing operations", C.counts["indexing operations"], 10)
	})
	reg("C15", "proof", "the conditions under which each reader and writer reports an error, in terms of the results of every open, read, write, flush and close it makes, compared in canonical form with a reference; a typestate check that every file opened is closed on every path; and a check that no error result of an input/output call goes unlooked at", func(C *Ctx) {
		readerFlows(C)
		loadFlows(C)
		saveFlows(C)
		C.Flow(Flow{fn: "cv.writeBest", spec: "cv.vsWriteBest", alt: []string{"cv.vsWriteBestCloses", "cv.vsWriteBestEnd", "cv.vsWriteBestNamed"}, bis: true, result: true, errs: true, opaque: []string{"boo.NewMultiClass", "boo.JSONMultiClass"},
			calls: []FlowCall{{name: "os.*", min: 1}, {name: "boo.JSONMultiClass", min: 1}, {name: "bufio.New*"}, {name: "(*bufio.Writer).*", min: 1}}})
		C.filesClosed()
		C.errorsSeen()
	})
}

// bounds: nothing indexed, sliced or asserted on the way can be out of range.
func (C *Ctx) bounds(fn string) {
	C.run("bounds in "+fn, func() {
		P := C.P
		f := C.fn(fn)
		P.nocut, P.even = false, false
		g := C.flatGraph(f, []string{"utils.UnJSONTree"}, map[*Term]bool{}, nil)
		C.analysed(g)
		for _, n := range g.rpo {
			if n.kind != "" {
				continue
			}
			where := fname(n.fr.fn)
			bad := fails(g, n)
			if x, ok := n.ins.(*ssa.Call); ok && x.Call.IsInvoke() && isError(x.Call.Value.Type()) {
				C.oblig++
				C.need(nonNil(x.Call.Value, x.Block(), map[ssa.Value]bool{}), "nil-error", where, "%s: a method is called on an error that may be nil", P.pos(n.pos()))
			}
			if len(bad) == 0 {
				continue
			}
			C.count("indexing operations", 1)
			if dominated(n.ins) {
				C.oblig++
				continue
			}
			gd := g.RB(g.guard(n))
			for _, b := range bad {
				C.oblig++
				q := band(gd, g.RB(b))
				if c := feasible(g, q); c != "" {
					if n.fr.fn != f && C.ownBounds(n.fr.fn, n.ins) {
						continue
					}
					if os.Getenv("BOOCHECK_BND") != "" {
						fmt.Printf("BND guard %.1500s\n bad %.1500s\n", clipB(gd), clipB(g.RB(b)))
					}
					C.fail("bounds", where, "%s: %v may be out of range or fail, as when %s", P.pos(n.pos()), n.ins, c)
				}
			}
		}
	})
}

// fails: the conditions under which the operation at the node fails.
func fails(g *Graph, n *Node) []B {
	var bad []B // it fails if one of these holds
	switch x := n.ins.(type) {
	case *ssa.IndexAddr:
		if a, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
			if c, ok := x.Index.(*ssa.Const); ok && c.Int64() < a.Len() {
				return nil
			}
		}
		i := g.at(n, x.Index)
		bad = []B{bnot(ilt(i, mkLen(g.at(n, x.X)))), ilt(i, numI(0))}
	case *ssa.Index:
		i := g.at(n, x.Index)
		bad = []B{bnot(ilt(i, mkLen(g.at(n, x.X)))), ilt(i, numI(0))}
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			return nil
		}
		i := g.at(n, x.Index)
		bad = []B{bnot(ilt(i, mkLen(g.at(n, x.X)))), ilt(i, numI(0))}
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return nil // an array of known size
		}
		l := mkLen(g.at(n, x.X))
		lo, hi := numI(0), l
		if x.Low != nil {
			lo = g.at(n, x.Low)
		}
		if x.High != nil {
			hi = g.at(n, x.High)
		}
		if x.Low != nil {
			bad = append(bad, ilt(lo, numI(0)), ilt(hi, lo))
		}
		if x.High != nil {
			bad = append(bad, ilt(l, hi), ilt(hi, numI(0)))
		}
		if len(bad) == 0 {
			return nil
		}
	case *ssa.Panic:
		bad = []B{BTrue}
	case *ssa.MapUpdate:
		m := g.R(g.at(n, x.Map))
		if m.op == "mkmap" {
			return nil
		}
		bad = []B{isnil(m)}
	default:
		return nil
	}
	return bad
}

func isError(t types.Type) bool { return t.String() == "error" }

// nonNil: the value is not nil where the block runs, by the tests that dominate it.
func nonNil(v ssa.Value, b *ssa.BasicBlock, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	defer delete(seen, v)
	for x := b; x != nil && x.Idom() != nil; x = x.Idom() {
		d := x.Idom()
		if len(x.Preds) != 1 || x.Preds[0] != d {
			continue
		}
		f, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		yes := d.Succs[0] == x
		switch t := f.Cond.(type) {
		case *ssa.BinOp:
			l, r := t.X, t.Y
			if r == v {
				l, r = r, l
			}
			if l != v || (t.Op != token.EQL && t.Op != token.NEQ) {
				continue
			}
			k, ok := r.(*ssa.Const)
			if ok && k.Value == nil {
				if (t.Op == token.NEQ) == yes {
					return true
				}
			} else if (t.Op == token.EQL) == yes {
				return true // one of the errors there are
			}
		case *ssa.Call:
			for _, a := range t.Call.Args {
				if a == v {
					return true // looked at elsewhere
				}
			}
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		return false
	case *ssa.Phi:
		for i, e := range x.Edges {
			if !nonNil(e, x.Block().Preds[i], seen) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		return false
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			return fname(f) == "fmt.Errorf" || fname(f) == "errors.New"
		}
		return false
	}
	return true // not followed
}

// ownBounds: the operation is safe whatever its function is given.
func (C *Ctx) ownBounds(f *ssa.Function, i ssa.Instruction) bool {
	g := C.flatGraph(f, []string{"utils.UnJSONTree"}, map[*Term]bool{}, nil)
	met := false
	for _, n := range g.rpo {
		if n.kind != "" || n.ins != i || n.fr != g.rootFrame() {
			continue
		}
		met = true
		gd := g.RB(g.guard(n))
		for _, b := range fails(g, n) {
			if feasible(g, band(gd, g.RB(b))) != "" {
				return false
			}
		}
	}
	return met
}

// pairRead: x and y are, along a loop, the record and the error of the same read.
func pairRead(g *Graph, x, y *Term) bool {
	if len(x.args) != len(y.args) || (len(x.args) > 0 && x.args[0] != y.args[0]) {
		return false
	}
	mx, my := g.muOf(x), g.muOf(y)
	if mx == nil || my == nil || mx.L != my.L {
		return false
	}
	g.muParts(mx)
	g.muParts(my)
	is := func(a, b *Term) bool {
		return a != nil && b != nil && a.op == "ext" && a.s == "0" && b.op == "ext" && b.s == "1" && a.args[0] == b.args[0] && a.args[0].op == "res" && strings.HasPrefix(a.args[0].s, "(*encoding/csv.Reader).Read")
	}
	return is(mx.init, my.init) && is(mx.next, my.next)
}

// dominated: an index that is a constant or a sum, where a test of the length of the very same list
// against a constant dominates it.
func dominated(i ssa.Instruction) bool {
	var x, k ssa.Value
	switch v := i.(type) {
	case *ssa.IndexAddr:
		x, k = v.X, v.Index
	case *ssa.Index:
		x, k = v.X, v.Index
	case *ssa.Lookup:
		x, k = v.X, v.Index
	default:
		return false
	}
	c, ok := k.(*ssa.Const)
	if !ok || c.Int64() < 0 {
		return false
	}
	need := c.Int64() + 1 // len(x) >= need
	for b := i.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil || len(b.Preds) != 1 || b.Preds[0] != d {
			continue
		}
		f, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if askedElsewhere(f.Cond, x) {
			return true
		}
		t, ok := f.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op, l, r := t.Op, t.X, t.Y
		if _, ok := l.(*ssa.Const); ok {
			l, r = r, l
			op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
		}
		lc, ok1 := l.(*ssa.Call)
		rc, ok2 := r.(*ssa.Const)
		if !ok1 || !ok2 {
			continue
		}
		bi, ok := lc.Call.Value.(*ssa.Builtin)
		if !ok || bi.Name() != "len" || !sameLoad(lc.Call.Args[0], x) {
			continue
		}
		n := rc.Int64()
		if d.Succs[0] != b { // the test failed
			op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
		}
		switch {
		case op == token.GTR && n+1 >= need, (op == token.GEQ || op == token.EQL) && n >= need, op == token.NEQ && n == 0 && need == 1:
			return true
		}
	}
	return false
}

// askedElsewhere: the condition is what a function of the module, given the list, says about its length.
func askedElsewhere(c, x ssa.Value) bool {
	if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
		c = u.X
	}
	k, ok := c.(*ssa.Call)
	if !ok || k.Call.StaticCallee() == nil {
		return false
	}
	g := k.Call.StaticCallee()
	for i, a := range k.Call.Args {
		if !sameLoad(a, x) || i >= len(g.Params) || g.Params[i].Referrers() == nil {
			continue
		}
		for _, r := range *g.Params[i].Referrers() {
			if l, ok := r.(*ssa.Call); ok {
				if b, ok := l.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					return true
				}
			}
		}
	}
	return false
}

// sameLoad: the same list, or loaded twice from the same place with nothing stored there between.
func sameLoad(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	la, ok1 := a.(*ssa.UnOp)
	lb, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || la.Op != token.MUL || lb.Op != token.MUL || !sameAddr(la.X, lb.X) {
		return false
	}
	for _, bl := range la.Parent().Blocks {
		for _, i := range bl.Instrs {
			w := false
			switch x := i.(type) {
			case *ssa.Store:
				w = types.Identical(x.Addr.Type(), la.X.Type())
			case *ssa.Call:
				_, bi := x.Call.Value.(*ssa.Builtin)
				f := x.Call.StaticCallee()
				w = !bi && (f == nil || len(f.Blocks) == 0 || f.Pkg == la.Parent().Pkg)
			}
			if w && between(la, i, lb) {
				return false
			}
		}
	}
	return true
}

// between: i may run after a and before b, without a running again.
func between(a, i, b ssa.Instruction) bool {
	return reachesAvoiding(a, i, a) && reachesAvoiding(i, b, a)
}

// reachesAvoiding: there is a path from i to j on which x does not run again.
func reachesAvoiding(i, j, x ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, k int) bool
	walk = func(b *ssa.BasicBlock, k int) bool {
		for ; k < len(b.Instrs); k++ {
			if b.Instrs[k] == j {
				return true
			}
			if b.Instrs[k] == x {
				return false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	for k, y := range i.Block().Instrs {
		if y == i {
			return walk(i.Block(), k+1)
		}
	}
	return false
}

// feasible: a way for q to hold that interval reasoning does not rule out ("" if none).
func feasible(g *Graph, q B) string {
	if q == BFalse {
		return ""
	}
	if q == BTrue {
		return "reached"
	}
	found := ""
	steps := 0
	var walk func(b B, lits map[*Term]bool)
	walk = func(b B, lits map[*Term]bool) {
		if found != "" || b == BFalse {
			return
		}
		if steps++; steps > 20000 {
			found = "(too many cases)"
			return
		}
		if contradictory(g, lits) {
			return
		}
		if b == BTrue {
			var w []string
			for a, v := range lits {
				s := a.String()
				if !v {
					s = "!" + s
				}
				w = append(w, s)
			}
			sort.Strings(w)
			found = strings.Join(w, " & ")
			if found == "" {
				found = "always"
			}
			return
		}
		a, t, e := bddVars[bddNodes[b].v], bddNodes[b].hi, bddNodes[b].lo
		for i, x := range []B{t, e} {
			l2 := map[*Term]bool{a: i == 0}
			for k, v := range lits {
				l2[k] = v
			}
			walk(x, l2)
		}
	}
	walk(q, map[*Term]bool{})
	return found
}

type interval struct {
	lo, hi     int64
	hasL, hasH bool
	ne         map[int64]bool
}

// contradictory: the literals cannot all hold, by the bounds they put on each quantity.
func contradictory(g *Graph, lits map[*Term]bool) bool {
	iv := map[*Term]*interval{}
	get := func(t *Term) *interval {
		if iv[t] == nil {
			iv[t] = &interval{ne: map[int64]bool{}}
			if t.op == "len" {
				iv[t].hasL = true
				// a record that was read has a field at least; so has what strings.Split gives
				x := t.args[0]
				if x.op == "call" && x.s == "strings.Split" && x.args[1].op == "str" && x.args[1].s != "" {
					iv[t].lo = 1
				}
				if x.op == "ext" && x.s == "0" && x.args[0].op == "res" && strings.HasPrefix(x.args[0].s, "(*encoding/csv.Reader).Read") {
					if v, ok := lits[T("isnil", "", mkExt(x.args[0], 1))]; ok && v {
						iv[t].lo = 1
					}
				}
				if x.op == "mu" { // the same, of a record and an error carried along a loop
					for y, v := range lits {
						if v && y.op == "isnil" && y.args[0].op == "mu" && pairRead(g, x, y.args[0]) {
							iv[t].lo = 1
						}
					}
				}
			}
		}
		return iv[t]
	}
	for a, v := range lits {
		if a.op != "le0" && a.op != "eq0" {
			continue
		}
		t, c, k, ok := linear1(a.args[0]) // k*t + c
		if !ok {
			continue
		}
		I := get(t)
		up := func(x int64) {
			if !I.hasH || x < I.hi {
				I.hi, I.hasH = x, true
			}
		}
		dn := func(x int64) {
			if !I.hasL || x > I.lo {
				I.lo, I.hasL = x, true
			}
		}
		switch {
		case a.op == "eq0" && v:
			if c%k != 0 {
				return true
			}
			up(-c / k)
			dn(-c / k)
		case a.op == "eq0":
			if c%k == 0 {
				I.ne[-c/k] = true
			}
		case v && k > 0: // t <= -c/k
			up(floorDiv(-c, k))
		case v: // k<0: t >= c/-k
			dn(-floorDiv(-c, -k))
		case k > 0: // k*t+c >= 1
			dn(-floorDiv(c-1, k))
		default: // -|k| t + c >= 1: t <= (c-1)/|k|
			up(floorDiv(c-1, -k))
		}
	}
	for _, I := range iv {
		for I.hasL && I.ne[I.lo] {
			I.lo++
		}
		for I.hasH && I.ne[I.hi] {
			I.hi--
		}
		if I.hasL && I.hasH && I.lo > I.hi {
			return true
		}
	}
	return false
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// linear1: p = k*t + c with integers k and c.
func linear1(p *Term) (t *Term, c, k int64, ok bool) {
	for _, m := range monosOf(p) {
		if !m.c.IsInt() {
			return
		}
		switch len(m.f) {
		case 0:
			c = m.c.Num().Int64()
		case 1:
			if t != nil {
				return nil, 0, 0, false
			}
			t, k = m.f[0], m.c.Num().Int64()
		default:
			return nil, 0, 0, false
		}
	}
	return t, c, k, t != nil
}

// filesClosed: on every path from a successful open the file is closed (or its closing deferred).
func (C *Ctx) filesClosed() {
	C.run("files closed", func() {
		P := C.P
		opens := 0
		for _, f := range P.all {
			if !P.own(f) || P.isSpec(f) || len(f.Blocks) == 0 {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					c, ok := i.(*ssa.Call)
					if !ok || c.Call.StaticCallee() == nil {
						continue
					}
					switch fname(c.Call.StaticCallee()) {
					case "os.Open", "os.Create", "os.OpenFile", "os.CreateTemp":
					default:
						continue
					}
					opens++
					C.oblig++
					C.fns[fname(f)] = true
					var file, err ssa.Value
					for _, r := range *c.Referrers() {
						if e, ok := r.(*ssa.Extract); ok {
							if e.Index == 0 {
								file = e
							} else {
								err = e
							}
						}
					}
					C.need(err != nil && len(*err.Referrers()) > 0, "open", fname(f), "%s: whether the file could be opened is not looked at", P.pos(c.Pos()))
					if file == nil {
						C.need(false, "open", fname(f), "%s: the opened file is dropped", P.pos(c.Pos()))
						continue
					}
					if at := C.leak(f, c, file, err, map[*ssa.Function]bool{}); at != "" {
						C.need(false, "close", fname(f), "%s: the file opened here is not closed on the way to %s", P.pos(c.Pos()), at)
					}
				}
			}
		}
		C.floor("files opened", opens, 4)
		C.count("files opened", opens)
	})
}

// closesFile: the instruction closes the file, or arranges for it to be closed.
func (C *Ctx) closesFile(i ssa.Instruction, same func(ssa.Value) bool, seen map[*ssa.Function]bool) bool {
	ci, ok := i.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if _, ok := i.(*ssa.Go); ok {
		return false
	}
	cc := ci.Common()
	if cc.IsInvoke() {
		return cc.Method.Name() == "Close" && same(cc.Value)
	}
	g := cc.StaticCallee()
	if g == nil {
		return false
	}
	if fname(g) == "(*os.File).Close" {
		return same(cc.Args[0])
	}
	if !C.P.own(g) || seen[g] || len(g.Blocks) == 0 {
		return false
	}
	through := func(v ssa.Value) bool { // closed on every path of g
		seen[g] = true
		defer delete(seen, g)
		return C.leak(g, nil, v, nil, seen) == ""
	}
	for k, a := range cc.Args {
		if same(a) && through(g.Params[k]) {
			return true
		}
	}
	if mk, ok := cc.Value.(*ssa.MakeClosure); ok {
		for k, b := range mk.Bindings {
			if same(b) && through(g.FreeVars[k]) {
				return true
			}
		}
	}
	return false
}

// leak: a return reached (from the instruction, or the start) without the file being closed.
func (C *Ctx) leak(f *ssa.Function, from ssa.Instruction, file, err ssa.Value, seen map[*ssa.Function]bool) string {
	alias := map[ssa.Value]bool{file: true}
	for more := true; more; { // what else is that file
		more = false
		add := func(v ssa.Value) {
			if !alias[v] {
				alias[v], more = true, true
			}
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					if alias[x.Val] {
						if _, ok := x.Addr.(*ssa.Alloc); ok {
							add(x.Addr)
						}
					}
				case *ssa.UnOp:
					if x.Op == token.MUL && alias[x.X] {
						add(x)
					}
				case *ssa.Phi:
					for _, e := range x.Edges {
						if alias[e] {
							add(x)
						}
					}
				case *ssa.MakeInterface:
					if alias[x.X] {
						add(x)
					}
				case *ssa.ChangeInterface:
					if alias[x.X] {
						add(x)
					}
				}
			}
		}
	}
	same := func(v ssa.Value) bool { return alias[v] }
	seenB := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, k int) string
	walk = func(b *ssa.BasicBlock, k int) string {
		for ; k < len(b.Instrs); k++ {
			i := b.Instrs[k]
			if C.closesFile(i, same, seen) {
				return ""
			}
			switch x := i.(type) {
			case *ssa.Return:
				for _, r := range x.Results {
					if same(r) {
						return "" // the caller's now
					}
				}
				return C.P.pos(x.Pos())
			case *ssa.Panic:
				return ""
			}
		}
		next := b.Succs
		if len(b.Instrs) > 0 {
			if c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if k := okSide(c.Cond, err); k >= 0 { // the other side has no file
					next = b.Succs[k : k+1]
				}
			}
		}
		for _, s := range next {
			if seenB[s] {
				continue
			}
			seenB[s] = true
			if at := walk(s, 0); at != "" {
				return at
			}
		}
		return ""
	}
	b, k := f.Blocks[0], 0
	if from != nil {
		b = from.Block()
		for j, x := range b.Instrs {
			if x == from {
				k = j + 1
			}
		}
	}
	return walk(b, k)
}

// okSide: which branch of a test of err against nil is the one without an error (-1: not such a test).
func okSide(c, err ssa.Value) int {
	b, ok := c.(*ssa.BinOp)
	if !ok || err == nil || (b.Op != token.EQL && b.Op != token.NEQ) {
		return -1
	}
	isNil := func(v ssa.Value) bool { k, ok := v.(*ssa.Const); return ok && k.Value == nil }
	is := func(v ssa.Value) bool {
		if v == err {
			return true
		}
		if p, ok := v.(*ssa.Phi); ok {
			for _, e := range p.Edges {
				if e == err {
					return true
				}
			}
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL { // a variable it was put in
			for _, r := range *err.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Val == err && s.Addr == u.X && s.Block() == u.Block() {
					return true
				}
			}
		}
		return false
	}
	if (is(b.X) && isNil(b.Y)) || (is(b.Y) && isNil(b.X)) {
		if b.Op == token.EQL {
			return 0
		}
		return 1
	}
	return -1
}

// errorsSeen: the error of an input/output call (or of an own function that may report
// one) is looked at.
func (C *Ctx) errorsSeen() {
	C.run("errors looked at", func() {
		P := C.P
		io := func(n string) bool {
			for _, p := range []string{"os.", "(*os.File).", "bufio.", "(*bufio.", "io.", "(io.", "encoding/json.", "(*encoding/json", "(*encoding/csv", "strconv.Atoi", "strconv.Parse", "(boo.writestringer)."} {
				if strings.HasPrefix(n, p) {
					return true
				}
			}
			return false
		}
		does := map[*ssa.Function]bool{} // reads or writes, itself or through what it calls
		for more := true; more; {
			more = false
			for _, f := range P.all {
				if does[f] || !P.own(f) || P.isSpec(f) {
					continue
				}
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						if ci, ok := i.(ssa.CallInstruction); ok && !does[f] {
							g := ci.Common().StaticCallee()
							if (g != nil && (does[g] || io(fname(g)))) || (ci.Common().IsInvoke() && io(short(ci.Common().Method.FullName()))) {
								does[f], more = true, true
							}
						}
					}
				}
			}
		}
		n := 0
		for _, f := range P.all {
			if !P.own(f) || P.isSpec(f) || len(f.Blocks) == 0 || f.Pkg == nil || f.Pkg.Pkg.Name() == "main" {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					ci, ok := i.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cc := ci.Common()
					res := cc.Signature().Results()
					if res.Len() == 0 || res.At(res.Len()-1).Type().String() != "error" {
						continue
					}
					nm, own := "", false
					if g := cc.StaticCallee(); g != nil {
						nm, own = fname(g), P.own(g)
					} else if cc.IsInvoke() {
						nm = short(cc.Method.FullName())
					}
					if !io(nm) && !(own && does[cc.StaticCallee()]) {
						continue
					}
					if nm == "(*os.File).Close" { // after reading, or after a failure, or decided by the comparison of the writer
						continue
					}
					n++
					C.oblig++
					C.fns[fname(f)] = true
					call, ok := i.(*ssa.Call)
					used := false
					if ok {
						if res.Len() == 1 {
							used = len(*call.Referrers()) > 0
						}
						for _, r := range *call.Referrers() {
							if e, ok := r.(*ssa.Extract); ok && e.Index == res.Len()-1 && len(*e.Referrers()) > 0 {
								used = true
							}
							if _, ok := r.(*ssa.Return); ok {
								used = true
							}
						}
					}
					C.need(used, "error-dropped", fname(f)+" -> "+nm, "%s: the error of %s is not looked at", P.pos(i.Pos()), nm)
				}
			}
		}
		C.count("calls that may fail", n)
		C.floor("calls that may fail", n, 20)
	})
}
