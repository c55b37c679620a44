package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- what results may depend on ----------

func randomLib(name string) bool {
	return strings.Contains(name, "math/rand") || strings.Contains(name, "crypto/rand") || strings.Contains(name, "hash/maphash")
}

// ambient: a library function whose result is not a function of its arguments.
func ambient(name string) bool {
	n := strings.TrimPrefix(strings.TrimPrefix(name, "("), "*")
	for _, p := range []string{"time.Now", "time.Since", "time.Until", "time.After", "time.Tick", "time.NewTimer", "time.NewTicker", "runtime.", "os.Getenv", "os.LookupEnv", "os.Environ", "os.ExpandEnv", "os.Hostname", "os.Getpid", "os.Getppid", "os.Getuid", "os.Getwd", "os.Executable", "os.UserHomeDir", "os.TempDir", "os.MkdirTemp", "os.CreateTemp", "os/exec.", "os/user.", "net.", "net/http.", "syscall.", "os.Stat", "os.Lstat", "os.ReadDir", "(os.File).Stat"} {
		if strings.HasPrefix(n, p) || strings.HasPrefix(name, p) {
			return true
		}
	}
	return strings.HasSuffix(name, "MapKeys") || strings.HasSuffix(name, "MapRange")
}

func (H *Heap) at(c *hctx, ins ssa.Instruction) string { return H.where(haccess{ins: ins, c: c}) }

// mutable: package-level variables some function other than an initialiser writes.
func (C *Ctx) mutable() map[*ssa.Global]bool {
	r := map[*ssa.Global]bool{}
	var all []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		all = append(all, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, f := range C.P.funcs {
		if f.Parent() == nil {
			add(f)
		}
	}
	for _, f := range all {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var v ssa.Value
				switch x := ins.(type) {
				case *ssa.Store:
					v = x.Addr
				case *ssa.MapUpdate:
					v = x.Map
				case ssa.CallInstruction:
					if k, ok := x.Common().Value.(*ssa.Builtin); ok && len(x.Common().Args) > 0 && (k.Name() == "copy" || k.Name() == "delete" || k.Name() == "clear") {
						v = x.Common().Args[0]
					} else if sf := x.Common().StaticCallee(); sf != nil && !C.P.own(sf) { // handed by address: counters, caches, pools
						for _, a := range x.Common().Args {
							if g, ok := a.(*ssa.Global); ok {
								r[g] = true
							}
						}
					}
				}
				for v != nil {
					switch x := v.(type) {
					case *ssa.Global:
						r[x] = true
						v = nil
					case *ssa.FieldAddr:
						v = x.X
					case *ssa.IndexAddr:
						v = x.X
					case *ssa.UnOp:
						v = x.X
					case *ssa.Slice:
						v = x.X
					default:
						v = nil
					}
				}
			}
		}
	}
	return r
}

// determined: nothing reached from the entry draws on anything but the arguments; random
// numbers only below the functions named in may.
func (C *Ctx) determined(name string, mut map[*ssa.Global]bool, may ...string) {
	C.run("what "+name+" depends on", func() {
		H := C.heap(name)
		ok := func(c *hctx) bool {
			for x := c; x != nil; x = x.parent {
				for _, m := range may {
					if fname(x.fn) == m {
						return true
					}
				}
			}
			return false
		}
		for _, l := range H.lib {
			C.oblig++
			if randomLib(l.name) && !ok(l.c) {
				C.fail("random", name, "random numbers are drawn (%s): %s", l.name, H.at(l.c, l.ins))
			}
			if ambient(l.name) {
				C.fail("ambient", name, "the result may depend on %s: %s", l.name, H.at(l.c, l.ins))
			}
			if strings.HasPrefix(l.name, "maps.") && (strings.HasPrefix(l.name[5:], "Keys") || strings.HasPrefix(l.name[5:], "Values") || strings.HasPrefix(l.name[5:], "All")) {
				C.need(onlySorted(l.ins.Value()), "map-order", name, "the order of a map's entries is used: %s", H.at(l.c, l.ins))
			}
		}
		C.count("library calls", len(H.lib))
		globs := map[string]bool{}
		for g := range mut {
			globs[short(g.String())] = true
		}
		for _, a := range H.acc {
			if a.l.o.kind == "global" && !a.write {
				C.need(!globs[a.l.o.label], "global-state", name, "package-level state %s, which changes as the program runs, is read: %s", a.l.o.label, H.where(a))
			}
		}
		ranges := 0
		for _, c := range H.ctxs {
			live := H.live(c)
			for _, b := range c.fn.Blocks {
				if !live[b] {
					continue
				}
				for _, ins := range b.Instrs {
					switch x := ins.(type) {
					case *ssa.Select:
						C.need(len(x.States) < 2 && x.Blocking, "select", name, "which of several channel operations happens is left to the scheduler: %s", H.at(c, ins))
					case *ssa.Range:
						if _, isMap := x.X.Type().Underlying().(*types.Map); isMap {
							ranges++
							why := C.P.orderMatters(x)
							C.need(why == "", "map-order", name, "the order of a map's entries may show in the result (%s): %s", why, H.at(c, ins))
						}
					}
				}
			}
		}
		C.count("map iterations", ranges)
	})
}

func onlySorted(v ssa.Value) bool {
	if v == nil || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil {
				return false
			}
			n := fname(f)
			if i := strings.Index(n, "["); i >= 0 {
				n = n[:i]
			}
			if n != "slices.Sorted" {
				return false
			}
		case *ssa.ChangeType:
			if !onlySorted(x) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// orderMatters: why the result of a loop over a map may depend on the order of its entries ("": it cannot).
func (P *Prog) orderMatters(rg *ssa.Range) string {
	var next *ssa.Next
	for _, r := range *rg.Referrers() {
		if n, ok := r.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return ""
	}
	h := next.Block()
	// the loop: blocks from which the head is reached again
	in := map[*ssa.BasicBlock]bool{h: true}
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if in[b] {
			return
		}
		in[b] = true
		for _, p := range b.Preds {
			back(p)
		}
	}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			back(p)
		}
	}
	key := func(v ssa.Value) bool {
		e, ok := v.(*ssa.Extract)
		return ok && e.Tuple == next && e.Index == 1
	}
	for b := range in {
		for _, s := range b.Succs {
			if !in[s] && b != h {
				return "the loop may end before all entries were seen"
			}
		}
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.MapUpdate:
				if !key(x.Key) {
					return "an entry is written under something other than the key"
				}
			case *ssa.Store:
				switch a := x.Addr.(type) {
				case *ssa.IndexAddr:
					if al, ok := a.X.(*ssa.Alloc); ok && in[al.Block()] {
						continue
					}
					if !key(a.Index) {
						return "an element is written at a position other than the key"
					}
				case *ssa.Alloc:
					if !in[a.Block()] {
						return "a variable is overwritten"
					}
				case *ssa.FieldAddr:
					if al, ok := a.X.(*ssa.Alloc); !ok || !in[al.Block()] {
						return "a field is overwritten"
					}
				default:
					return "something is overwritten"
				}
			case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
				return "it sends or starts something per entry"
			case *ssa.Call:
				if k, ok := x.Call.Value.(*ssa.Builtin); ok {
					if k.Name() == "append" || k.Name() == "len" || k.Name() == "cap" || k.Name() == "min" || k.Name() == "max" || (k.Name() == "delete" && key(x.Call.Args[1])) {
						continue
					}
					return "it calls " + k.Name()
				}
				f := x.Call.StaticCallee()
				if f == nil || !(P.pureFunc(f) || pureLib(fname(f))) {
					return "it calls something with effects"
				}
			}
		}
	}
	for _, ins := range h.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		for i, e := range p.Edges {
			if !in[h.Preds[i]] {
				continue
			}
			if why := commutes(p, e, in, 0); why != "" {
				return why
			}
		}
	}
	return ""
}

func pureLib(n string) bool {
	return strings.HasPrefix(n, "math.") || strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "strconv.") || n == "fmt.Sprintf" || n == "fmt.Sprint"
}

// commutes: how the loop-carried value p is updated to e gives the same in any order.
func commutes(p *ssa.Phi, e ssa.Value, in map[*ssa.BasicBlock]bool, d int) string {
	if e == p || d > 6 {
		return ""
	}
	switch x := e.(type) {
	case *ssa.Phi:
		for _, y := range x.Edges {
			if why := commutes(p, y, in, d+1); why != "" {
				return why
			}
		}
		return ""
	case *ssa.BinOp:
		b, ok := x.Type().Underlying().(*types.Basic)
		if ok && b.Info()&types.IsInteger != 0 && (x.Op == token.ADD || x.Op == token.OR || x.Op == token.AND || x.Op == token.XOR) && (x.X == p || x.Y == p) {
			return ""
		}
		return "values are combined in the order of the entries"
	case *ssa.Call:
		if k, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch k.Name() {
			case "min", "max":
				return ""
			case "append":
				if x.Call.Args[0] == p && sortedNext(p, in) {
					return ""
				}
				return "a list is filled in the order of the entries and not sorted"
			}
		}
	case *ssa.Const:
		return ""
	}
	return "a variable takes a value from whichever entry comes last"
}

// sortedNext: what follows the loop sorts the list before anything else reads it.
func sortedNext(p *ssa.Phi, in map[*ssa.BasicBlock]bool) bool {
	var sorts []ssa.Instruction
	var others []ssa.Instruction
	var uses func(v ssa.Value, d int)
	uses = func(v ssa.Value, d int) {
		for _, r := range *v.Referrers() {
			if in[r.Block()] {
				continue
			}
			if c, ok := r.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil {
					n := fname(f)
					if i := strings.Index(n, "["); i >= 0 {
						n = n[:i]
					}
					switch n {
					case "sort.Ints", "sort.Strings", "sort.Float64s", "slices.Sort":
						sorts = append(sorts, r)
						continue
					}
				}
			}
			if mi, ok := r.(*ssa.MakeInterface); ok && d < 3 {
				uses(mi, d+1)
				continue
			}
			if ct, ok := r.(*ssa.ChangeType); ok && d < 3 {
				uses(ct, d+1)
				continue
			}
			others = append(others, r)
		}
	}
	uses(p, 0)
	if len(sorts) == 0 {
		return false
	}
	for _, o := range others {
		ok := false
		for _, s := range sorts {
			if s.Block() == o.Block() {
				for _, i := range s.Block().Instrs {
					if i == s {
						ok = true
						break
					}
					if i == o {
						break
					}
				}
			} else if s.Block().Dominates(o.Block()) {
				ok = true
			}
		}
		if _, dbg := o.(*ssa.DebugRef); !ok && !dbg {
			return false
		}
	}
	return true
}

var fixed21 = []string{
	"(*boo.MultiClass).PredictSingle", "(*boo.MultiClass).PredictSingleClass", "(*boo.MultiClass).Accuracy", "(*boo.MultiClass).FeatureImportance",
	"(*boo.MultiClass).ClassLabels", "(*boo.MultiClass).Rounds", "(*boo.Tree).Predict", "(*boo.Tree).PredictSingle", "(*boo.Tree).FeatureImportance", "(*boo.Tree).Print",
	"confu.MCConfusions", "(*confu.Confusions).TopNForLabelM", "(*confu.Confusions).TopNPerLabel", "(*confu.Confusions).Matrix", "(*confu.Confusions).PrintTopN", "confu.ReadNameMap",
	"boo.JSONMultiClass", "boo.UnJSONMultiClass", "utils.DataBunchFromCSVFile", "utils.DataBunchFromLibSVMFile", "utils.ParseCSVFromReader", "utils.ParseLibSVMFromReader", "(*utils.DataBunch).CSV", "(*utils.DataBunch).LibSVM",
}

func init() {
	reg("C21", "proof", "everything reachable (calls resolved by points-to analysis) from prediction, evaluation, ranking, confusion, reading and saving: no call that draws random numbers or asks for the time, environment or system, no loop over a map whose order can show, no choice between channels, no package-level state that changes; from training: the same, with random numbers only below the sampling function, whose calls (condition and arguments, by canonical value) are compared with the property", func(C *Ctx) {
		mut := C.mutable()
		for _, e := range fixed21 {
			C.determined(e, mut)
		}
		C.floor("entry points", len(fixed21), 20)
		C.determined("boo.NewMultiClass", mut, "boo.SubSample")
		train(C, nil, nil, fcSub)
		C.floor("library calls reached", C.counts["library calls"], 60)
	})
}
