package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("C01", "proof", "every step of saving and loading (node packing and unpacking, the two tree walks, the metadata, the two model walks) compared in canonical form with a reference writer and reader that are each other's inverse; the on-disk types checked to carry every field; everything prediction reads checked to be restored", func(C *Ctx) {
		C.Flow(Flow{fn: "boo.vdNode", spec: "boo.veNode", bis: true, result: true})
		C.Flow(Flow{fn: "boo.vdNodeOut", spec: "boo.veNodeOut", bis: true, result: true})
		C.Flow(Flow{fn: "boo.vdKids", spec: "boo.veKids", bis: true, result: true})
		C.Flow(Flow{fn: "boo.vdSame", spec: "boo.veSame", bis: true, result: true})
		C.Flow(Flow{fn: "boo.vdKid", spec: "boo.veKid", bis: true, result: true})
		C.Flow(Flow{fn: "boo.vdLeft", spec: "boo.veLeft", bis: true, result: true})
		C.Flow(Flow{fn: "boo.vdRight", spec: "boo.veRight", bis: true, result: true})
		C.Equiv(Equiv{fn: "(*utils.idGiver).Next", spec: "utils.vsNextID"})
		saveFlows(C)
		loadFlows(C)
		C.sharedTails([]string{"boo.UnJSONMultiClass", "utils.UnJSONTree", "boo.JSONMultiClass", "utils.JSONTree"})
		C.jsonTypes()
		C.restored()
	})
}

// jsonTypes: the structures that go through encoding/json lose nothing on the way.
func (C *Ctx) jsonTypes() {
	C.run("types on disk", func() {
		P := C.P
		out, in := map[*types.Named]bool{}, map[*types.Named]bool{}
		for _, f := range P.all {
			if P.isSpec(f) || !P.own(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					c, ok := i.(ssa.CallInstruction)
					if !ok || c.Common().StaticCallee() == nil {
						continue
					}
					k := -1
					switch fname(c.Common().StaticCallee()) {
					case "encoding/json.Marshal":
						k = 0
					case "encoding/json.Unmarshal":
						k = 1
					default:
						continue
					}
					v := c.Common().Args[k]
					if m, ok := v.(*ssa.MakeInterface); ok {
						v = m.X
					}
					n, ok := deref(v.Type()).(*types.Named)
					if !ok {
						C.need(false, "type", fname(f), "%s: a value of type %v goes through encoding/json: not a known structure", P.pos(c.Pos()), v.Type())
						continue
					}
					if k == 0 {
						out[n] = true
					} else {
						in[n] = true
					}
				}
			}
		}
		C.floor("types on disk", len(out), 2)
		for n := range out {
			nm := short(n.String())
			C.need(in[n], "type", nm, "%s is written but never read back", nm)
			ms := types.NewMethodSet(types.NewPointer(n))
			for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"} {
				C.need(ms.Lookup(n.Obj().Pkg(), m) == nil, "type", nm, "%s has its own %s", nm, m)
			}
			st, ok := n.Underlying().(*types.Struct)
			if !C.need(ok, "type", nm, "%s is not a structure", nm) {
				continue
			}
			names := map[string]bool{}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				tag, opts, _ := strings.Cut(reflect.StructTag(st.Tag(i)).Get("json"), ",")
				key := tag
				if key == "" {
					key = f.Name()
				}
				w := nm + "." + f.Name()
				C.need(f.Exported(), "field", w, "%s is not exported: it is not written", w)
				C.need(tag != "-" || opts != "", "field", w, "%s is excluded from the file", w)
				C.need(!f.Embedded(), "field", w, "%s is embedded", w)
				C.need(!names[strings.ToLower(key)], "field", w, "%s is stored under the same name as another field", w)
				names[strings.ToLower(key)] = true
				C.need(!strings.Contains(key, "ROUND") && !strings.Contains(key, "CLASS"), "field", w, "%s is stored under a name the reader takes for a heading", w)
				C.need(plainType(f.Type()), "field", w, "%s has type %v, which may not survive encoding/json", w, f.Type())
				C.count("fields on disk", 1)
			}
		}
	})
}

func plainType(t types.Type) bool {
	switch u := t.(type) {
	case *types.Basic:
		return u.Info()&(types.IsInteger|types.IsFloat|types.IsBoolean|types.IsString) != 0
	case *types.Slice:
		b, ok := u.Elem().(*types.Basic)
		return ok && b.Kind() != types.Byte && plainType(b)
	}
	return false
}

// restored: what a model is asked about is decided by what loading fills in.
func (C *Ctx) restored() {
	C.run("fields restored", func() {
		P := C.P
		reach := func(roots []string) map[*ssa.Function]bool {
			r := map[*ssa.Function]bool{}
			var add func(f *ssa.Function)
			add = func(f *ssa.Function) {
				if f == nil || r[f] || !P.own(f) || len(f.Blocks) == 0 || P.isSpec(f) {
					return
				}
				r[f] = true
				C.fns[fname(f)] = true
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						for _, o := range i.Operands(nil) {
							if g, ok := (*o).(*ssa.Function); ok {
								add(g)
							}
						}
						if c, ok := i.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
							for _, g := range P.implementers(c.Common().Value.Type(), c.Common().Method.Name()) {
								add(g)
							}
						}
					}
				}
				for _, a := range f.AnonFuncs {
					add(a)
				}
			}
			for _, n := range roots {
				add(C.fn(n))
			}
			return r
		}
		fields := func(fs map[*ssa.Function]bool, written bool) map[string]string {
			r := map[string]string{}
			for f := range fs {
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						a, ok := i.(*ssa.FieldAddr)
						if !ok {
							continue
						}
						n, ok := deref(a.X.Type()).(*types.Named)
						if !ok || (short(n.String()) != "boo.Tree" && short(n.String()) != "boo.MultiClass") {
							continue
						}
						w := false
						for _, u := range *a.Referrers() {
							if s, ok := u.(*ssa.Store); ok && s.Addr == a {
								w = true
							}
						}
						if w == written {
							r[short(n.String())+"."+fieldName(n, a.Field)] = P.pos(a.Pos())
						}
					}
				}
			}
			return r
		}
		uses := reach([]string{"(*boo.MultiClass).PredictSingle", "(*boo.MultiClass).PredictSingleClass", "(*boo.MultiClass).Accuracy", "(*boo.MultiClass).FeatureImportance", "(*boo.MultiClass).ClassLabels", "(*boo.MultiClass).Classes", "(*boo.MultiClass).Rounds", "(*boo.Tree).Predict", "(*boo.Tree).PredictSingle", "(*boo.Tree).FeatureImportance"})
		load := reach([]string{"boo.UnJSONMultiClass"})
		back, lazy := fields(load, true), fields(uses, true)
		rd := fields(uses, false)
		for k, at := range rd {
			_, ok := back[k]
			_, own := lazy[k]
			C.need(ok || own, "restored", k, "%s: %s is used by a model but loading does not fill it in", at, k)
		}
		C.floor("fields used", len(rd), 8)
	})
}

// sharedTails: a list that is kept somewhere is not cut short and appended to again
// (which would overwrite what was kept).
func (C *Ctx) sharedTails(roots []string) {
	C.run("lists reused", func() {
		P := C.P
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function)
		walk = func(f *ssa.Function) {
			if f == nil || seen[f] || !P.own(f) || len(f.Blocks) == 0 {
				return
			}
			seen[f] = true
			C.fns[fname(f)] = true
			C.reused(f)
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					for _, o := range i.Operands(nil) {
						if g, ok := (*o).(*ssa.Function); ok {
							walk(g)
						}
					}
				}
			}
			for _, a := range f.AnonFuncs {
				walk(a)
			}
		}
		for _, r := range roots {
			walk(C.fn(r))
		}
	})
}

func (C *Ctx) reused(f *ssa.Function) {
	// families of values that may share a backing array, within the function
	parent := map[ssa.Value]ssa.Value{}
	var find func(v ssa.Value) ssa.Value
	find = func(v ssa.Value) ssa.Value {
		if p, ok := parent[v]; ok && p != v {
			r := find(p)
			parent[v] = r
			return r
		}
		return v
	}
	union := func(a, b ssa.Value) {
		if _, ok := a.(*ssa.Const); ok {
			return
		}
		if _, ok := b.(*ssa.Const); ok {
			return
		}
		parent[find(a)] = find(b)
	}
	isSl := func(v ssa.Value) bool {
		_, ok := v.Type().Underlying().(*types.Slice)
		return ok
	}
	var cuts []*ssa.Slice
	var apps []ssa.Value
	type keep struct {
		i ssa.Instruction
		v ssa.Value
	}
	var keeps []keep
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Phi:
				if isSl(x) {
					for _, e := range x.Edges {
						union(x, e)
					}
				}
			case *ssa.Slice:
				if isSl(x.X) {
					union(x, x.X)
					if x.High != nil && x.Max == nil {
						cuts = append(cuts, x)
					}
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					union(x, x.Call.Args[0])
					apps = append(apps, x.Call.Args[0])
				}
			case *ssa.Store:
				if isSl(x.Val) {
					if _, local := x.Addr.(*ssa.Alloc); !local {
						keeps = append(keeps, keep{i, x.Val})
					}
				}
			case *ssa.MapUpdate:
				if isSl(x.Value) {
					keeps = append(keeps, keep{i, x.Value})
				}
			case *ssa.Send:
				if isSl(x.X) {
					keeps = append(keeps, keep{i, x.X})
				}
			}
		}
	}
	for _, c := range cuts {
		C.count("lists cut short", 1)
		fed := false
		for _, a := range apps {
			fed = fed || find(a) == find(c)
		}
		for _, k := range keeps {
			if fed && find(k.v) == find(c) && reaches(k.i.Block(), c.Block(), k.i, c) {
				C.need(false, "list-reused", fname(f), "%s: a list kept at %s is cut short and appended to again, which overwrites what was kept", C.P.pos(c.Pos()), C.P.pos(k.i.Pos()))
			}
		}
		if ld, ok := c.X.(*ssa.UnOp); ok && fed && ld.Op == token.MUL { // kept where it was loaded from
			if _, local := ld.X.(*ssa.Alloc); !local {
				back := false
				for _, k := range keeps {
					if st, ok := k.i.(*ssa.Store); ok && find(k.v) == find(c) && sameAddr(st.Addr, ld.X) {
						back = true
					}
				}
				C.need(back, "list-reused", fname(f), "%s: a list kept elsewhere is cut short and appended to, which overwrites what was kept", C.P.pos(c.Pos()))
			}
		}
		C.oblig++
	}
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameAddr(x.X, y.X)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && x.Index == y.Index && sameAddr(x.X, y.X)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameAddr(x.X, y.X)
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value == y.Value
	}
	return false
}

// reaches: there is a path from instruction i (in block a) to instruction j (in block b).
func reaches(a, b *ssa.BasicBlock, i, j ssa.Instruction) bool {
	if a == b {
		pi, pj := -1, -1
		for k, x := range a.Instrs {
			if x == i {
				pi = k
			}
			if x == j {
				pj = k
			}
		}
		if pi < pj {
			return true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	w := append([]*ssa.BasicBlock{}, a.Succs...)
	for len(w) > 0 {
		x := w[len(w)-1]
		w = w[:len(w)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b {
			return true
		}
		w = append(w, x.Succs...)
	}
	return false
}

func saveFlows(C *Ctx) {
	C.Flow(Flow{fn: "utils.JSONTree", spec: "utils.vsWriteTree", bis: true, result: true, errs: true, opaque: []string{"utils.JSONTree", "(*utils.idGiver).Next"},
		calls: []FlowCall{{name: "(*utils.idGiver).Next", min: 1, ok: true}, {name: "(utils.JTree).*", ok: true}, {name: "utils.JSONTree", ok: true}, {name: "encoding/json.*", min: 1, ok: true}}})
	C.Flow(Flow{fn: "boo.MarshalMCMetaData", spec: "boo.vsMeta", bis: true, result: true, errs: true, calls: []FlowCall{{name: "encoding/json.*", min: 1}, {name: "sort.*"}, {name: "slices.*"}}})
	C.Flow(Flow{fn: "boo.JSONMultiClass", spec: "boo.vsWriteModel", bis: true, result: true, errs: true, opaque: []string{"boo.MarshalMCMetaData", "utils.JSONTree"},
		calls: []FlowCall{{name: "boo.MarshalMCMetaData", min: 1}, {name: "(boo.writestringer).*", min: 1}, {name: "utils.JSONTree"}, {name: "sort.*"}, {name: "slices.*"}}})
}

func loadFlows(C *Ctx) {
	C.Flow(Flow{fn: "utils.UnJSONTree", spec: "utils.vsReadTree", bis: true, result: true, errs: true, opaque: []string{"utils.UnJSONTree", "(*boo.Tree).Leftf", "(*boo.Tree).Rightf"},
		calls: []FlowCall{{name: "dynamic *", min: 1, ok: true}, {name: "(utils.JTree).*", ok: true}, {name: "(*boo.Tree).*", ok: true, min: 1}, {name: "utils.UnJSONTree", ok: true}, {name: "(*bufio.Reader).*", min: 1}, {name: "encoding/json.*", min: 1, ok: true}}})
	C.Flow(Flow{fn: "boo.UnJSONMultiClass", spec: "boo.vsReadModel", alt: []string{"boo.vsReadModelAhead"}, bis: true, result: true, errs: true, opaque: []string{"utils.UnJSONTree"},
		calls: []FlowCall{{name: "utils.UnJSONTree", min: 1}, {name: "(*bufio.Reader).*", min: 1}, {name: "encoding/json.*", min: 1}, {name: "sort.*"}, {name: "slices.*"}}})
}
