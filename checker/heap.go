package main

// Points-to and effect analysis: inclusion-based, field-sensitive, with one copy of a
// function per chain of calls leading to it (recursive calls join the outer copy).
// It decides who may write what: the data, options and models a caller passes in,
// package-level state, and what goroutines share.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type hctx struct {
	fn     *ssa.Function
	parent *hctx
	site   ssa.Instruction
	depth  int
	id     int
	consts map[*ssa.Parameter]*ssa.Const // constant arguments
	direct map[*ssa.Parameter]bool
}

type hobj struct {
	id    int
	kind  string // alloc, root, global, func, ext
	site  ssa.Instruction
	ctx   *hctx
	typ   types.Type // of what the object holds
	label string
	up    *hobj // root objects: the object it was reached from
	fn    *ssa.Function
	root  int // parameter number of a root object
	locs  map[string]*hloc
}

type hloc struct {
	o    *hobj
	path string
	id   int
}

type hkey struct {
	c *hctx
	v ssa.Value
	p string
}

type hset map[*hloc]struct{}

type haccess struct {
	l     *hloc
	ins   ssa.Instruction
	c     *hctx
	write bool
	grow  bool // append past the end
	chan_ bool // through a channel operation
}

type Heap struct {
	P        *Prog
	ctxs     []*hctx
	callMap  map[string]*hctx
	edges    map[*hctx]map[ssa.Instruction][]*hctx
	nodes    map[hkey]hset
	cont     map[*hloc]hset
	objs     map[string]*hobj
	nobj     int
	nloc     int
	changed  bool
	acc      []haccess
	final    bool
	root     *hctx
	seeded   map[*hloc]bool
	escape   []string // calls that could not be resolved
	lockMemo map[string]bool
	relock   []string
	fwd      map[*ssa.UnOp]ssa.Value
	liveMemo map[*hctx]map[*ssa.BasicBlock]bool
	lib      []libCall // calls out of the repository's code
}

type libCall struct {
	c    *hctx
	ins  ssa.CallInstruction
	name string
}

// Heap analyses fn with arbitrary arguments.
func (P *Prog) Heap(fn *ssa.Function) *Heap {
	H := &Heap{P: P, callMap: map[string]*hctx{}, edges: map[*hctx]map[ssa.Instruction][]*hctx{}, nodes: map[hkey]hset{}, cont: map[*hloc]hset{}, objs: map[string]*hobj{}, seeded: map[*hloc]bool{}, fwd: map[*ssa.UnOp]ssa.Value{}, liveMemo: map[*hctx]map[*ssa.BasicBlock]bool{}}
	H.root = H.newCtx(fn, nil, nil)
	for i, p := range fn.Params {
		H.seedParam(i, p)
	}
	for n := 0; ; n++ {
		H.changed = false
		for i := 0; i < len(H.ctxs); i++ {
			H.step(H.ctxs[i])
		}
		if !H.changed {
			break
		}
		if n > 200 {
			panic("points-to analysis does not settle")
		}
	}
	H.final = true
	for i := 0; i < len(H.ctxs); i++ {
		H.step(H.ctxs[i])
	}
	return H
}

func (H *Heap) newCtx(fn *ssa.Function, parent *hctx, site ssa.Instruction) *hctx {
	c := &hctx{fn: fn, parent: parent, site: site, id: len(H.ctxs)}
	if parent != nil {
		c.depth = parent.depth + 1
	}
	H.ctxs = append(H.ctxs, c)
	if len(H.ctxs) > 20000 {
		panic("too many calling contexts")
	}
	return c
}

func (H *Heap) callee(c *hctx, site ssa.Instruction, fn *ssa.Function) *hctx {
	k := fmt.Sprintf("%d|%p|%p", c.id, site, fn)
	if r, ok := H.callMap[k]; ok {
		return r
	}
	var r *hctx
	for x := c; x != nil; x = x.parent {
		if x.fn == fn {
			r = x
			break
		}
	}
	if r == nil {
		r = H.newCtx(fn, c, site)
		r.consts, r.direct = map[*ssa.Parameter]*ssa.Const{}, map[*ssa.Parameter]bool{}
		if ci, ok := site.(ssa.CallInstruction); ok {
			as := ci.Common().Args
			off := 0
			if ci.Common().IsInvoke() {
				off = 1
			}
			if len(as)+off == len(fn.Params) {
				for i, a := range as {
					if k, ok := a.(*ssa.Const); ok {
						r.consts[fn.Params[i+off]] = k
						r.direct[fn.Params[i+off]] = true
					} else if p, ok := a.(*ssa.Parameter); ok && c.consts[p] != nil {
						r.consts[fn.Params[i+off]] = c.consts[p]
					}
				}
			}
		}
	} else if len(r.consts) > 0 { // re-entered with other arguments
		for _, d := range H.ctxs { // and what was concluded further down
			for x := d; x != nil; x = x.parent {
				if x == r {
					for p := range d.consts {
						if d == r || !d.direct[p] {
							delete(d.consts, p)
						}
					}
					delete(H.liveMemo, d)
					break
				}
			}
		}
	}
	H.callMap[k] = r
	if H.edges[c] == nil {
		H.edges[c] = map[ssa.Instruction][]*hctx{}
	}
	H.edges[c][site] = append(H.edges[c][site], r)
	H.changed = true
	return r
}

func (H *Heap) obj(key, kind string, c *hctx, site ssa.Instruction, t types.Type) *hobj {
	if o, ok := H.objs[key]; ok {
		return o
	}
	H.nobj++
	o := &hobj{id: H.nobj, kind: kind, site: site, ctx: c, typ: t, root: -1, locs: map[string]*hloc{}}
	H.objs[key] = o
	return o
}

func (H *Heap) loc(o *hobj, path string) *hloc {
	if l, ok := o.locs[path]; ok {
		return l
	}
	H.nloc++
	l := &hloc{o, path, H.nloc}
	o.locs[path] = l
	return l
}

// leaves: the paths inside a value of type t that hold references.
func leaves(t types.Type) []string {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return []string{""}
	case *types.Struct:
		var r []string
		for i := 0; i < u.NumFields(); i++ {
			for _, p := range leaves(u.Field(i).Type()) {
				r = append(r, "."+u.Field(i).Name()+p)
			}
		}
		return r
	case *types.Array:
		var r []string
		for _, p := range leaves(u.Elem()) {
			r = append(r, "[]"+p)
		}
		return r
	case *types.Tuple:
		var r []string
		for i := 0; i < u.Len(); i++ {
			for _, p := range leaves(u.At(i).Type()) {
				r = append(r, fmt.Sprintf("#%d%s", i, p))
			}
		}
		return r
	}
	return nil
}

// at: the type of the part of a value of type t that path names (nil if unknown).
func typeAt(t types.Type, path string) types.Type {
	for path != "" {
		if t == nil {
			return nil
		}
		switch {
		case strings.HasPrefix(path, "[]"):
			path = path[2:]
			switch u := t.Underlying().(type) {
			case *types.Slice:
				t = u.Elem()
			case *types.Array:
				t = u.Elem()
			default:
				return nil
			}
		case strings.HasPrefix(path, "{}"):
			path = path[2:]
			u, ok := t.Underlying().(*types.Map)
			if !ok {
				return nil
			}
			t = u.Elem()
		case strings.HasPrefix(path, "<>"):
			path = path[2:]
			u, ok := t.Underlying().(*types.Chan)
			if !ok {
				return nil
			}
			t = u.Elem()
		case path[0] == '.':
			rest := path[1:]
			n := strings.IndexAny(rest, ".[{<")
			if n < 0 {
				n = len(rest)
			}
			name := rest[:n]
			path = rest[n:]
			u, ok := t.Underlying().(*types.Struct)
			if !ok {
				return nil
			}
			var ft types.Type
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == name {
					ft = u.Field(i).Type()
				}
			}
			t = ft
		default:
			return nil
		}
	}
	return t
}

// holds: what a reference of type t points at.
func holds(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice, *types.Map, *types.Chan:
		return t
	}
	return nil
}

func (H *Heap) seedParam(i int, p *ssa.Parameter) {
	for _, path := range leaves(p.Type()) {
		t := typeAt(p.Type(), path)
		o := H.obj(fmt.Sprintf("root|%d|%s", i, path), "root", nil, nil, nil)
		o.label = p.Name() + path
		o.root = i
		if t != nil {
			o.typ = holds(t)
			if _, ok := t.Underlying().(*types.Signature); ok {
				o.typ = t
			}
		}
		H.addN(H.root, p, path, H.loc(o, ""))
	}
}

// contents of a location; what a caller handed in is filled on demand.
func (H *Heap) get(l *hloc) hset {
	if (l.o.kind == "root" || l.o.kind == "global") && !H.seeded[l] {
		H.seeded[l] = true
		t := typeAt(l.o.typ, l.path)
		if d, ok := denseData(l); ok {
			t = d
		}
		if t != nil {
			switch t.Underlying().(type) {
			case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
				H.addC(l, H.loc(H.child(l, t), ""))
			}
		}
	}
	return H.cont[l]
}

func denseData(l *hloc) (types.Type, bool) {
	if l.path == ".data" && l.o.typ != nil && strings.HasSuffix(l.o.typ.String(), "mat.Dense") {
		return types.NewSlice(types.Typ[types.Float64]), true
	}
	return nil, false
}

func (H *Heap) child(l *hloc, t types.Type) *hobj {
	ht := holds(t)
	if _, ok := t.Underlying().(*types.Signature); ok {
		ht = t
	}
	if ht != nil {
		if _, ok := ht.Underlying().(*types.Struct); ok {
			for o := l.o; o != nil; o = o.up {
				if o.typ != nil && types.Identical(o.typ, ht) {
					return o
				}
			}
		}
	}
	o := H.obj(fmt.Sprintf("child|%d|%s", l.o.id, l.path), l.o.kind, nil, nil, ht)
	o.label = l.o.label + l.path
	o.up = l.o
	o.root = l.o.root
	return o
}

func (H *Heap) n(c *hctx, v ssa.Value, p string) hset {
	switch x := v.(type) {
	case *ssa.Function:
		if p != "" {
			return nil
		}
		return hset{H.loc(H.funcObj(x, nil, nil), ""): {}}
	case *ssa.Global:
		if p != "" {
			return nil
		}
		o := H.obj("global|"+x.String(), "global", nil, nil, deref(x.Type()))
		o.label = short(x.String())
		return hset{H.loc(o, ""): {}}
	case *ssa.Const, *ssa.Builtin:
		return nil
	}
	return H.nodes[hkey{c, v, p}]
}

func (H *Heap) funcObj(f *ssa.Function, c *hctx, mk *ssa.MakeClosure) *hobj {
	k := fmt.Sprintf("func|%p", f)
	if mk != nil {
		k += fmt.Sprintf("|%d|%p", c.id, mk)
	}
	o := H.obj(k, "func", c, nil, f.Signature)
	o.fn = f
	if mk != nil {
		o.site = mk
	}
	o.label = fname(f)
	return o
}

func (H *Heap) addN(c *hctx, v ssa.Value, p string, l *hloc) {
	if H.final {
		return
	}
	k := hkey{c, v, p}
	s := H.nodes[k]
	if s == nil {
		s = hset{}
		H.nodes[k] = s
	}
	if _, ok := s[l]; !ok {
		s[l] = struct{}{}
		H.changed = true
	}
}

func (H *Heap) addAll(c *hctx, v ssa.Value, p string, s hset) {
	for l := range s {
		H.addN(c, v, p, l)
	}
}

func (H *Heap) addC(at *hloc, l *hloc) {
	if H.final {
		return
	}
	s := H.cont[at]
	if s == nil {
		s = hset{}
		H.cont[at] = s
	}
	if _, ok := s[l]; !ok {
		s[l] = struct{}{}
		H.changed = true
	}
}

func (H *Heap) copyN(c *hctx, dst ssa.Value, dp string, sc *hctx, src ssa.Value, sp string, t types.Type) {
	for _, p := range leaves(t) {
		H.addAll(c, dst, dp+p, H.n(sc, src, sp+p))
	}
}

func (H *Heap) read(c *hctx, ins ssa.Instruction, l *hloc) {
	if H.final {
		H.acc = append(H.acc, haccess{l: l, ins: ins, c: c})
	}
}
func (H *Heap) write(c *hctx, ins ssa.Instruction, l *hloc) {
	if H.final {
		H.acc = append(H.acc, haccess{l: l, ins: ins, c: c, write: true})
	}
}

// forward: the value a load is bound to see, stored by the same pointer on the only way here.
func (H *Heap) forward(x *ssa.UnOp) ssa.Value {
	if v, ok := H.fwd[x]; ok {
		return v
	}
	var r ssa.Value
	defer func() { H.fwd[x] = r }()
	same := func(a ssa.Value) int { // 2 the same cell, 0 another, 1 unknown
		if a == x.X {
			return 2
		}
		fa, ok1 := a.(*ssa.FieldAddr)
		fx, ok2 := x.X.(*ssa.FieldAddr)
		if ok1 && ok2 {
			if !types.Identical(fa.X.Type(), fx.X.Type()) || fa.Field != fx.Field {
				return 0
			}
			if fa.X == fx.X {
				return 2
			}
			return 1
		}
		if types.Identical(a.Type(), x.X.Type()) {
			return 1
		}
		return 0
	}
	if _, ok := x.X.(*ssa.FieldAddr); !ok {
		if al, ok := x.X.(*ssa.Alloc); !ok || al == nil {
			return nil
		}
	}
	b := x.Block()
	at := len(b.Instrs)
	for i, ins := range b.Instrs {
		if ins == ssa.Instruction(x) {
			at = i
		}
	}
	for d := 0; d < 12; d++ {
		for i := at - 1; i >= 0; i-- {
			switch y := b.Instrs[i].(type) {
			case *ssa.Store:
				switch same(y.Addr) {
				case 2:
					r = y.Val
					return r
				case 1:
					return nil
				}
			case *ssa.Go, *ssa.Defer, *ssa.RunDefers, *ssa.Send, *ssa.Select:
				return nil
			case *ssa.UnOp:
				if y.Op == token.ARROW {
					return nil
				}
			case *ssa.Call:
				if _, ok := y.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				if f := y.Call.StaticCallee(); f != nil && !H.P.own(f) && fname(f) != "encoding/json.Unmarshal" && !takesFunc(y) {
					continue
				}
				return nil
			}
		}
		if len(b.Preds) != 1 {
			return nil
		}
		b = b.Preds[0]
		at = len(b.Instrs)
	}
	return nil
}

func takesFunc(c *ssa.Call) bool {
	for _, a := range c.Call.Args {
		switch a.Type().Underlying().(type) {
		case *types.Signature, *types.Interface:
			return true
		}
	}
	return false
}

// live: the blocks of c reachable given the constants it is called with.
func (H *Heap) live(c *hctx) map[*ssa.BasicBlock]bool {
	if r, ok := H.liveMemo[c]; ok {
		return r
	}
	r := map[*ssa.BasicBlock]bool{}
	var go_ func(b *ssa.BasicBlock)
	go_ = func(b *ssa.BasicBlock) {
		if r[b] {
			return
		}
		r[b] = true
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			switch c.truth(iff.Cond) {
			case 1:
				go_(b.Succs[0])
				return
			case 0:
				go_(b.Succs[1])
				return
			}
		}
		for _, s := range b.Succs {
			go_(s)
		}
	}
	go_(c.fn.Blocks[0])
	H.liveMemo[c] = r
	return r
}

// truth of a condition on the constants a function is called with: 1, 0 or unknown (-1).
func (c *hctx) truth(v ssa.Value) int {
	k := func(v ssa.Value) *ssa.Const {
		if x, ok := v.(*ssa.Const); ok {
			return x
		}
		if p, ok := v.(*ssa.Parameter); ok {
			return c.consts[p]
		}
		return nil
	}
	if x := k(v); x != nil && x.Value != nil && x.Value.Kind() == constant.Bool {
		if constant.BoolVal(x.Value) {
			return 1
		}
		return 0
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			if t := c.truth(x.X); t >= 0 {
				return 1 - t
			}
		}
	case *ssa.BinOp:
		a, b := k(x.X), k(x.Y)
		if a == nil || b == nil {
			return -1
		}
		same := -1
		if a.Value == nil && b.Value == nil {
			same = 1
		} else if a.Value != nil && b.Value != nil && a.Value.Kind() == b.Value.Kind() {
			same = 0
			if constant.Compare(a.Value, token.EQL, b.Value) {
				same = 1
			}
		}
		if same < 0 {
			return -1
		}
		switch x.Op {
		case token.EQL:
			return same
		case token.NEQ:
			return 1 - same
		}
	}
	return -1
}

func (H *Heap) step(c *hctx) {
	live := H.live(c)
	for _, b := range c.fn.Blocks {
		if !live[b] {
			continue
		}
		for _, ins := range b.Instrs {
			H.instr(c, ins)
		}
	}
}

func (H *Heap) instr(c *hctx, ins ssa.Instruction) {
	site := func(t types.Type) *hloc {
		return H.loc(H.obj(fmt.Sprintf("alloc|%d|%p", c.id, ins), "alloc", c, ins, t), "")
	}
	switch x := ins.(type) {
	case *ssa.Alloc:
		H.addN(c, x, "", site(deref(x.Type())))
	case *ssa.MakeSlice:
		H.addN(c, x, "", site(x.Type()))
	case *ssa.MakeMap:
		H.addN(c, x, "", site(x.Type()))
	case *ssa.MakeChan:
		H.addN(c, x, "", site(x.Type()))
	case *ssa.MakeClosure:
		o := H.funcObj(x.Fn.(*ssa.Function), c, x)
		H.addN(c, x, "", H.loc(o, ""))
	case *ssa.Slice:
		H.addAll(c, x, "", H.n(c, x.X, ""))
	case *ssa.FieldAddr:
		f := "." + fieldName(x.X.Type(), x.Field)
		for l := range H.n(c, x.X, "") {
			H.addN(c, x, "", H.loc(l.o, l.path+f))
		}
	case *ssa.IndexAddr:
		for l := range H.n(c, x.X, "") {
			H.addN(c, x, "", H.loc(l.o, l.path+"[]"))
		}
	case *ssa.Field:
		H.copyN(c, x, "", c, x.X, "."+fieldNameV(x.X.Type(), x.Field), x.Type())
	case *ssa.Index:
		if _, ok := x.X.Type().Underlying().(*types.Array); ok {
			H.copyN(c, x, "", c, x.X, "[]", x.Type())
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if v := H.forward(x); v != nil { // just stored there
				for l := range H.n(c, x.X, "") {
					H.read(c, ins, l)
				}
				H.copyN(c, x, "", c, v, "", x.Type())
				return
			}
			for l := range H.n(c, x.X, "") {
				H.read(c, ins, l)
				for _, p := range leaves(x.Type()) {
					H.addAll(c, x, p, H.get(H.loc(l.o, l.path+p)))
				}
			}
		case token.ARROW:
			pre, t := "", x.Type()
			if x.CommaOk {
				pre, t = "#0", t.(*types.Tuple).At(0).Type()
			}
			for l := range H.n(c, x.X, "") {
				for _, p := range leaves(t) {
					H.addAll(c, x, pre+p, H.get(H.loc(l.o, l.path+"<>"+p)))
				}
			}
		}
	case *ssa.Store:
		for l := range H.n(c, x.Addr, "") {
			H.write(c, ins, l)
			for _, p := range leaves(x.Val.Type()) {
				for m := range H.n(c, x.Val, p) {
					H.addC(H.loc(l.o, l.path+p), m)
				}
			}
		}
	case *ssa.Send:
		for l := range H.n(c, x.Chan, "") {
			for _, p := range leaves(x.X.Type()) {
				for m := range H.n(c, x.X, p) {
					H.addC(H.loc(l.o, l.path+"<>"+p), m)
				}
			}
		}
	case *ssa.MapUpdate:
		for l := range H.n(c, x.Map, "") {
			H.write(c, ins, H.loc(l.o, l.path+"{}"))
			for _, p := range leaves(x.Value.Type()) {
				for m := range H.n(c, x.Value, p) {
					H.addC(H.loc(l.o, l.path+"{}"+p), m)
				}
			}
		}
	case *ssa.Lookup:
		pre, t := "", x.Type()
		if x.CommaOk {
			pre, t = "#0", t.(*types.Tuple).At(0).Type()
		}
		for l := range H.n(c, x.X, "") {
			H.read(c, ins, H.loc(l.o, l.path+"{}"))
			for _, p := range leaves(t) {
				H.addAll(c, x, pre+p, H.get(H.loc(l.o, l.path+"{}"+p)))
			}
		}
	case *ssa.Range:
		H.addAll(c, x, "", H.n(c, x.X, ""))
	case *ssa.Next:
		if !x.IsString {
			t := x.Type().(*types.Tuple)
			for l := range H.n(c, x.Iter, "") {
				H.read(c, ins, H.loc(l.o, l.path+"{}"))
				if mt, ok := typeAt(l.o.typ, l.path).(interface{ Underlying() types.Type }); ok && mt != nil {
					if m, ok := mt.Underlying().(*types.Map); ok {
						for _, p := range leaves(m.Elem()) {
							H.addAll(c, x, "#2"+p, H.get(H.loc(l.o, l.path+"{}"+p)))
						}
						continue
					}
				}
				_ = t
			}
		}
	case *ssa.Extract:
		H.copyN(c, x, "", c, x.Tuple, fmt.Sprintf("#%d", x.Index), x.Type())
	case *ssa.Phi:
		for _, e := range x.Edges {
			H.copyN(c, x, "", c, e, "", x.Type())
		}
	case *ssa.ChangeType:
		H.copyN(c, x, "", c, x.X, "", x.Type())
	case *ssa.ChangeInterface:
		H.addAll(c, x, "", H.n(c, x.X, ""))
	case *ssa.Convert:
		if len(leaves(x.X.Type())) > 0 && len(leaves(x.Type())) > 0 {
			H.addAll(c, x, "", H.n(c, x.X, ""))
		}
		if _, ok := x.Type().Underlying().(*types.Slice); ok { // []byte(s)
			H.addN(c, x, "", site(x.Type()))
		}
	case *ssa.MakeInterface:
		if len(leaves(x.X.Type())) == 1 && leaves(x.X.Type())[0] == "" {
			H.addAll(c, x, "", H.n(c, x.X, ""))
		} else {
			b := site(x.X.Type())
			H.addN(c, x, "", b)
			for _, p := range leaves(x.X.Type()) {
				for m := range H.n(c, x.X, p) {
					H.addC(H.loc(b.o, p), m)
				}
			}
		}
	case *ssa.TypeAssert:
		pre := ""
		if x.CommaOk {
			pre = "#0"
		}
		lv := leaves(x.AssertedType)
		if len(lv) == 1 && lv[0] == "" {
			H.addAll(c, x, pre, H.n(c, x.X, ""))
		} else {
			for l := range H.n(c, x.X, "") {
				for _, p := range lv {
					H.addAll(c, x, pre+p, H.get(H.loc(l.o, l.path+p)))
				}
			}
		}
	case *ssa.Select:
		k := 2
		for _, s := range x.States {
			if s.Dir == types.RecvOnly {
				t := s.Chan.Type().Underlying().(*types.Chan).Elem()
				for l := range H.n(c, s.Chan, "") {
					for _, p := range leaves(t) {
						H.addAll(c, x, fmt.Sprintf("#%d%s", k, p), H.get(H.loc(l.o, l.path+"<>"+p)))
					}
				}
				k++
			} else {
				for l := range H.n(c, s.Chan, "") {
					for _, p := range leaves(s.Send.Type()) {
						for m := range H.n(c, s.Send, p) {
							H.addC(H.loc(l.o, l.path+"<>"+p), m)
						}
					}
				}
			}
		}
	case *ssa.Return:
		for i, r := range x.Results {
			pre := ""
			if len(x.Results) > 1 {
				pre = fmt.Sprintf("#%d", i)
			}
			H.copyN(c, nil, pre, c, r, "", r.Type())
		}
	case ssa.CallInstruction:
		H.call(c, x)
	}
}

func fieldNameV(t types.Type, i int) string {
	return t.Underlying().(*types.Struct).Field(i).Name()
}

func (H *Heap) enter(c *hctx, ins ssa.CallInstruction, fn *ssa.Function, args []func(p string) hset, clo *hobj) {
	d := H.callee(c, ins, fn)
	for i, p := range fn.Params {
		if i >= len(args) || args[i] == nil {
			continue
		}
		for _, lp := range leaves(p.Type()) {
			H.addAll(d, p, lp, args[i](lp))
		}
	}
	if clo != nil && clo.site != nil {
		mk := clo.site.(*ssa.MakeClosure)
		for i, fv := range fn.FreeVars {
			H.copyN(d, fv, "", clo.ctx, mk.Bindings[i], "", fv.Type())
		}
	}
	if v := ins.Value(); v != nil {
		for _, p := range leaves(v.Type()) {
			H.addAll(c, v, p, H.nodes[hkey{d, nil, p}])
		}
	}
}

func (H *Heap) call(c *hctx, ins ssa.CallInstruction) {
	cc := ins.Common()
	arg := func(v ssa.Value) func(string) hset {
		return func(p string) hset { return H.n(c, v, p) }
	}
	var args []func(string) hset
	if cc.IsInvoke() {
		var cands []*ssa.Function
		iface := cc.Value.Type().Underlying().(*types.Interface)
		for _, f := range H.P.methodsNamed(cc.Method.Name(), iface) {
			cands = append(cands, f)
		}
		for _, f := range cands {
			rt := deref(f.Params[0].Type())
			rf := func(p string) hset {
				r := hset{}
				for l := range H.n(c, cc.Value, "") {
					if l.o.typ == nil || l.o.kind == "ext" || types.Identical(l.o.typ, rt) {
						r[l] = struct{}{}
					}
				}
				return r
			}
			as := []func(string) hset{rf}
			for _, a := range cc.Args {
				as = append(as, arg(a))
			}
			H.enter(c, ins, f, as, nil)
		}
		if len(cands) == 0 || !H.P.ownType(cc.Value.Type()) {
			H.external(c, ins, cc.Method.FullName(), cc.Args)
		}
		return
	}
	for _, a := range cc.Args {
		args = append(args, arg(a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		H.builtin(c, ins, b.Name(), cc.Args)
		return
	}
	if f := cc.StaticCallee(); f != nil {
		var clo *hobj
		if mk, ok := cc.Value.(*ssa.MakeClosure); ok {
			clo = H.funcObj(mk.Fn.(*ssa.Function), c, mk)
		}
		if H.P.own(f) && len(f.Blocks) > 0 {
			H.enter(c, ins, f, args, clo)
		} else {
			H.external(c, ins, fname(f), cc.Args)
		}
		return
	}
	// through a function value
	for l := range H.n(c, cc.Value, "") {
		switch {
		case l.o.kind == "func":
			if H.P.own(l.o.fn) && len(l.o.fn.Blocks) > 0 {
				var clo *hobj
				if l.o.site != nil {
					clo = l.o
				}
				H.enter(c, ins, l.o.fn, args, clo)
			} else {
				H.external(c, ins, fname(l.o.fn), cc.Args)
			}
		default: // a function the caller chose: any whose address is taken here
			for _, f := range H.P.taken_() {
				if types.Identical(f.Signature, cc.Value.Type().Underlying()) && len(f.Blocks) > 0 && len(f.FreeVars) == 0 {
					H.enter(c, ins, f, args, nil)
				}
			}
		}
	}
}

// elemsOf: the cells a library function reads or writes through a reference.
func (H *Heap) elemsOf(s hset, t types.Type) []*hloc {
	var r []*hloc
	for l := range s {
		switch u := t.Underlying().(type) {
		case *types.Slice:
			r = append(r, H.loc(l.o, l.path+"[]"))
		case *types.Map:
			r = append(r, H.loc(l.o, l.path+"{}"))
		case *types.Pointer:
			if strings.HasSuffix(u.Elem().String(), "mat.Dense") {
				for d := range H.get(H.loc(l.o, l.path+".data")) {
					r = append(r, H.loc(d.o, d.path+"[]"))
				}
				continue
			}
			r = append(r, l)
		default:
			r = append(r, l)
		}
	}
	return r
}

func (H *Heap) builtin(c *hctx, ins ssa.CallInstruction, name string, a []ssa.Value) {
	switch name {
	case "append":
		v := ins.Value()
		et := v.Type().Underlying().(*types.Slice).Elem()
		nw := H.loc(H.obj(fmt.Sprintf("alloc|%d|%p", c.id, ins), "alloc", c, ins, v.Type()), "")
		fresh := isEmptyBase(a[0])
		H.addN(c, v, "", nw)
		dst := []*hloc{nw}
		for l := range H.n(c, a[0], "") {
			if !fresh {
				H.addN(c, v, "", l)
				dst = append(dst, l)
				if H.final && len(a) > 1 {
					H.acc = append(H.acc, haccess{l: H.loc(l.o, l.path+"[]"), ins: ins, c: c, write: true, grow: !cutShort(a[0])})
				}
			}
			for _, p := range leaves(et) {
				for m := range H.get(H.loc(l.o, l.path+"[]"+p)) {
					H.addC(H.loc(nw.o, "[]"+p), m)
				}
			}
		}
		if len(a) > 1 {
			for l := range H.n(c, a[1], "") {
				H.read(c, ins, H.loc(l.o, l.path+"[]"))
				for _, p := range leaves(et) {
					for m := range H.get(H.loc(l.o, l.path+"[]"+p)) {
						for _, d := range dst {
							H.addC(H.loc(d.o, d.path+"[]"+p), m)
						}
					}
				}
			}
		}
	case "copy":
		st, ok := a[0].Type().Underlying().(*types.Slice)
		if !ok {
			return
		}
		for d := range H.n(c, a[0], "") {
			H.write(c, ins, H.loc(d.o, d.path+"[]"))
			for l := range H.n(c, a[1], "") {
				H.read(c, ins, H.loc(l.o, l.path+"[]"))
				for _, p := range leaves(st.Elem()) {
					for m := range H.get(H.loc(l.o, l.path+"[]"+p)) {
						H.addC(H.loc(d.o, d.path+"[]"+p), m)
					}
				}
			}
		}
	case "clear", "delete":
		for _, l := range H.elemsOf(H.n(c, a[0], ""), a[0].Type()) {
			H.write(c, ins, l)
		}
	}
}

// isEmptyBase: appending to x always makes a new array (nil, or no room left).
func isEmptyBase(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Slice:
		if x.Max != nil {
			if x.Max == x.High {
				return true
			}
			m, ok1 := x.Max.(*ssa.Const)
			h, ok2 := x.High.(*ssa.Const)
			return ok1 && ok2 && m.Int64() == h.Int64()
		}
	}
	return false
}

// cutShort: x is a list cut before its end, so that appending overwrites what follows.
func cutShort(v ssa.Value) bool {
	for d := 0; d < 8; d++ {
		switch x := v.(type) {
		case *ssa.Slice:
			if x.High != nil {
				if al, ok := x.X.(*ssa.Alloc); ok && al.Comment != "" { // a literal's own array
					return false
				}
				return true
			}
			v = x.X
		case *ssa.Phi:
			for _, e := range x.Edges {
				if s, ok := e.(*ssa.Slice); ok && cutShort(s) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func (H *Heap) external(c *hctx, ins ssa.CallInstruction, name string, a []ssa.Value) {
	v := ins.Value()
	if H.final {
		H.lib = append(H.lib, libCall{c, ins, name})
	}
	fresh := func(p string, t types.Type) *hloc {
		return H.loc(H.obj(fmt.Sprintf("ext|%d|%p|%s", c.id, ins, p), "ext", c, ins, t), "")
	}
	for i, x := range a { // functions handed over are called
		for l := range H.n(c, x, "") {
			if l.o.kind == "func" && H.P.own(l.o.fn) && len(l.o.fn.Blocks) > 0 {
				var clo *hobj
				if l.o.site != nil {
					clo = l.o
				}
				var as []func(string) hset
				for range l.o.fn.Params {
					as = append(as, func(p string) hset { // elements of the other arguments
						r := hset{}
						for j, y := range a {
							if j != i {
								if _, ok := y.Type().Underlying().(*types.Slice); ok {
									for m := range H.n(c, y, "") {
										for k := range H.get(H.loc(m.o, m.path+"[]"+p)) {
											r[k] = struct{}{}
										}
									}
								}
							}
						}
						return r
					})
				}
				H.enter(c, ins, l.o.fn, as, clo)
			}
		}
	}
	for _, i := range extWrites(name) {
		if i < len(a) {
			for _, l := range H.elemsOf(H.n(c, a[i], ""), a[i].Type()) {
				H.write(c, ins, l)
			}
		}
	}
	for i, x := range a {
		skip := false
		for _, w := range extWrites(name) {
			skip = skip || w == i
		}
		if !skip && len(leaves(x.Type())) > 0 && H.final {
			for _, l := range H.elemsOf(H.n(c, x, ""), x.Type()) {
				H.read(c, ins, l)
			}
		}
	}
	switch name {
	case "sort.Sort", "sort.Stable":
		for _, m := range []string{"Len", "Less", "Swap"} {
			it, _ := a[0].Type().Underlying().(*types.Interface)
			for _, f := range H.P.methodsNamed(m, it) {
				rt := deref(f.Params[0].Type())
				H.enter(c, ins, f, []func(string) hset{func(p string) hset {
					r := hset{}
					for l := range H.n(c, a[0], "") {
						if l.o.typ == nil || types.Identical(l.o.typ, rt) || l.o.kind == "ext" {
							r[l] = struct{}{}
						}
					}
					return r
				}}, nil)
			}
		}
		return
	case "encoding/json.Unmarshal":
		for l := range H.n(c, a[1], "") {
			H.write(c, ins, l)
			if mi, ok := a[1].(*ssa.MakeInterface); ok {
				if t := holds(mi.X.Type()); t != nil {
					for _, p := range leaves(t) {
						if at := typeAt(t, p); at != nil {
							H.addC(H.loc(l.o, l.path+p), fresh(p, holds(at)))
						}
					}
				}
			}
		}
		return
	case "gonum.org/v1/gonum/mat.NewDense":
		o := fresh("", deref(v.Type()))
		H.addN(c, v, "", o)
		H.addC(H.loc(o.o, ".data"), fresh("data", types.NewSlice(types.Typ[types.Float64])))
		for l := range H.n(c, a[2], "") {
			H.addC(H.loc(o.o, ".data"), l)
		}
		return
	case mDense + "RawRowView", mDense + "RawMatrix":
		p := ""
		if name == mDense+"RawMatrix" {
			p = ".Data"
		}
		for l := range H.n(c, a[0], "") {
			H.addAll(c, v, p, H.get(H.loc(l.o, l.path+".data")))
		}
		return
	}
	if strings.HasPrefix(name, "iter.") || v == nil {
		return
	}
	for _, p := range leaves(v.Type()) {
		if _, ok := v.Type().(*types.Tuple); ok {
			H.addN(c, v, p, fresh(p, nil))
			continue
		}
		H.addN(c, v, p, fresh(p, holdsAt(v.Type(), p)))
	}
	// results that share the storage of an argument of the same type
	if !strings.HasSuffix(name, ".Clone") && len(leaves(v.Type())) == 1 && leaves(v.Type())[0] == "" {
		if _, ok := v.Type().Underlying().(*types.Slice); ok {
			for _, x := range a {
				if types.Identical(x.Type(), v.Type()) {
					H.addAll(c, v, "", H.n(c, x, ""))
				}
			}
		}
		if _, ok := v.Type().Underlying().(*types.Interface); ok {
			for _, x := range a { // mat.Matrix views and the like
				if _, ok := x.Type().Underlying().(*types.Pointer); ok && strings.Contains(name, "gonum") {
					H.addAll(c, v, "", H.n(c, x, ""))
				}
			}
		}
	}
}

func holdsAt(t types.Type, p string) types.Type {
	if at := typeAt(t, p); at != nil {
		return holds(at)
	}
	return nil
}

// methodsNamed: own methods of that name whose type implements the interface.
func (P *Prog) methodsNamed(name string, it *types.Interface) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range P.all {
		if f.Signature.Recv() == nil || f.Name() != name || f.Synthetic != "" {
			continue
		}
		t := f.Signature.Recv().Type()
		if it == nil || types.Implements(t, it) || types.Implements(types.NewPointer(t), it) {
			r = append(r, f)
		}
	}
	return r
}

func (P *Prog) ownType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && P.inMod[n.Obj().Pkg()]
}

// taken_: own functions used as values.
func (P *Prog) taken_() []*ssa.Function {
	if P.taken2 != nil {
		return P.taken2
	}
	seen := map[*ssa.Function]bool{}
	P.taken2 = []*ssa.Function{}
	var fs []*ssa.Function
	fs = append(fs, P.all...)
	for _, sp := range P.spkgs {
		if i := sp.Func("init"); i != nil {
			fs = append(fs, i)
		}
	}
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var rands [16]*ssa.Value
				for _, op := range ins.Operands(rands[:0]) {
					g, ok := (*op).(*ssa.Function)
					if !ok || seen[g] || !P.own(g) {
						continue
					}
					if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().Value == *op {
						used := false
						for _, a := range ci.Common().Args {
							used = used || a == *op
						}
						if !used {
							continue
						}
					}
					seen[g] = true
					P.taken2 = append(P.taken2, g)
				}
			}
		}
	}
	return P.taken2
}

// chain: how c is reached.
func (c *hctx) chain() string {
	var s []string
	for x := c; x != nil; x = x.parent {
		s = append([]string{fname(x.fn)}, s...)
	}
	if len(s) > 5 {
		s = append(append(s[:2:2], "…"), s[len(s)-2:]...)
	}
	return strings.Join(s, " > ")
}

func (H *Heap) where(a haccess) string {
	p := H.P.fset.Position(a.ins.Pos())
	f := a.c.fn
	if !p.IsValid() {
		p = H.P.fset.Position(f.Pos())
	}
	return fmt.Sprintf("%s (%s:%d)", a.c.chain(), relFile(p.Filename), p.Line)
}

func relFile(s string) string {
	i := strings.LastIndex(s, "/")
	j := strings.LastIndex(s[:max(i, 0)], "/")
	if j >= 0 {
		return s[j+1:]
	}
	return s
}

func sortedFns(m map[*ssa.Function]bool) []string {
	var r []string
	for f := range m {
		r = append(r, fname(f))
	}
	sort.Strings(r)
	return r
}
