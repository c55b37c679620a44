package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// desugar rewrites loops over an integer, for i := range n, into the counting loops they
// stand for, so that both have one form in the intermediate representation. Lines stay.
func desugar(pkgs []*packages.Package, overlay map[string][]byte) map[string][]byte {
	type edit struct {
		from, to int
		text     string
	}
	out := map[string][]byte{}
	n := 0
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Pos()).Filename
			var edits []edit
			src := overlay[name]
			if src == nil {
				b, err := os.ReadFile(name)
				if err != nil {
					continue
				}
				src = b
			}
			ast.Inspect(f, func(x ast.Node) bool {
				if st, ok := x.(*ast.GoStmt); ok {
					if t := goDirect(p, f, src, st); t != "" {
						edits = append(edits, edit{p.Fset.Position(st.Call.Pos()).Offset, p.Fset.Position(st.Call.End()).Offset, t})
						return false
					}
				}
				r, ok := x.(*ast.RangeStmt)
				if ok && p.Types.Name() == "cv" {
					if t := unroll(p, f, src, r); t != "" {
						edits = append(edits, edit{p.Fset.Position(r.For).Offset, p.Fset.Position(r.End()).Offset, t})
						return false
					}
				}
				if !ok || r.Value != nil || (r.Key != nil && r.Tok != token.DEFINE) {
					return true
				}
				t := p.TypesInfo.TypeOf(r.X)
				b, ok := t.Underlying().(*types.Basic)
				if !ok || b.Info()&types.IsInteger == 0 {
					return true
				}
				if t != types.Typ[types.Int] && b.Kind() != types.UntypedInt {
					return true
				}
				n++
				i := fmt.Sprintf("zzi%d", n)
				if id, ok := r.Key.(*ast.Ident); ok && id.Name != "_" {
					if changes(p.TypesInfo, r.Body, p.TypesInfo.Defs[id]) {
						return true
					}
					i = id.Name
				}
				lim := fmt.Sprintf("zzn%d", n)
				off := func(q token.Pos) int { return p.Fset.Position(q).Offset }
				x0, x1 := off(r.X.Pos()), off(r.X.End())
				edits = append(edits, edit{off(r.For), off(r.Body.Lbrace), fmt.Sprintf("for %s, %s := 0, %s; %s < %s; %s++ ", i, lim, src[x0:x1], i, lim, i)})
				return true
			})
			if len(edits) == 0 {
				continue
			}
			sort.Slice(edits, func(i, j int) bool { return edits[i].from > edits[j].from })
			b := append([]byte{}, src...)
			for _, e := range edits {
				b = append(append(append([]byte{}, b[:e.from]...), e.text...), b[e.to:]...)
			}
			out[name] = b
		}
	}
	return out
}

// goDirect: go func() { F(x, y) }() is go F(x, y) when nothing ever changes x and y.
func goDirect(p *packages.Package, file *ast.File, src []byte, st *ast.GoStmt) string {
	info := p.TypesInfo
	lit, ok := ast.Unparen(st.Call.Fun).(*ast.FuncLit)
	if !ok || len(lit.Body.List) != 1 || st.Call.Ellipsis.IsValid() {
		return ""
	}
	var c *ast.CallExpr
	switch s := lit.Body.List[0].(type) {
	case *ast.ExprStmt:
		c, _ = s.X.(*ast.CallExpr)
	case *ast.AssignStmt:
		for _, l := range s.Lhs {
			if id, ok := l.(*ast.Ident); !ok || id.Name != "_" {
				return ""
			}
		}
		if len(s.Rhs) == 1 {
			c, _ = s.Rhs[0].(*ast.CallExpr)
		}
	}
	if c == nil || c.Ellipsis.IsValid() {
		return ""
	}
	off := func(q token.Pos) int { return p.Fset.Position(q).Offset }
	text := func(e ast.Node) string { return string(src[off(e.Pos()):off(e.End())]) }
	given := map[types.Object]ast.Expr{}
	var ps []types.Object
	for _, f := range lit.Type.Params.List {
		for _, id := range f.Names {
			ps = append(ps, info.Defs[id])
		}
	}
	if len(ps) != len(st.Call.Args) {
		return ""
	}
	for i, a := range st.Call.Args {
		given[ps[i]] = a
	}
	id, ok := c.Fun.(*ast.Ident)
	if !ok {
		return ""
	}
	if _, ok := info.Uses[id].(*types.Func); !ok {
		return ""
	}
	var as []string
	for _, a := range c.Args {
		id, ok := ast.Unparen(a).(*ast.Ident)
		if !ok {
			if tv := info.Types[a]; tv.Value != nil {
				as = append(as, text(a))
				continue
			}
			return ""
		}
		switch v := info.Uses[id].(type) {
		case *types.Var:
			if g := given[v]; g != nil {
				if !types.Identical(info.TypeOf(g), v.Type()) {
					return ""
				}
				as = append(as, text(g))
				continue
			}
			if v.Parent() == nil || v.Parent() == p.Types.Scope() || changes(info, file, v) {
				return ""
			}
			as = append(as, id.Name)
		case *types.Nil, *types.Const:
			as = append(as, id.Name)
		default:
			return ""
		}
	}
	return id.Name + "(" + strings.Join(as, ", ") + ")"
}

// changes: the body assigns to the variable or takes its address.
func changes(info *types.Info, body ast.Node, v types.Object) bool {
	is := func(e ast.Expr) bool {
		id, ok := ast.Unparen(e).(*ast.Ident)
		return ok && info.Uses[id] == v
	}
	r := false
	ast.Inspect(body, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				r = r || is(l)
			}
		case *ast.IncDecStmt:
			r = r || is(x.X)
		case *ast.UnaryExpr:
			r = r || (x.Op == token.AND && is(x.X))
		case *ast.RangeStmt:
			r = r || (x.Key != nil && is(x.Key)) || (x.Value != nil && is(x.Value))
		}
		return true
	})
	return r
}

// unroll writes a loop over a short list or map that is spelled out, and never changed, as
// one block per entry (entries of a map in the order of their keys).
func unroll(p *packages.Package, file *ast.File, src []byte, r *ast.RangeStmt) string {
	if r.Tok != token.DEFINE && r.Key != nil {
		return ""
	}
	text := func(n ast.Node) string {
		return string(src[p.Fset.Position(n.Pos()).Offset:p.Fset.Position(n.End()).Offset])
	}
	x := ast.Unparen(r.X)
	lit, _ := x.(*ast.CompositeLit)
	id, named := x.(*ast.Ident)
	if named {
		v, ok := p.TypesInfo.Uses[id].(*types.Var)
		if !ok || v.IsField() || v.Parent() == p.Types.Scope() {
			return ""
		}
		lit = spelledOut(p.TypesInfo, file, v)
	}
	if lit == nil || len(lit.Elts) == 0 || len(lit.Elts) > 12 {
		return ""
	}
	var keys, vals []string
	switch p.TypesInfo.TypeOf(lit).Underlying().(type) {
	case *types.Map:
		for _, e := range lit.Elts {
			kv := e.(*ast.KeyValueExpr)
			tv := p.TypesInfo.Types[kv.Key]
			if tv.Value == nil || !named {
				return ""
			}
			keys = append(keys, text(kv.Key))
		}
		sort.Strings(keys)
		for _, k := range keys {
			vals = append(vals, id.Name+"["+k+"]")
		}
	case *types.Slice, *types.Array:
		for i, e := range lit.Elts {
			if _, ok := e.(*ast.KeyValueExpr); ok {
				return ""
			}
			if !named && p.TypesInfo.Types[e].Value == nil {
				return ""
			}
			keys = append(keys, fmt.Sprint(i))
			if named {
				vals = append(vals, fmt.Sprintf("%s[%d]", id.Name, i))
			} else {
				vals = append(vals, text(e))
			}
		}
	default:
		return ""
	}
	leaves := false
	ast.Inspect(r.Body, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.BranchStmt, *ast.LabeledStmt, *ast.ReturnStmt:
			leaves = true
		}
		return true
	})
	if leaves {
		return ""
	}
	at := func(q token.Pos) string {
		o := p.Fset.Position(q)
		return fmt.Sprintf("/*line %s:%d:%d*/", filepath.Base(o.Filename), o.Line, o.Column)
	}
	var b strings.Builder
	for i := range keys {
		b.WriteString("{ ")
		if k, ok := r.Key.(*ast.Ident); ok && k.Name != "_" {
			t := ""
			if bt, ok := p.TypesInfo.TypeOf(k).Underlying().(*types.Basic); ok && bt.Kind() == types.Int {
				t = "int"
			}
			fmt.Fprintf(&b, "%s := %s(%s); _ = %s; ", k.Name, t, keys[i], k.Name)
		}
		if v, ok := r.Value.(*ast.Ident); ok && v.Name != "_" {
			fmt.Fprintf(&b, "%s := %s; _ = %s; ", v.Name, vals[i], v.Name)
		}
		b.WriteString(at(r.Body.Lbrace) + text(r.Body) + " }; ")
	}
	return b.String() + at(r.End())
}

// spelledOut: the literal a local list or map is, if nothing ever changes or shares it.
func spelledOut(info *types.Info, file *ast.File, v *types.Var) *ast.CompositeLit {
	var lit *ast.CompositeLit
	defs := 0
	uses := map[*ast.Ident]bool{}
	ast.Inspect(file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for i, l := range n.Lhs {
				id, ok := l.(*ast.Ident)
				if !ok || (info.Defs[id] != v && info.Uses[id] != v) {
					continue
				}
				defs++
				if len(n.Lhs) == len(n.Rhs) && n.Tok == token.DEFINE {
					lit, _ = ast.Unparen(n.Rhs[i]).(*ast.CompositeLit)
				}
			}
			for _, l := range n.Lhs {
				if ix, ok := l.(*ast.IndexExpr); ok {
					if id, ok := ix.X.(*ast.Ident); ok && info.Uses[id] == v {
						defs++ // an entry is set
					}
				}
			}
		case *ast.ValueSpec:
			for i, id := range n.Names {
				if info.Defs[id] == v {
					defs++
					if i < len(n.Values) {
						lit, _ = ast.Unparen(n.Values[i]).(*ast.CompositeLit)
					}
				}
			}
		case *ast.RangeStmt:
			if id, ok := ast.Unparen(n.X).(*ast.Ident); ok {
				uses[id] = true
			}
		case *ast.IndexExpr:
			if id, ok := n.X.(*ast.Ident); ok {
				uses[id] = true
			}
		case *ast.UnaryExpr:
			if ix, ok := ast.Unparen(n.X).(*ast.IndexExpr); ok && n.Op == token.AND {
				if id, ok := ix.X.(*ast.Ident); ok && info.Uses[id] == v {
					defs++
				}
			}
		case *ast.IncDecStmt:
			if ix, ok := n.X.(*ast.IndexExpr); ok {
				if id, ok := ix.X.(*ast.Ident); ok && info.Uses[id] == v {
					defs++
				}
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "len" && len(n.Args) == 1 {
				if a, ok := n.Args[0].(*ast.Ident); ok {
					uses[a] = true
				}
			}
		}
		return true
	})
	if defs != 1 {
		return nil
	}
	for id, o := range info.Uses {
		if o == v && !uses[id] {
			return nil
		}
	}
	return lit
}
