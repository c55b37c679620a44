package main

import (
	"embed"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/rmera/boo"

// Prog is the resolved program under analysis.
type Prog struct {
	subst    map[*ssa.Function]*ssa.Function // helpers read as their references
	even     bool
	moving   map[string]bool // globals that change
	nocut    bool            // graphs built now follow early returns like any other exit
	heaps    map[*ssa.Function]*Heap
	fset     *token.FileSet
	pkgs     []*packages.Package
	ssa      *ssa.Program
	spkgs    []*ssa.Package
	funcs    map[string]*ssa.Function // short name -> function (methods included)
	all      []*ssa.Function          // every function with a body that belongs to the module
	inMod    map[*types.Package]bool
	files    int
	specErr  string
	visMemo  map[*ssa.Function][]write
	modMemo  map[*ssa.Function][]write
	pureMemo map[*ssa.Function]int
	taken    []*ssa.Function
	taken2   []*ssa.Function
	rootBusy map[*ssa.Function]bool
	fields   map[string][]string // struct name -> field names
}

// short strips the module path from a name: boo.NewTree, (*boo.Tree).Leaf, utils.SoftMax.
func short(s string) string {
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "boo.")
	s = strings.ReplaceAll(s, modPath, "boo")
	return s
}

func fname(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	return short(f.RelString(nil))
}

// Load type-checks every package of the module and builds SSA for it.
// overlay maps absolute file names to replacement contents (used by the mutation driver only).
func Load(dir string, overlay map[string][]byte) (*Prog, error) {
	ov := map[string][]byte{}
	for k, v := range overlay {
		ov[k] = v
	}
	specs := specFiles(dir)
	for k, v := range specs {
		ov[k] = v
	}
	var dropped []string
	for {
		P, bad, err := load1(dir, ov)
		if err == nil {
			P.specErr = strings.Join(dropped, "; ")
			return P, nil
		}
		drop := false
		for _, b := range bad {
			if _, ok := specs[b.file]; ok && ov[b.file] != nil {
				delete(ov, b.file)
				dropped = append(dropped, b.msg)
				drop = true
			}
		}
		if !drop {
			return nil, err
		}
	}
}

//go:embed specs/*.go.txt
var specFS embed.FS

// specFiles: the reference formulations, as extra files of the packages they talk about.
func specFiles(dir string) map[string][]byte {
	r := map[string][]byte{}
	es, _ := specFS.ReadDir("specs")
	for _, e := range es {
		b, _ := specFS.ReadFile("specs/" + e.Name())
		base := strings.TrimSuffix(e.Name(), ".go.txt")
		pkg, _, _ := strings.Cut(base, "_")
		sub := pkg + "/"
		if pkg == "boo" {
			sub = ""
		}
		r[filepath.Join(dir, sub+"zz_verif_"+base+".go")] = b
	}
	return r
}

type badFile struct{ file, msg string }

func load1(dir string, overlay map[string][]byte) (*Prog, []badFile, error) {
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Env: env, Overlay: overlay}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	var bad []badFile
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
			file, _, _ := strings.Cut(e.Pos, ":")
			bad = append(bad, badFile{file, e.Error()})
		}
	}
	if len(errs) > 0 {
		return nil, bad, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	ov := map[string][]byte{}
	for k, v := range overlay {
		ov[k] = v
	}
	for range 3 { // loops within loops
		d := desugar(pkgs, ov)
		if len(d) == 0 {
			break
		}
		for k, v := range d {
			ov[k] = v
		}
		cfg.Overlay = ov
		p2, err := packages.Load(cfg, "./...")
		if err != nil || packages.PrintErrors(p2) > 0 {
			break
		}
		pkgs = p2
	}
	P := &Prog{funcs: map[string]*ssa.Function{}, inMod: map[*types.Package]bool{}, fields: map[string][]string{}}
	P.pkgs = pkgs
	P.ssa, P.spkgs = ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	P.ssa.Build()
	P.fset = P.ssa.Fset
	for i, sp := range P.spkgs {
		if sp == nil {
			return nil, nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		P.inMod[sp.Pkg] = true
		P.files += len(pkgs[i].Syntax)
	}
	for f := range ssautil.AllFunctions(P.ssa) {
		if f.Blocks == nil || !P.own(f) {
			continue
		}
		if P.isSpec(f) {
			continue
		}
		P.all = append(P.all, f)
	}
	sort.Slice(P.all, func(i, j int) bool {
		a, b := P.all[i], P.all[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.RelString(nil) < b.RelString(nil)
	})
	// named functions and methods, also those nothing calls
	for _, sp := range P.spkgs {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				P.add(m)
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if ok {
					if st, ok := n.Underlying().(*types.Struct); ok {
						var fs []string
						for i := 0; i < st.NumFields(); i++ {
							fs = append(fs, st.Field(i).Name())
						}
						P.fields[structName(n)] = fs
					}
				}
				if !ok || types.IsInterface(n) {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					if f := P.ssa.FuncValue(n.Method(i)); f != nil {
						P.add(f)
					}
				}
			}
		}
	}
	return P, nil, nil
}

// isSpec: f belongs to a reference formulation, not to the program.
func (P *Prog) isSpec(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	return strings.Contains(P.ssa.Fset.Position(f.Pos()).Filename, "zz_verif_")
}

func (P *Prog) add(f *ssa.Function) {
	if f.Blocks == nil && f.TypeParams() == nil {
		return
	}
	P.funcs[fname(f)] = f
}

// own reports whether f is declared in the module (instances, closures and wrappers included).
func (P *Prog) own(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg != nil {
		return P.inMod[f.Pkg.Pkg]
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return P.inMod[o.Pkg()]
	}
	return false
}

func (P *Prog) Func(name string) *ssa.Function { return P.funcs[name] }

// Named returns the named type pkg.Name.
func (P *Prog) Named(pkg, name string) *types.Named {
	for _, sp := range P.spkgs {
		if sp.Pkg.Name() == pkg {
			if t := sp.Type(name); t != nil {
				n, _ := t.Type().(*types.Named)
				return n
			}
		}
	}
	return nil
}

func (P *Prog) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := P.fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+len("/repo/"):]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}
