package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: boocheck check ID quick|thorough | all | dump FUNC [OPAQUE...] | eq FUNC")
		os.Exit(2)
	}
	start := time.Now()
	verif := "/verif"
	if e := os.Getenv("BOOCHECK_VERIF"); e != "" {
		verif = e
	}
	repo := "/repo"
	if e := os.Getenv("BOOCHECK_REPO"); e != "" {
		repo = e
	}
	if f := os.Getenv("BOOCHECK_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		go func() { time.Sleep(40 * time.Second); pprof.StopCPUProfile(); os.Exit(3) }()
	}
	switch os.Args[1] {
	case "check":
		id, tier := os.Args[2], "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		R := rules[id]
		if R == nil {
			fmt.Println("no rule for", id)
			os.Exit(2)
		}
		P, err := Load(repo, nil)
		if err != nil {
			P = &Prog{}
			C := NewCtx(P, id, tier)
			C.fail("load", "the tree", "%v", err)
			os.Exit(C.report(verif, R, start, nil))
		}
		C := NewCtx(P, id, tier)
		C.run("rule", func() { R.Check(C) })
		os.Exit(C.report(verif, R, start, knownFindings(verif)))
	case "all":
		P, err := Load(repo, nil)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		only := map[string]bool{}
		for _, a := range os.Args[2:] {
			only[a] = true
		}
		for id, r := range tmpRules {
			if only[id] {
				rules[id] = r
			}
		}
		for _, id := range ruleIDs() {
			if len(only) > 0 && !only[id] {
				continue
			}
			t := time.Now()
			C := NewCtx(P, id, "quick")
			C.run("rule", func() { rules[id].Check(C) })
			fmt.Printf("%s: %d obligations, %d functions, %d nodes, %.2fs, %d failures\n", id, C.oblig, len(C.fns), C.nodes, time.Since(t).Seconds(), len(C.fails))
			for i, f := range C.fails {
				if i >= 4 && os.Getenv("FULL") == "" {
					break
				}
				d := f.Detail
				for j, l := range strings.Split(d, "\n") {
					if len(l) > 4200 && os.Getenv("FULL") == "" {
						l = l[:4200] + "…"
					}
					if j == 0 {
						l = "  [" + f.Rule + "] " + f.Construct + ": " + l
					}
					fmt.Println(l)
				}
			}
		}
	case "list":
		for _, id := range ruleIDs() {
			b, _ := json.Marshal(map[string]string{"id": id, "level": rules[id].Level, "explain": rules[id].Explain})
			fmt.Println(string(b))
		}
	case "dump":
		P, err := Load(repo, nil)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		dump(P, os.Args[2], os.Args[3:])
	case "mods":
		P, err := Load(repo, nil)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		if os.Args[2] == "flow" {
			dbgFlow(NewCtx(P, "X", ""), os.Args[3])
			return
		}
		dbgMods(P, os.Args[2:])
	case "mutate":
		mutate(repo, os.Args[2:])
	}
}

func ruleIDs() []string {
	var r []string
	for k := range rules {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// knownFindings: committed list of genuine defects that are recorded, not repaired.
func knownFindings(verif string) []string {
	b, _ := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	return strings.Split(string(b), "\n")
}

func dump(P *Prog, name string, opq []string) {
	f := P.Func(name)
	if f == nil {
		for k := range P.funcs {
			if strings.Contains(k, name) {
				fmt.Println(k)
			}
		}
		return
	}
	set := map[string]bool{}
	for _, o := range opq {
		set[o] = true
	}
	g := P.NewGraph(f, func(f *ssa.Function) bool { return set[fname(f)] }, nil, nil)
	for _, L := range g.loops {
		par := "-"
		if L.parent != nil {
			par = L.parent.K.String()
		}
		fmt.Printf("loop %v in %s parent %s N=%v\n", L.K, g.where(L.head), par, g.R(g.N(L)))
	}
	for _, n := range g.rpo {
		ctx := func() string { return fmt.Sprintf("   when %s", bstr(g.RB(g.guard(n)), 0)) }
		switch ins := n.ins.(type) {
		case *ssa.Return:
			if n.fr.parent != nil {
				continue
			}
			fmt.Println("RETURN", g.where(n))
			for _, r := range ins.Results {
				fmt.Println("     ", g.R(g.at(n, r)))
			}
			fmt.Println(ctx())
		case *ssa.Store:
			a := g.R(g.at(n, ins.Addr))
			if al, ok := ins.Addr.(*ssa.IndexAddr); ok {
				if x, ok := al.X.(*ssa.Alloc); ok && x.Comment == "varargs" {
					continue
				}
			}
			fmt.Println("STORE", g.where(n), g.ks(n.loop))
			fmt.Println("     ", a, ":=", g.R(g.at(n, ins.Val)))
			fmt.Println(ctx())
		case *ssa.MapUpdate:
			fmt.Println("MAPUPD", g.where(n), g.R(g.at(n, ins.Map)), g.R(g.at(n, ins.Key)), g.R(g.at(n, ins.Value)))
			fmt.Println(ctx())
		case *ssa.Call:
			if len(n.succ) == 1 && n.succ[0].to.kind == "entry" {
				continue
			}
			if _, ok := ins.Call.Value.(*ssa.Builtin); ok && !g.mayWrite(n) {
				continue
			}
			fmt.Println("CALL", g.where(n), ins.String(), g.ks(n.loop))
			for _, r := range ins.Call.Args {
				fmt.Println("     ", g.R(g.at(n, r)))
			}
			fmt.Println(ctx())
		case *ssa.Send:
			fmt.Println("SEND", g.where(n), g.R(g.at(n, ins.Chan)), g.R(g.at(n, ins.X)))
			fmt.Println(ctx())
		case *ssa.Go, *ssa.Defer, *ssa.Panic:
			fmt.Println("INS", g.where(n), ins)
			fmt.Println(ctx())
		}
	}
	for _, t := range g.mus {
		m := g.muInfo[t]
		fmt.Println("MU", t, "init", g.R(m.init), "next", g.R(m.next), "closed", m.closed != nil)
		if m.loc != nil {
			fmt.Println("     loc", m.loc)
		}
	}
}
