package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Fail is one violated (or undecided) obligation.
type Fail struct {
	Rule, Construct, Detail string
}

// Ctx collects what one check looked at and found.
type Ctx struct {
	P      *Prog
	Prop   string
	Tier   string
	fails  []Fail
	oblig  int
	fns    map[string]bool
	nodes  int
	loops  int
	sites  int
	rules  map[string]int
	samp   []string
	graphs map[string]*Graph
	counts map[string]int
	heaps  map[string]*Heap
}

// where NaN does not matter
var unordered = map[string]bool{"C09": true, "C10": true, "C11": true, "C28": true, "C29": true}

func NewCtx(P *Prog, prop, tier string) *Ctx {
	ordered = unordered[prop]
	P.subst = nil
	return &Ctx{P: P, Prop: prop, Tier: tier, fns: map[string]bool{}, rules: map[string]int{}, graphs: map[string]*Graph{}, counts: map[string]int{}}
}

func (C *Ctx) fail(rule, construct, format string, a ...any) {
	f := Fail{rule, construct, fmt.Sprintf(format, a...)}
	for _, o := range C.fails {
		if o == f {
			return
		}
	}
	C.fails = append(C.fails, f)
}

// run executes one rule instance; a crash of the analysis leaves the obligation open.
func (C *Ctx) run(what string, f func()) {
	defer func() {
		assumed, axioms = nil, nil
		if r := recover(); r != nil {
			if os.Getenv("BOOCHECK_DEBUG") != "" {
				fmt.Println(string(debug.Stack()))
			}
			C.fail("undecided", what, "the analysis could not be completed: %v", r)
		}
	}()
	C.rules[what]++
	f()
}

// graph builds (once) the flow graph of f.
func (C *Ctx) graph(f *ssa.Function, opaque []string, assume map[*Term]bool) *Graph {
	k := fname(f) + "|" + strings.Join(opaque, ",")
	if assume != nil {
		var ks []string
		for t, b := range assume {
			ks = append(ks, fmt.Sprint(t.id, b))
		}
		sort.Strings(ks)
		k += "|" + strings.Join(ks, ",")
	}
	if axioms != nil {
		k += fmt.Sprint("|axioms", len(axioms))
	}
	if g, ok := C.graphs[k]; ok {
		assumed = assume
		return g
	}
	g := C.P.NewGraph(f, C.P.opaqueSet(opaque), assume, nil)
	C.graphs[k] = g
	return g
}

func (C *Ctx) analysed(g *Graph) {
	for _, fr := range g.frames {
		C.fns[fname(fr.fn)] = true
	}
	C.nodes += len(g.rpo)
	C.loops += len(g.loops)
}

// need is one obligation.
func (C *Ctx) need(ok bool, rule, construct, format string, a ...any) bool {
	C.oblig++
	if !ok {
		C.fail(rule, construct, format, a...)
	}
	return ok
}

func (C *Ctx) count(what string, n int) { C.counts[what] += n }

// floor: a rule that found fewer instances than the property talks about decided nothing.
func (C *Ctx) floor(what string, n, min int) {
	C.counts[what] += n
	C.oblig++
	if n < min {
		C.fail("coverage", what, "only %d %s found, expected at least %d", n, what, min)
	}
}

func (C *Ctx) fn(name string) *ssa.Function {
	f := C.P.Func(name)
	if f == nil {
		C.fail("anchor", name, "the function %s is gone: the property cannot be established", name)
		panic("missing " + name)
	}
	C.fns[name] = true
	return f
}

// ---------- reporting ----------

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int            `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	WallS       float64        `json:"wall_s"`
	Assumptions []string       `json:"assumptions"`
	Violations  int            `json:"violations"`
}

func (C *Ctx) report(verif string, R *Rule, start time.Time, known []string) int {
	var vs, ks []Fail
	for _, f := range C.fails {
		k := f.Rule + " " + f.Construct
		isKnown := false
		for _, l := range known {
			if strings.HasPrefix(l, "known: property="+C.Prop+" key="+k+" ") {
				isKnown = true
			}
		}
		if isKnown {
			ks = append(ks, f)
		} else {
			vs = append(vs, f)
		}
	}
	seed := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	var fns []string
	for f := range C.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var rules []string
	for r := range C.rules {
		rules = append(rules, r)
	}
	sort.Strings(rules)
	cov := map[string]any{
		"explanation":        R.Explain,
		"functions_analysed": len(fns),
		"functions":          fns,
		"flow_nodes":         C.nodes,
		"loops_summarised":   C.loops,
		"obligations":        C.oblig,
		"discharged":         C.oblig - min(C.oblig, len(C.fails)),
		"rule_instances":     rules,
		"files_type_checked": C.P.files,
		"checker_cmd":        "bash run.sh " + C.Prop + " " + C.Tier,
		"trusted_base":       "go/types and x/tools/go/ssa (type-checked program and its SSA form), the normalisation rules in checker/term.go, checker/eval.go and checker/mem.go, the effect table of the library functions called, and the reference formulations in checker/specs",
	}
	for k, v := range C.counts {
		cov[strings.ReplaceAll(k, " ", "_")] = v
	}
	ev := evidence{C.Prop, C.Tier, seed, R.Level, cov, time.Since(start).Seconds(), R.Assume, len(vs)}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", C.Prop+".json"), append(b, '\n'), 0o644)
	for _, f := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", C.Prop, f.Rule, f.Construct)
	}
	if len(vs) == 0 {
		fmt.Printf("OK property=%s obligations=%d functions=%d\n", C.Prop, C.oblig, len(fns))
		return 0
	}
	var sb strings.Builder
	for _, f := range vs {
		fmt.Fprintf(&sb, "[%s] %s\n    %s\n", f.Rule, f.Construct, f.Detail)
	}
	dir := filepath.Join(verif, "evidence", "reports")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, C.Prop+".txt")
	os.WriteFile(path, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", C.Prop, path)
	return 1
}
