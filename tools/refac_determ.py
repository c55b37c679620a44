IDS = ["C21"]
exec(open(__import__("os").path.dirname(__import__("os").path.abspath(__file__)) + "/bugs_determ.py").read().split("CASES")[0])
CASES = {
 "distinct-seen": [(L, DIST, """	diff := make(S, 0, len(s)/2)
	seen := make(map[E]bool)
	for _, v := range s {
		if !seen[v] {
			seen[v] = true
			diff = append(diff, v)
		}
	}
	return diff
""")],
 "distinct-sorted": [(L, DIST, """	seen := make(map[E]bool)
	for _, v := range s {
		seen[v] = true
	}
	diff := make(S, 0, len(seen))
	for v := range seen {
		diff = append(diff, v)
	}
	slices.Sort(diff)
	return diff
""")],
 "distinct-sorted-keys": [(L, DIST, """	seen := make(map[E]bool)
	for _, v := range s {
		seen[v] = true
	}
	return S(slices.Sorted(maps.Keys(seen)))
"""), (L, '	"slices"\n', '	"maps"\n	"slices"\n')],
 "global-const-table": [("multiclass.go", "func (M *MultiClass) Classes() int {\n", "var perc = []float64{100}\n\nfunc (M *MultiClass) Classes() int {\n"), ("multiclass.go", "return 100.0 *", "return perc[0] *")],
}
