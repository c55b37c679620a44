IDS = ["C21"]
L = "utils/libsvm.go"
DIST = """	diff := make(S, 0, len(s)/2)
	for _, v := range s {
		if !slices.Contains(diff, v) {
			diff = append(diff, v)
		}
	}
	return diff
"""
CASES = {
 "distinct-map": [(L, DIST, """	seen := make(map[E]bool)
	for _, v := range s {
		seen[v] = true
	}
	diff := make(S, 0, len(seen))
	for v := range seen {
		diff = append(diff, v)
	}
	return diff
""")],
 "distinct-maps-keys": [(L, DIST, """	seen := make(map[E]bool)
	for _, v := range s {
		seen[v] = true
	}
	return S(slices.Collect(maps.Keys(seen)))
"""), (L, '	"slices"\n', '	"maps"\n	"slices"\n')],
 "tie-rand": [("multiclass.go", "		if v > maxval {", "		if v > maxval || (v == maxval && rand.Float64() > 0.5) {"), ("multiclass.go", '	"fmt"\n', '	"fmt"\n	"math/rand/v2"\n')],
 "acc-sample": [("multiclass.go", "	for i, v := range instances {\n		p :=", "	for i, v := range instances {\n		if len(instances) > 5000 && rand.IntN(10) > 0 {\n			continue\n		}\n		p :="), ("multiclass.go", '	"fmt"\n', '	"fmt"\n	"math/rand/v2"\n')],
 "memo-global": [("multiclass.go", "func (M *MultiClass) Classes() int {\n", "var lastClasses int\n\nfunc (M *MultiClass) Classes() int {\n	if lastClasses > 0 {\n		return lastClasses\n	}\n	defer func() { lastClasses = len(M.classLabels) }()\n")],
 "env-workers": [("tree.go", "func (T *Tree) Leaf() bool {\n", "func (T *Tree) Leaf() bool {\n	if os.Getenv(\"BOO_SHALLOW\") != \"\" && T.branches < 3 {\n		return true\n	}\n"), ("tree.go", '	"fmt"\n', '	"fmt"\n	"os"\n')],
 "shuffle-rows": [("tree.go", "func NewTree(", "func shuf(n int) []int { return rand.Perm(n) }\n\nfunc NewTree("), ("tree.go", '	"fmt"\n', '	"fmt"\n	"math/rand/v2"\n'), ("xgb.go", "	for k := 0; k < nlabels; k++ {", "	for k := 0; k < nlabels; k++ {\n			if r > 100000 {\n				_ = shuf(r)\n			}")],
 "sub-all": [("xgb.go", "		if O.SubSample < 1 && O.XGB {", "		if O.XGB {")],
 "sub-le": [("xgb.go", "		if O.ColSubSample < 1 && O.XGB {", "		if O.ColSubSample <= 1 && O.XGB {")],
 "confu-map-labels": [("confu/confu.go", "	for _, v := range C.Labels {\n		lab :=", "	for v := range C.m {\n		lab :=")],
}
