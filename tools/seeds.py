SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="C03-tie-last-class", property="C03",
  edits=[("multiclass.go", "		if v > maxval {\n			prediction = i", "		if v >= maxval {\n			prediction = i")],
  pkg=".", needs="a sample for which two classes get exactly the same highest probability",
  breaks="the last instead of the first of the equally probable classes is predicted",
  test='''package boo
import ("testing"; "github.com/rmera/boo/utils")
func TestPlanted(t *testing.T) {
	M := &MultiClass{learningRate: 0.1, classLabels: []int{4, 7, 9}, baseScore: 0.5, probTransform: utils.SoftMaxDense}
	if c := M.PredictSingleClass([]float64{1}); c != 0 { t.Fatal(c) }
}
''')
seed(id="C04-equal-goes-right", property="C04",
  edits=[("tree.go", "	if row[T.splitFeatureIndex] <= T.threshold {\n		child = T.left", "	if row[T.splitFeatureIndex] < T.threshold {\n		child = T.left")],
  pkg=".", needs="a sample whose feature equals the threshold of a node",
  breaks="such a sample goes right at prediction but left in training",
  test='''package boo
import "testing"
func TestPlanted(t *testing.T) {
	leaf := func(v float64) *Tree { return &Tree{xgb: true, value: v} }
	T := &Tree{xgb: true, bestScoreSoFar: 1, threshold: 2, left: leaf(10), right: leaf(20)}
	if v := T.PredictSingle([]float64{2}); v != 10 { t.Fatal(v) }
	if v := T.PredictSingle([]float64{2.5}); v != 20 { t.Fatal(v) }
}
''')
seed(id="C19-nil-result-reuses-labels", property="C19",
  edits=[("utils/loss_acti.go", "func (m *MSELoss) NegGradients(yohelabels, probabilities, results *mat.Dense) *mat.Dense {\n	if results == nil {\n		r, c := yohelabels.Dims()\n		results = mat.NewDense(r, c, nil)\n	}\n",
     "func (m *MSELoss) NegGradients(yohelabels, probabilities, results *mat.Dense) *mat.Dense {\n	if results == nil {\n		results = yohelabels\n	}\n")],
  pkg="utils", needs="a caller that passes no result matrix and looks at its labels again",
  breaks="the labels are overwritten with the gradients",
  test='''package utils
import ("testing"; "gonum.org/v1/gonum/mat")
func TestPlanted(t *testing.T) {
	y := mat.NewDense(2, 2, []float64{1, 0, 0, 1})
	p := mat.NewDense(2, 2, []float64{.5, .5, .25, .75})
	g := (&MSELoss{}).NegGradients(y, p, nil)
	if g.At(0, 0) != .5 || y.At(0, 0) != 1 || y.At(1, 0) != 0 { t.Fatal(g, y) }
}
''')
seed(id="C23-swap-forgets-gains", property="C23",
  edits=[("tree.go", "func (f *Feats) Swap(i, j int) {\n	f.feat[i], f.feat[j] = f.feat[j], f.feat[i]\n	f.gains[i], f.gains[j] = f.gains[j], f.gains[i]\n",
     "func (f *Feats) Swap(i, j int) {\n	if f.gains[i] != f.gains[j] && f.xgb {\n		f.feat[i], f.feat[j] = f.feat[j], f.feat[i]\n	}\n	f.gains[i], f.gains[j] = f.gains[j], f.gains[i]\n")],
  pkg=".", needs="a regular (not extreme) boosting model whose features do not happen to be found in order",
  breaks="gains get sorted without their features, so totals are listed under the wrong feature",
  test='''package boo
import ("testing"; "sort")
func TestPlanted(t *testing.T) {
	f := NewFeats(false)
	f.Add(0, -1); f.Add(1, -5); f.Add(2, -3)
	sort.Sort(f)
	if f.feat[0] != 1 || f.gains[0] != -5 || f.feat[1] != 2 { t.Fatal(f.feat, f.gains) }
}
''')

seed(id="C01-threshold-single-precision", property="C01",
  edits=[("xjson.go", "		Threshold:         t.threshold,", "		Threshold:         float64(float32(t.threshold)),")],
  pkg=".", needs="a threshold that single precision cannot hold and a sample between the two values",
  breaks="a reloaded model sends such a sample to the other child",
  test='''package boo
import ("testing"; "bufio"; "strings"; "bytes"; "github.com/rmera/boo/utils")
func TestPlanted(t *testing.T) {
	leaf := func(v float64) *Tree { return &Tree{xgb: true, value: v, branches: 1, nsamples: 2} }
	T := &Tree{xgb: true, bestScoreSoFar: 1, threshold: 16777217, left: leaf(10), right: leaf(20), branches: 3, nsamples: 4}
	M := &MultiClass{b: [][]*Tree{{T, leaf(1)}}, learningRate: 0.3, classLabels: []int{1, 2}, baseScore: 0.5, xgb: true, probTransform: utils.SoftMaxDense}
	var b bytes.Buffer
	if err := JSONMultiClass(M, "softmax", &b); err != nil { t.Fatal(err) }
	M2, err := UnJSONMultiClass(bufio.NewReader(strings.NewReader(b.String())))
	if err != nil { t.Fatal(err) }
	r := []float64{16777217}
	p, q := M.PredictSingle(r), M2.PredictSingle(r)
	if p[0] != q[0] || p[1] != q[1] { t.Fatal(p, q) }
}
''')
seed(id="C05-right-child-one-short", property="C05",
  edits=[("tree.go", "			if nright < int(o.MinChildWeight) {\n				break\n			}\n			gain = 0.5*", "			if nleft > T.nsamples-int(o.MinChildWeight)+1 {\n				break\n			}\n			gain = 0.5*")],
  pkg=".", needs="extreme boosting and a best split that leaves exactly one row too few on its right side",
  breaks="a split with fewer rows than the minimum on the right is adopted",
  test='''package boo
import "testing"
func TestPlanted(t *testing.T) {
	o := DefaultXTreeOptions()
	o.MinChildWeight, o.Gamma, o.Lambda, o.MaxDepth = 2, 0, 0, 1
	o.Gradients = []float64{1, 1, 1, -50}
	o.Hessian = []float64{1, 1, 1, 1}
	T := NewTree([][]float64{{1}, {2}, {3}, {4}}, o)
	if T.left == nil { t.Fatal("no split") }
	if T.left.nsamples < 2 || T.right.nsamples < 2 { t.Fatal(T.left.nsamples, T.right.nsamples) }
}
''')
seed(id="C08-last-sample-lost", property="C08",
  edits=[("utils/stat.go", "	last := len(folds) - 1\n	for i := 0; i < tot; i++ {\n		if !isIn", "	last := len(folds) - 1\n	for i := 0; i < tot-1; i++ {\n		if !isIn")],
  pkg="utils", needs="a dataset whose size is not a multiple of the folds, and draws that leave its last sample over",
  breaks="the last sample is then in no fold",
  test='''package utils
import "testing"
func TestPlanted(t *testing.T) {
	D := &DataBunch{}
	for i := 0; i < 7; i++ { D.Data = append(D.Data, []float64{float64(i)}); D.Labels = append(D.Labels, i) }
	for k := 0; k < 400; k++ {
		n, f, _ := CrossValidationSamples(D, 3)
		seen := map[int]int{}
		for i := 0; i < n; i++ {
			_, te := f()
			for _, l := range te.Labels { seen[l]++ }
		}
		for i := 0; i < 7; i++ { if seen[i] != 1 { t.Fatal(i, seen) } }
	}
}
''')
seed(id="C12-equal-one-sided", property="C12",
  edits=[("options.go", "	if O.Verbose != o.Verbose {\n", "	if O.Verbose && !o.Verbose {\n")],
  pkg=".", needs="two options that differ only in Verbose, compared from the verbose one",
  breaks="they compare equal in one order and different in the other",
  test='''package boo
import "testing"
func TestPlanted(t *testing.T) {
	a := DefaultXOptions(); b := a.Clone(); b.Verbose = true
	if a.Equal(b) || b.Equal(a) { t.Fatal(a.Equal(b), b.Equal(a)) }
}
''')
seed(id="C13-short-row-hint", property="C13",
  edits=[("utils/csv.go", "	if haslab {\n		label, err", "	if haslab && len(records) > 1 {\n		label, err")],
  pkg="utils", needs="a labelled CSV file whose lines hold a label and nothing else",
  breaks="the label is taken for a value and replaced by -1",
  test='''package utils
import ("testing"; "strings")
func TestPlanted(t *testing.T) {
	D, err := ParseCSVFromReader(strings.NewReader("3\\n4\\n"), false, true, ',')
	if err != nil { t.Fatal(err) }
	if len(D.Labels) != 2 || D.Labels[0] != 3 || D.Labels[1] != 4 || len(D.Data[0]) != 0 { t.Fatal(D.Labels, D.Data) }
}
''')
seed(id="C16-top-lists-share-buffers", property="C16",
  edits=[("confu/confu.go", "	if len(docopy) > 0 && docopy[0] {\n", "	if len(docopy) > 0 && docopy[0] && N < len(sorti) { //the whole list needs no cutting\n")],
  pkg="confu", needs="asking for the lists of all labels with N at least the number of labels",
  breaks="every list is the one of the last label",
  test='''package confu
import "testing"
func TestPlanted(t *testing.T) {
	C := &Confusions{Actual: []int{1, 1, 1, 2, 2}, Predicted: []int{1, 1, 2, 2, 2}, Labels: []int{1, 2}, m: map[int]int{1: 0, 2: 1}}
	r, f := C.TopNPerLabel(5)
	if r[0][0] != 0 || f[0][0] != 2 || f[0][1] != 1 || r[1][0] != 1 || f[1][0] != 2 || f[1][1] != 0 { t.Fatal(r, f) }
}
''')
seed(id="C20-parent-term-without-lambda", property="C20",
  edits=[("tree.go", "-(sq(sumg)/(sumh+o.Lambda)))", "-(sq(sumg)/sumh))")],
  pkg=".", needs="extreme boosting with a positive lambda and a split whose gain is between the two formulas",
  breaks="the gain is too small, so splits worth making are not made",
  test='''package boo
import ("testing"; "math")
func TestPlanted(t *testing.T) {
	o := DefaultXTreeOptions()
	o.MinChildWeight, o.Gamma, o.Lambda, o.MaxDepth = 1, 0, 2, 1
	o.Gradients = []float64{1, 1, 4, 4}
	o.Hessian = []float64{1, 1, 1, 1}
	T := NewTree([][]float64{{1}, {2}, {3}, {4}}, o)
	want := 0.5 * (4.0/4 + 64.0/4 - 100.0/6)
	if math.Abs(T.bestScoreSoFar-want) > 1e-9 && T.bestScoreSoFar < want { t.Fatal(T.bestScoreSoFar, want) }
}
''')
seed(id="C22-normalization-negative-sum", property="C22",
  edits=[("utils/loss_acti.go", "	for i := range p {\n		probs[i] /= sum\n	}", "	for i := range p {\n		if sum > 0 {\n			probs[i] /= sum\n		}\n	}")],
  pkg="utils", needs="a row whose entries add up to a negative number",
  breaks="the row is returned unnormalised",
  test='''package utils
import "testing"
func TestPlanted(t *testing.T) {
	p := Normalization([]float64{-1, -3}, nil)
	if p[0] != 0.25 || p[1] != 0.75 { t.Fatal(p) }
}
''')
seed(id="C24-sparse-export", property="C24",
  edits=[("utils/libsvm.go", "		for j, w := range v {\n			s := fmt", "		for j, w := range v {\n			if w == 0 && j > 0 {\n				continue //libSVM files may leave zeros out\n			}\n			s := fmt")],
  pkg="utils", needs="a row with a zero that is not in the first column",
  breaks="the term is left out, which the library's own reader does not understand",
  test='''package utils
import ("testing"; "strings")
func TestPlanted(t *testing.T) {
	D := &DataBunch{Data: [][]float64{{1, 0, 3}, {0, 2, 0}}, Labels: []int{1, 2}}
	E, err := ParseLibSVMFromReader(strings.NewReader(D.LibSVM()+"\\n"), false)
	if err != nil { t.Fatal(err) }
	for i, r := range D.Data { if len(E.Data[i]) != 3 { t.Fatal(E.Data) }; for j, v := range r { if E.Data[i][j] != v { t.Fatal(E.Data) } } }
}
''')
seed(id="C26-full-sample-shortcut", property="C26",
  edits=[("utils/math.go", "	ret := make([][]float64, 0, len(rowIndexes))\n	for _, v := range rowIndexes {", "	if len(rowIndexes) == len(m) && len(m) > 0 && len(colIndexes) == len(m[0]) {\n		return m //nothing is left out\n	}\n	ret := make([][]float64, 0, len(rowIndexes))\n	for _, v := range rowIndexes {")],
  pkg="utils", needs="asking for all rows and all columns in another order, or twice",
  breaks="the matrix comes back in its own order",
  test='''package utils
import "testing"
func TestPlanted(t *testing.T) {
	s := SampleMatrix([][]float64{{1, 2}, {3, 4}}, []int{1, 0}, []int{1, 0})
	if s[0][0] != 4 || s[0][1] != 3 || s[1][0] != 2 || s[1][1] != 1 { t.Fatal(s) }
}
''')
seed(id="C27-columns-drawn-with-row-rate", property="C27",
  edits=[("xgb.go", "SubSample(len(D.Data[0]), O.ColSubSample)", "SubSample(len(D.Data[0]), O.SubSample)")],
  pkg=".", needs="a column rate that differs from the row rate",
  breaks="columns are drawn with the row rate",
  test='''package boo
import ("testing"; "github.com/rmera/boo/utils")
func TestPlanted(t *testing.T) {
	D := &utils.DataBunch{}
	for i := 0; i < 20; i++ {
		r := make([]float64, 30)
		for j := range r { r[j] = float64(i) }
		D.Data = append(D.Data, r); D.Labels = append(D.Labels, i/10)
	}
	o := DefaultXOptions()
	o.SubSample, o.ColSubSample, o.Rounds, o.MinChildWeight, o.Gamma, o.EarlyStop = 1, 0.4, 40, 1, 0, 0
	M := NewMultiClass(D, o)
	for _, r := range M.b { for _, T := range r { if !T.Leaf() && T.splitFeatureIndex != 0 { return } } }
	t.Fatal("column 0 was drawn in every round")
}
''')
seed(id="C28-equal-loss-is-progress", property="C28",
  edits=[("xgb.go", "				if prevloss[k] <= currloss {", "				if prevloss[k] < currloss {")],
  pkg=".", needs="a loss that stays exactly the same from one round to the next",
  breaks="a class whose loss no longer changes is never stopped",
  test='''package boo
import ("testing"; "github.com/rmera/boo/utils"; "gonum.org/v1/gonum/mat")
type flat struct{ utils.SQErrLoss }
func (s *flat) Loss(a, b, c *mat.Dense) float64 { return 5 }
func TestPlanted(t *testing.T) {
	D := &utils.DataBunch{}
	for i := 0; i < 8; i++ { D.Data = append(D.Data, []float64{float64(i)}); D.Labels = append(D.Labels, i/4) }
	o := DefaultXOptions()
	o.SubSample, o.ColSubSample, o.Rounds, o.EarlyStop, o.Loss = 1, 1, 10, 3, &flat{}
	if M := NewMultiClass(D, o); M.Rounds(0) != 4 { t.Fatal(M.Rounds(0)) }
}
''')
seed(id="C29-gamma-range-from-lambda", property="C29",
  edits=[("cv/grad.go", "o.Gamma < co.Gamma[0] || o.Gamma > co.Gamma[1]", "o.Gamma < co.Gamma[0] || o.Gamma > co.Lambda[1]")],
  pkg="cv", needs="a step that takes gamma above its own maximum but not above lambda's",
  breaks="gamma leaves its configured range",
  test='''package cv
import ("testing"; "github.com/rmera/boo")
func TestPlanted(t *testing.T) {
	co := DefaultXGridOptions(); o := boo.DefaultXOptions()
	setOptionsToMid(o, co)
	if err := checkAgainstOptions(o, co); err != nil { t.Fatal(err) }
	o.Gamma = 1
	if checkAgainstOptions(o, co) == nil { t.Fatal("gamma out of range accepted") }
}
''')
seed(id="C07-labels-not-a-copy", property="C07",
  edits=[("multiclass.go", "	r := make([]int, len(M.classLabels))\n	copy(r, M.classLabels)\n	return r", "	r := append(M.classLabels[:0], M.classLabels...)\n	return r")],
  pkg=".", needs="a caller that changes the label list it was given",
  breaks="the model's own labels change with it",
  test='''package boo
import "testing"
func TestPlanted(t *testing.T) {
	M := &MultiClass{classLabels: []int{4, 7}}
	l := M.ClassLabels(); l[0] = 99
	if M.classLabels[0] != 4 { t.Fatal(M.classLabels) }
}
''')
seed(id="C18-id-read-outside-lock", property="C18", race=True,
  edits=[("utils/json.go", "	g.mu.Lock()\n	r = g.current + 1\n	g.current++\n	g.mu.Unlock()\n	return r", "	r = g.current + 1\n	g.mu.Lock()\n	g.current = r\n	g.mu.Unlock()\n	return r")],
  pkg="utils", needs="two goroutines drawing node numbers at the same time",
  breaks="the same number may be drawn twice",
  test='''package utils
import ("testing"; "sync")
func TestPlanted(t *testing.T) {
	g := &idGiver{}
	var wg sync.WaitGroup
	out := make([][]uint, 8)
	for k := range out {
		wg.Add(1)
		go func() { defer wg.Done(); for i := 0; i < 5000; i++ { out[k] = append(out[k], g.Next()) } }()
	}
	wg.Wait()
	seen := map[uint]bool{}
	for _, o := range out { for _, v := range o { if seen[v] { t.Fatal(v) }; seen[v] = true } }
}
''')
