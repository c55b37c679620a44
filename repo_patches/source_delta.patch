From 9137592a22fef2892b278134d9ce35e16822fcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:35 +0000
Subject: [PATCH 01/41] fix: reading a saved ensemble no longer drops its last
 boosting round

---
 xjson.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xjson.go b/xjson.go
index 7ff1d2d..1ccc22b 100644
--- a/xjson.go
+++ b/xjson.go
@@ -89,6 +89,9 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 		return nil, fmt.Errorf("Error reading of trees lines from file: %v", err)
 
 	}
+	if class != nil { //the last round has no ROUND line after it
+		trees = append(trees, class)
+	}
 	ret.b = trees
 	return ret, nil
 }
-- 
2.43.0


From f20d65de78e82a29be5ff39dcbf016775a469d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:36 +0000
Subject: [PATCH 02/41] fix: refuse a saved ensemble that names an unknown
 probability transform

---
 xjson.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xjson.go b/xjson.go
index 1ccc22b..87a3c1f 100644
--- a/xjson.go
+++ b/xjson.go
@@ -47,7 +47,11 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 	}
 	ret.learningRate = jmc.LearningRate
 	ret.classLabels = jmc.ClassLabels
-	ret.probTransform = ProbTransformMap[jmc.ProbTransformName]
+	transform, ok := ProbTransformMap[jmc.ProbTransformName]
+	if !ok {
+		return nil, fmt.Errorf("Unknown probability transform in metadata: %q", jmc.ProbTransformName)
+	}
+	ret.probTransform = transform
 	ret.baseScore = jmc.BaseScore
 	//I'm not sure this will work!
 	//	s, err = r.ReadString('\n')
-- 
2.43.0


From 14ae5c4ae99b0aa8cf87f058fd415626b102ad1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:36 +0000
Subject: [PATCH 03/41] fix: keep the boosting kind of a saved ensemble, so its
 feature ranking survives

---
 xjson.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xjson.go b/xjson.go
index 87a3c1f..4e41836 100644
--- a/xjson.go
+++ b/xjson.go
@@ -53,6 +53,7 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 	}
 	ret.probTransform = transform
 	ret.baseScore = jmc.BaseScore
+	ret.xgb = jmc.XGB
 	//I'm not sure this will work!
 	//	s, err = r.ReadString('\n')
 	//	if err != nil {
@@ -140,6 +141,7 @@ type JSONMetaData struct {
 	ClassLabels       []int
 	ProbTransformName string
 	BaseScore         float64
+	XGB               bool
 }
 
 func MarshalMCMetaData(m *MultiClass, probtransformname string) ([]byte, error) {
@@ -148,6 +150,7 @@ func MarshalMCMetaData(m *MultiClass, probtransformname string) ([]byte, error)
 		ClassLabels:       m.classLabels,
 		ProbTransformName: probtransformname,
 		BaseScore:         m.baseScore,
+		XGB:               m.xgb,
 	}
 	j, err := json.Marshal(r)
 	if err != nil {
-- 
2.43.0


From b75a05a13009796b0f5afcf30f8964830dd583bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:37 +0000
Subject: [PATCH 04/41] fix: report a saved ensemble cut in the middle of a
 line instead of ignoring the line

---
 xjson.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xjson.go b/xjson.go
index 4e41836..ccc4ab2 100644
--- a/xjson.go
+++ b/xjson.go
@@ -94,6 +94,9 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 		return nil, fmt.Errorf("Error reading of trees lines from file: %v", err)
 
 	}
+	if s != "" {
+		return nil, fmt.Errorf("Incomplete last line in file: %s", s)
+	}
 	if class != nil { //the last round has no ROUND line after it
 		trees = append(trees, class)
 	}
-- 
2.43.0


From 29e985499c0aeec04a2b611b0bf97df9813c2221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:52 +0000
Subject: [PATCH 05/41] fix: do not skip every boosting round when row
 sub-sampling is not used

---
 xgb.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xgb.go b/xgb.go
index 2699b8d..aa71ad6 100644
--- a/xgb.go
+++ b/xgb.go
@@ -55,7 +55,8 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 		if O.ColSubSample < 1 && O.XGB {
 			sampleCols = SubSample(len(D.Data[0]), O.ColSubSample)
 		}
-		if len(sampleIndexes) < O.MinSample {
+		//a nil sampleIndexes means that all rows are used.
+		if sampleIndexes != nil && (len(sampleIndexes) == 0 || len(sampleIndexes) < O.MinSample) {
 			continue
 		}
 		classes := make([]*Tree, 0, 1)
-- 
2.43.0


From d69db6f0af2867c739d8f2be4ae85e19cb26ec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:52 +0000
Subject: [PATCH 06/41] fix: training no longer overwrites MinChildWeight in
 the caller's options

---
 xgb.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xgb.go b/xgb.go
index aa71ad6..e706bbf 100644
--- a/xgb.go
+++ b/xgb.go
@@ -33,8 +33,9 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 	utils.ToOnes(rawPred)
 	rawPred.Scale(O.BaseScore, rawPred)
 	//just to be safe
-	if O.MinChildWeight < 1 {
-		O.MinChildWeight = 1
+	minChildWeight := O.MinChildWeight
+	if minChildWeight < 1 {
+		minChildWeight = 1
 	}
 	tin := make([]int, len(D.Data))
 	tval := make([]float64, len(D.Data))
@@ -71,7 +72,7 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 			hess = O.Loss.Hessian(kthprobs, nil) //keep an eye on this.
 			if O.XGB {
 				tOpts = DefaultXTreeOptions()
-				tOpts.MinChildWeight = O.MinChildWeight
+				tOpts.MinChildWeight = minChildWeight
 				tOpts.MaxDepth = O.MaxDepth
 				grads = O.Loss.Gradients(kthlabelvector, kthprobs, grads)
 				tOpts.Lambda = O.Lambda
@@ -88,7 +89,7 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 				tOpts = DefaultGTreeOptions()
 				tOpts.in = tin
 				tOpts.val = tval
-				tOpts.MinChildWeight = O.MinChildWeight
+				tOpts.MinChildWeight = minChildWeight
 				tOpts.MaxDepth = O.MaxDepth
 				grads = O.Loss.NegGradients(kthlabelvector, kthprobs, grads)
 				tOpts.Y = grads.RawRowView(0)
-- 
2.43.0


From 247464654ebf8db883f86e178f2e0ab2a0b80784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:53 +0000
Subject: [PATCH 07/41] fix: keep each tree at its class position after another
 class stops early

---
 xgb.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/xgb.go b/xgb.go
index e706bbf..5379a9a 100644
--- a/xgb.go
+++ b/xgb.go
@@ -63,6 +63,8 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 		classes := make([]*Tree, 0, 1)
 		for k := 0; k < nlabels; k++ {
 			if stopped[k] {
+				//keeps the position of each tree in the round equal to its class
+				classes = append(classes, emptyTree(O.XGB))
 				continue
 			}
 			var tOpts *TreeOptions
@@ -144,6 +146,15 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 
 }
 
+// Returns a leaf, fitted to no samples, that adds nothing to a prediction.
+func emptyTree(xgb bool) *Tree {
+	ret := &Tree{xgb: xgb, branches: 1}
+	if !xgb {
+		ret.bestScoreSoFar = math.Inf(1)
+	}
+	return ret
+}
+
 // Obtains the Log of the odds for a nxm matrix
 // where each element i,j is the probability of the
 // samble i to belong to class j.
-- 
2.43.0


From 1d69c5a366063f417cc4a384525acd02c8aeb8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:53 +0000
Subject: [PATCH 08/41] fix: LogOddsFromProbs takes the logarithm of the odds,
 not of p(1-p)

---
 xgb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xgb.go b/xgb.go
index 5379a9a..3978622 100644
--- a/xgb.go
+++ b/xgb.go
@@ -165,7 +165,7 @@ func LogOddsFromProbs(m *mat.Dense) *mat.Dense {
 		row := m.RawRowView(i)
 		s := floats.Sum(row)
 		for j, v := range row {
-			ret.Set(i, j, math.Log(v*(s-v)))
+			ret.Set(i, j, math.Log(v/(s-v)))
 		}
 	}
 	return ret
-- 
2.43.0


From 15a700889c48dd7a1bc2f48547d30fe2466a7818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:23 +0000
Subject: [PATCH 09/41] fix: Classes and Rounds no longer swap the number of
 classes and of rounds

---
 multiclass.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/multiclass.go b/multiclass.go
index 83f7350..c117b35 100644
--- a/multiclass.go
+++ b/multiclass.go
@@ -56,19 +56,22 @@ func (M *MultiClass) Rounds(class ...int) int {
 	if len(class) > 0 && class[0] >= 0 {
 		c = class[0]
 	}
-	//	println(len(M.b), c) /////////////////////////
-	if M.Classes() < c || len(M.b) <= c {
-		//println(len(M.b), c, M.Classes(), "v2") /////////////////////////
-
+	if c >= M.Classes() {
 		return -1
 	}
-	return len(M.b[c])
+	rounds := 0
+	for _, round := range M.b {
+		if c < len(round) && round[c].nsamples > 0 { //no samples: the class had already stopped
+			rounds++
+		}
+	}
+	return rounds
 }
 
 // Returns the number of classes, i.e. the number of categories to which
 // each data vector could belong.
 func (M *MultiClass) Classes() int {
-	return len(M.b)
+	return len(M.classLabels)
 }
 
 // Predicts the class to which a single sample belongs. You can give a slice of floats
-- 
2.43.0


From ec4c74ee7c0f9332ef1d83feac1adc5dabce9dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:24 +0000
Subject: [PATCH 10/41] fix: predicting with an ensemble that has no rounds
 gives the base prediction, not a panic

---
 multiclass.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multiclass.go b/multiclass.go
index c117b35..9620fe0 100644
--- a/multiclass.go
+++ b/multiclass.go
@@ -93,8 +93,8 @@ func (M *MultiClass) PredictSingleClass(instance []float64, predictions ...[]flo
 // a slice to be filled with the predictions in order to avoid allocation.
 func (M *MultiClass) PredictSingle(instance []float64, predictions ...[]float64) []float64 {
 	var preds []float64
-	preds = make([]float64, len(M.b[0]))
-	tmp := make([]float64, len(M.b[0]))
+	preds = make([]float64, M.Classes())
+	tmp := make([]float64, M.Classes())
 	for i := range tmp {
 		tmp[i] = M.baseScore
 	}
-- 
2.43.0


From 05ca1932aba659be315cf8bd57e94a505017b5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:24 +0000
Subject: [PATCH 11/41] fix: PredictSingle fills the slice supplied for the
 predictions, as documented

---
 multiclass.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/multiclass.go b/multiclass.go
index 9620fe0..762b52f 100644
--- a/multiclass.go
+++ b/multiclass.go
@@ -93,7 +93,11 @@ func (M *MultiClass) PredictSingleClass(instance []float64, predictions ...[]flo
 // a slice to be filled with the predictions in order to avoid allocation.
 func (M *MultiClass) PredictSingle(instance []float64, predictions ...[]float64) []float64 {
 	var preds []float64
-	preds = make([]float64, M.Classes())
+	if len(predictions) > 0 && len(predictions[0]) >= M.Classes() {
+		preds = predictions[0][:M.Classes()]
+	} else {
+		preds = make([]float64, M.Classes())
+	}
 	tmp := make([]float64, M.Classes())
 	for i := range tmp {
 		tmp[i] = M.baseScore
-- 
2.43.0


From 088c6b0e9b2cf95b876d2c1890f1971d723b3f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:25 +0000
Subject: [PATCH 12/41] fix: Accuracy no longer writes to the model it
 evaluates

---
 multiclass.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/multiclass.go b/multiclass.go
index 762b52f..a58bb23 100644
--- a/multiclass.go
+++ b/multiclass.go
@@ -18,7 +18,6 @@ type MultiClass struct {
 	classLabels   []int
 	probTransform func(*mat.Dense, *mat.Dense) *mat.Dense
 	tmp           []float64
-	predtmp       []float64
 	baseScore     float64
 	xgb           bool
 }
@@ -35,11 +34,12 @@ func (M *MultiClass) Accuracy(D *utils.DataBunch, classes ...int) float64 {
 	right := 0
 	instances := D.Data
 	actualclasses := D.Labels
-	if len(classes) > 0 && classes[0] > 0 && len(M.predtmp) < classes[0] {
-		M.predtmp = make([]float64, classes[0])
+	var predtmp []float64 //not kept in M, so concurrent calls do not interfere
+	if len(classes) > 0 && classes[0] > 0 {
+		predtmp = make([]float64, classes[0])
 	}
 	for i, v := range instances {
-		p := M.PredictSingleClass(v, M.predtmp)
+		p := M.PredictSingleClass(v, predtmp)
 		if M.classLabels[p] == actualclasses[i] {
 			right++
 		}
-- 
2.43.0


From 6457e37b5ca0df2467c6a29a44f136e75d14c235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:25 +0000
Subject: [PATCH 13/41] fix: column sub-sampling applies to every node of a
 tree, not only to its root

---
 tree.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tree.go b/tree.go
index a3300b7..1430d0f 100644
--- a/tree.go
+++ b/tree.go
@@ -81,6 +81,8 @@ func (T *TreeOptions) clone() *TreeOptions {
 	ret.Gamma = T.Gamma
 	ret.ColSampleByNode = T.ColSampleByNode
 	ret.MaxDepth = T.MaxDepth
+	ret.AllowedColumns = T.AllowedColumns
+	ret.Debug = T.Debug
 	ret.Indexes = T.Indexes //The idea of this method is precisely to keep the same options while changing the indexes, so
 	//I could have assigned nil here. Still, the name "clone" suggests a full clone so here it is. Note that its the same
 	//reference in both variables, as slices are pointers.
-- 
2.43.0


From 2d41e7f42b391ec7b76961b8861e13106839c470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:25 +0000
Subject: [PATCH 14/41] fix: Feats.Add looks the feature up under its lock, so
 concurrent additions are safe

---
 tree.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tree.go b/tree.go
index 1430d0f..9a33f60 100644
--- a/tree.go
+++ b/tree.go
@@ -353,17 +353,15 @@ func NewFeats(xgboost bool) *Feats {
 // Adds a feature,gain pair to the f set. This operation
 // is concurrency-safe.
 func (f *Feats) Add(feature int, gain float64) {
+	f.m.Lock()
+	defer f.m.Unlock()
 	index := slices.Index(f.feat, feature)
 	if index >= 0 {
-		f.m.Lock()
 		f.gains[index] += gain
-		f.m.Unlock()
 		return
 	}
-	f.m.Lock()
 	f.feat = append(f.feat, feature)
 	f.gains = append(f.gains, gain)
-	f.m.Unlock()
 	return
 }
 
-- 
2.43.0


From 368af49794425c15c794367558bf1ec46ac05e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:26 +0000
Subject: [PATCH 15/41] fix: printing a tree with too few feature names falls
 back to indexes instead of panicking

---
 tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index 9a33f60..26de93e 100644
--- a/tree.go
+++ b/tree.go
@@ -300,7 +300,7 @@ func (T *Tree) PredictSingle(row []float64) float64 {
 // If given the featurenames, returns the name of the split feature for the node. If not,
 // returns the zero-based index for the split feature.
 func (T *Tree) feature(featurenames []string) string {
-	if featurenames == nil && len(featurenames) <= T.splitFeatureIndex {
+	if len(featurenames) <= T.splitFeatureIndex {
 		return fmt.Sprintf("%2d", T.splitFeatureIndex)
 	}
 	return featurenames[T.splitFeatureIndex]
-- 
2.43.0


From a85d0147b5436a225f9c7c11364bdd100d2f3d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:26 +0000
Subject: [PATCH 16/41] fix: copying and comparing Options cover EarlyStop and
 TreeMethod

---
 options.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/options.go b/options.go
index 73c376a..ef820d2 100644
--- a/options.go
+++ b/options.go
@@ -80,7 +80,10 @@ func (o *Options) Equal(O *Options) bool {
 	if O.BaseScore != o.BaseScore {
 		return false
 	}
-	if O.TreeMethod != "exact" {
+	if O.TreeMethod != o.TreeMethod {
+		return false
+	}
+	if O.EarlyStop != o.EarlyStop {
 		return false
 	}
 	if O.Loss != o.Loss {
@@ -107,7 +110,8 @@ func (o *Options) Clone() *Options {
 	O.MaxDepth = o.MaxDepth
 	O.LearningRate = o.LearningRate
 	O.BaseScore = o.BaseScore
-	O.TreeMethod = "exact"
+	O.TreeMethod = o.TreeMethod
+	O.EarlyStop = o.EarlyStop
 	O.Loss = o.Loss
 	O.Verbose = o.Verbose
 	O.MinSample = o.MinSample
-- 
2.43.0


From c67be5b3c8b5cb99a968140d22429a82f0f35eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:27 +0000
Subject: [PATCH 17/41] fix: DenseCol and AddToCol refuse the column just past
 the last one

---
 utils/math.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/math.go b/utils/math.go
index 18a4829..f164c56 100644
--- a/utils/math.go
+++ b/utils/math.go
@@ -104,7 +104,7 @@ func PrintDenseMatrix(m *mat.Dense) string {
 func DenseCol(D *mat.Dense, col int) *mat.Dense {
 	raw := D.RawMatrix()
 	r, c := D.Dims()
-	if col > c {
+	if col < 0 || col >= c {
 		panic(fmt.Sprintf("DenseCol: Requested column %d of matrix with %d columns: %v", col, c, D))
 	}
 	data := raw.Data
@@ -120,7 +120,7 @@ func DenseCol(D *mat.Dense, col int) *mat.Dense {
 func AddToCol(D *mat.Dense, s []float64, col int) {
 	raw := D.RawMatrix()
 	r, c := D.Dims()
-	if col > c {
+	if col < 0 || col >= c {
 		panic(fmt.Sprintf("AddToCol: Requested column %d of matrix with %d columns: %v", col, c, D))
 	}
 	if len(s) != r {
-- 
2.43.0


From ac33bbd437117ad608123a7248b4ffa8dc9aade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:27 +0000
Subject: [PATCH 18/41] fix: splitting fewer than two samples into folds gives
 an error, not a division by zero

---
 utils/stat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/stat.go b/utils/stat.go
index 14b7122..f98b477 100644
--- a/utils/stat.go
+++ b/utils/stat.go
@@ -70,7 +70,7 @@ func CrossValidationSamples(data *DataBunch, nfold int, usecopies ...bool) (int,
 	}
 	tot := len(data.Data)
 	tried := make([]int, 0, 5)
-	for ; tot/nf < minleftout; nf-- {
+	for ; nf > 0 && tot/nf < minleftout; nf-- {
 		err = fmt.Errorf("The %d-fold crossvalidation requested leaves only %d sample(s) per fold, when the minimum allowed is %d. Will use %d-fold.N-folds already tried: %v", nf, tot/nf, minleftout, nf-1, tried)
 		tried = append(tried, nf)
 	}
-- 
2.43.0


From d2e707fc82a96f186de13f02b0faaf095403e792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:28 +0000
Subject: [PATCH 19/41] fix: cross-validation folds keep the keys of the
 dataset

---
 utils/stat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/stat.go b/utils/stat.go
index f98b477..fc50dc4 100644
--- a/utils/stat.go
+++ b/utils/stat.go
@@ -40,7 +40,7 @@ func fillDataBunch(ori, dest *DataBunch, toadd []int, docopy bool) *DataBunch {
 			dest.Labels = append(dest.Labels, ori.Labels[v])
 		}
 	}
-	if len(dest.Keys) > 0 {
+	if len(ori.Keys) > 0 {
 		if docopy {
 			dest.Keys = make([]string, len(ori.Keys))
 			copy(dest.Keys, ori.Keys)
-- 
2.43.0


From 040c46e1aac10eb7a4129196653ca98e0fca7657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:58 +0000
Subject: [PATCH 20/41] fix: DenseCol and AddToCol step by the stride, so they
 also work on sub-matrix views

---
 utils/math.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/math.go b/utils/math.go
index f164c56..3d97e1d 100644
--- a/utils/math.go
+++ b/utils/math.go
@@ -109,7 +109,7 @@ func DenseCol(D *mat.Dense, col int) *mat.Dense {
 	}
 	data := raw.Data
 	newcol := make([]float64, 0, r)
-	for i := col; i < len(data); i += c {
+	for i := col; i < len(data); i += raw.Stride {
 		newcol = append(newcol, data[i])
 	}
 	return mat.NewDense(1, len(newcol), newcol)
@@ -129,7 +129,7 @@ func AddToCol(D *mat.Dense, s []float64, col int) {
 	}
 	data := raw.Data
 	cont := 0
-	for i := col; i < len(data); i += c {
+	for i := col; i < len(data); i += raw.Stride {
 		data[i] += s[cont]
 		cont++
 	}
-- 
2.43.0


From b135041af1b681a3dced391f3f01bf60b0145432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:58 +0000
Subject: [PATCH 21/41] fix: the libSVM reader keeps a last line without a line
 end

---
 utils/libsvm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/libsvm.go b/utils/libsvm.go
index d642289..5c53183 100644
--- a/utils/libsvm.go
+++ b/utils/libsvm.go
@@ -166,7 +166,8 @@ func ParseLibSVMFromReader(r io.Reader, hasHeader bool) (*DataBunch, error) {
 	for {
 		//	println("Will read the line", cont+1) ///////
 		line, err2 = buf.ReadString('\n')
-		if err2 != nil {
+		//the last line might not end in a newline
+		if err2 != nil && (err2 != io.EOF || line == "") {
 			break
 		}
 		var err error
-- 
2.43.0


From 23261c353ec44fef1e307c12f60024ab2bea5f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:59 +0000
Subject: [PATCH 22/41] fix: the libSVM reader reports an empty line instead of
 panicking

---
 utils/libsvm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/libsvm.go b/utils/libsvm.go
index 5c53183..602eb66 100644
--- a/utils/libsvm.go
+++ b/utils/libsvm.go
@@ -102,6 +102,9 @@ func parseLibSVMLine(line string, header bool, retstr []string, retflo []float64
 	var class int
 	var err error
 	fields := strings.Fields(line)
+	if len(fields) == 0 {
+		return -1, nil, nil, fmt.Errorf("Empty line")
+	}
 	if len(retstr) >= len(fields)-1 {
 		rets = retstr[:0]
 	}
-- 
2.43.0


From cb5879609602852441e4fd799d9ecd0aeb0c0628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:00 +0000
Subject: [PATCH 23/41] fix: the libSVM reader refuses rows of different
 lengths

---
 utils/libsvm.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/libsvm.go b/utils/libsvm.go
index 602eb66..1050e42 100644
--- a/utils/libsvm.go
+++ b/utils/libsvm.go
@@ -189,6 +189,10 @@ func ParseLibSVMFromReader(r io.Reader, hasHeader bool) (*DataBunch, error) {
 			return nil, svmliberror(err, cont+1, line)
 
 		}
+		if len(data) > 0 && len(t) != len(data[0]) {
+			err = fmt.Errorf("%d features, when the previous lines have %d", len(t), len(data[0]))
+			return nil, svmliberror(err, cont+1, line)
+		}
 		data = append(data, t)
 		labels = append(labels, l)
 
-- 
2.43.0


From af9e94358605d5611758d1e1c73c21bd7ef28cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:00 +0000
Subject: [PATCH 24/41] fix: exporting an empty dataset no longer panics

---
 utils/csv.go    | 7 +++++--
 utils/libsvm.go | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/utils/csv.go b/utils/csv.go
index 0c814f2..02e35e3 100644
--- a/utils/csv.go
+++ b/utils/csv.go
@@ -21,8 +21,11 @@ func (D *DataBunch) CSV(separator ...string) string {
 		sep = separator[0]
 	}
 	ret := make([]string, 0, len(D.Data)+1)
-	l := len(D.Data[0])   //everything should be this lenght
-	if len(D.Keys) == l { //I asume no keys otherwise
+	l := len(D.Keys)
+	if len(D.Data) > 0 {
+		l = len(D.Data[0]) //everything should be this lenght
+	}
+	if len(D.Keys) == l && l > 0 { //I asume no keys otherwise
 		k := make([]string, 1, l+1)
 		k[0] = "Labels"
 		for _, v := range D.Keys {
diff --git a/utils/libsvm.go b/utils/libsvm.go
index 1050e42..789c244 100644
--- a/utils/libsvm.go
+++ b/utils/libsvm.go
@@ -68,8 +68,11 @@ func (D *DataBunch) LibSVM() string {
 		return ""
 	}
 	ret := make([]string, 0, len(D.Data)+1)
-	l := len(D.Data[0])   //everything should be this lenght
-	if len(D.Keys) == l { //I asume no keys otherwise
+	l := len(D.Keys)
+	if len(D.Data) > 0 {
+		l = len(D.Data[0]) //everything should be this lenght
+	}
+	if len(D.Keys) == l && l > 0 { //I asume no keys otherwise
 		k := make([]string, 1, l+1)
 		k[0] = "Labels"
 		for i, v := range D.Keys {
-- 
2.43.0


From 1bd37b68ec5196100d0f47c3c2f151826af429ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:01 +0000
Subject: [PATCH 25/41] fix: text exports write numbers in full instead of
 rounding them to 4 decimals

---
 utils/csv.go    | 2 +-
 utils/libsvm.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/csv.go b/utils/csv.go
index 02e35e3..d8c77d3 100644
--- a/utils/csv.go
+++ b/utils/csv.go
@@ -39,7 +39,7 @@ func (D *DataBunch) CSV(separator ...string) string {
 		dline := make([]string, 1, l+1)
 		dline[0] = fmt.Sprintf("%d", D.getithLabel(i))
 		for _, w := range v {
-			s := fmt.Sprintf("%5.4f", w)
+			s := fmt.Sprintf("%v", w)
 			dline = append(dline, s)
 
 		}
diff --git a/utils/libsvm.go b/utils/libsvm.go
index 789c244..fc1d868 100644
--- a/utils/libsvm.go
+++ b/utils/libsvm.go
@@ -86,7 +86,7 @@ func (D *DataBunch) LibSVM() string {
 		dline := make([]string, l+1)
 		dline[0] = fmt.Sprintf("%3d", D.getithLabel(i))
 		for j, w := range v {
-			s := fmt.Sprintf("%d:%5.4f", j+1, w)
+			s := fmt.Sprintf("%d:%v", j+1, w)
 			dline = append(dline, s)
 
 		}
-- 
2.43.0


From cf1f93716b2a9997630d9db888da0f3a5a34e0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:16 +0000
Subject: [PATCH 26/41] fix: ReadNameMap reports a malformed line instead of
 panicking

---
 confu/confu.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/confu/confu.go b/confu/confu.go
index e16d3ec..695e362 100644
--- a/confu/confu.go
+++ b/confu/confu.go
@@ -50,6 +50,9 @@ func ReadNameMap(filename string, separator ...string) (map[int]string, error) {
 		} else {
 			l = strings.Split(s, sep)
 		}
+		if len(l) < 2 {
+			return nil, fmt.Errorf("Malformed line in label names file: %q", s)
+		}
 		num, err := strconv.Atoi(l[0])
 		if err != nil {
 			return nil, err
-- 
2.43.0


From fe64d14a6a35c85531fa49a1a9e1063d9317a446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:16 +0000
Subject: [PATCH 27/41] fix: ReadNameMap keeps an unterminated last line and
 reports read errors

---
 confu/confu.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/confu/confu.go b/confu/confu.go
index 695e362..b48f717 100644
--- a/confu/confu.go
+++ b/confu/confu.go
@@ -40,9 +40,11 @@ func ReadNameMap(filename string, separator ...string) (map[int]string, error) {
 	}
 	defer ffin.Close()
 	fin := bufio.NewReader(ffin)
+	var s string
 	var rerr error
 	ret := make(map[int]string)
-	for s, rerr := fin.ReadString('\n'); rerr == nil; s, rerr = fin.ReadString('\n') {
+	//the last line might not end in a newline
+	for s, rerr = fin.ReadString('\n'); rerr == nil || (rerr == io.EOF && s != ""); s, rerr = fin.ReadString('\n') {
 		s := strings.Replace(s, "\n", "", -1)
 		var l []string
 		if sep == " " {
@@ -59,10 +61,10 @@ func ReadNameMap(filename string, separator ...string) (map[int]string, error) {
 		}
 		ret[num] = l[1]
 	}
-	if errors.Is(rerr, io.EOF) {
-		rerr = nil //EOF is not an actual error
+	if !errors.Is(rerr, io.EOF) { //EOF is not an actual error
+		return nil, rerr
 	}
-	return ret, rerr
+	return ret, nil
 
 }
 
-- 
2.43.0


From 0d9a278da50bbda15c884fa23431b7c0af3370ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:29 +0000
Subject: [PATCH 28/41] fix: folds without a model no longer count as 0% in the
 cross-validation mean

---
 cv/cv.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cv/cv.go b/cv/cv.go
index aaf6923..c169daf 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -26,8 +26,8 @@ func MultiClassCrossValidation(D *utils.DataBunch, nfold int, opts *Options) (fl
 		}
 		log.Printf("Only %d-fold can be performed due to sample size (%d). Error: %v", n, len(D.Data), err)
 	}
-	var i int
-	for i = 0; i < n; i++ {
+	evaluated := 0
+	for i := 0; i < n; i++ {
 		var b *boo.MultiClass
 		train, test := sampler()
 		if opts.O == nil {
@@ -42,13 +42,18 @@ func MultiClassCrossValidation(D *utils.DataBunch, nfold int, opts *Options) (fl
 		}
 		a := b.Accuracy(test)
 		accus += a
+		evaluated++
+	}
+	mean := 0.0
+	if evaluated > 0 {
+		mean = accus / float64(evaluated) //I use evaluated and not n in case we skip some steps.
 	}
 	if opts.Conc {
 		opts.Err <- nil
-		opts.Acc <- accus / float64(i) //I use i and not n in case we skip some steps.
+		opts.Acc <- mean
 		opts.Ochan <- opts.O
 	}
-	return accus / float64(n), nil
+	return mean, nil
 }
 
 // Contains options limiting the search-space
-- 
2.43.0


From f86dad6592e85109c1e55b57178687237ebe11c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:29 +0000
Subject: [PATCH 29/41] fix: Grid works with the default options for regular
 boosting, which leave NCPUs at 0

---
 cv/cv.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cv/cv.go b/cv/cv.go
index c169daf..6081c37 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -174,11 +174,12 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 	var finaloptions *boo.Options
 	accuracies := make([]float64, 0, 100)
 	bestacc := 0.0
-	accs := make([]chan float64, o.NCPUs)
-	errs := make([]chan error, o.NCPUs)
+	ncpus := max(o.NCPUs, 1)
+	accs := make([]chan float64, ncpus)
+	errs := make([]chan error, ncpus)
 
-	os := make([]chan *boo.Options, o.NCPUs)
-	for i := range o.NCPUs {
+	os := make([]chan *boo.Options, ncpus)
+	for i := range ncpus {
 		accs[i] = make(chan float64)
 		errs[i] = make(chan error)
 		os[i] = make(chan *boo.Options)
@@ -211,7 +212,7 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 									conc := &Options{O: t, Acc: accs[cpus], Err: errs[cpus], Ochan: os[cpus], Conc: true}
 									go MultiClassCrossValidation(data, nfold, conc)
 									cpus++
-									if cpus == o.NCPUs {
+									if cpus == ncpus {
 										var err error
 										bestacc, finaloptions, err = rescueConcValues(errs, accs, os, bestacc, finaloptions, o.Verbose, o.WriteBest, data)
 
-- 
2.43.0


From 61c7930abf0382a42f93ac79fee0506023f0690b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:30 +0000
Subject: [PATCH 30/41] fix: a failed evaluation in Grid no longer leaves the
 other workers blocked

---
 cv/cv.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/cv/cv.go b/cv/cv.go
index 6081c37..dfa8ac4 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -239,16 +239,21 @@ func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo
 	var err error
 	var tmpacc float64
 	var tmpop *boo.Options
+	var firsterr error
 	for i, v := range errors {
+		//everything is always received, so no gorutine is left waiting.
 		err = <-v
-		if err != nil {
-			return -1, nil, err
-		}
 		tmpacc = <-accs[i]
-		if tmpacc < 0 {
-			return -1, nil, fmt.Errorf("grads zero") //not a real error, just that the optimizatio is over.
-		}
 		tmpop = <-opts[i]
+		if err == nil && tmpacc < 0 {
+			err = fmt.Errorf("grads zero") //not a real error, just that the optimizatio is over.
+		}
+		if err != nil {
+			if firsterr == nil {
+				firsterr = err
+			}
+			continue
+		}
 		if tmpacc > bestacc {
 			bestacc = tmpacc
 			bestop = tmpop
@@ -260,6 +265,9 @@ func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo
 			}
 		}
 	}
+	if firsterr != nil {
+		return -1, nil, firsterr
+	}
 	return bestacc, bestop, nil
 
 }
-- 
2.43.0


From 4a698a7ecfce98e4b7ce9b01d6927d85f7594889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:30 +0000
Subject: [PATCH 31/41] fix: Grid collects the last combinations when they do
 not fill all the CPUs

---
 cv/cv.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cv/cv.go b/cv/cv.go
index dfa8ac4..285a7b3 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -231,6 +231,13 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 			}
 		}
 	}
+	if cpus > 0 { //the last combinations might not use all CPUs
+		var err error
+		bestacc, finaloptions, err = rescueConcValues(errs[:cpus], accs[:cpus], os[:cpus], bestacc, finaloptions, o.Verbose, o.WriteBest, data)
+		if err != nil {
+			return -1, nil, nil, err
+		}
+	}
 	return bestacc, accuracies, finaloptions, nil
 }
 
-- 
2.43.0


From 27567502ac015959e4eada243beac1bc7f6d72ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:30 +0000
Subject: [PATCH 32/41] fix: Grid returns the accuracies of the combinations it
 evaluated

---
 cv/cv.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cv/cv.go b/cv/cv.go
index 285a7b3..6156731 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -214,7 +214,7 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 									cpus++
 									if cpus == ncpus {
 										var err error
-										bestacc, finaloptions, err = rescueConcValues(errs, accs, os, bestacc, finaloptions, o.Verbose, o.WriteBest, data)
+										bestacc, finaloptions, accuracies, err = rescueConcValues(errs, accs, os, bestacc, finaloptions, accuracies, o.Verbose, o.WriteBest, data)
 
 										if err != nil {
 											return -1, nil, nil, err
@@ -233,7 +233,7 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 	}
 	if cpus > 0 { //the last combinations might not use all CPUs
 		var err error
-		bestacc, finaloptions, err = rescueConcValues(errs[:cpus], accs[:cpus], os[:cpus], bestacc, finaloptions, o.Verbose, o.WriteBest, data)
+		bestacc, finaloptions, accuracies, err = rescueConcValues(errs[:cpus], accs[:cpus], os[:cpus], bestacc, finaloptions, accuracies, o.Verbose, o.WriteBest, data)
 		if err != nil {
 			return -1, nil, nil, err
 		}
@@ -242,7 +242,7 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 }
 
 // Rescues cross-validation results from the given channels (errors, accuracy and the corresponding boosting options)
-func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo.Options, bestacc float64, bestop *boo.Options, verbose bool, writebest bool, data *utils.DataBunch) (float64, *boo.Options, error) {
+func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo.Options, bestacc float64, bestop *boo.Options, accuracies []float64, verbose bool, writebest bool, data *utils.DataBunch) (float64, *boo.Options, []float64, error) {
 	var err error
 	var tmpacc float64
 	var tmpop *boo.Options
@@ -261,6 +261,7 @@ func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo
 			}
 			continue
 		}
+		accuracies = append(accuracies, tmpacc)
 		if tmpacc > bestacc {
 			bestacc = tmpacc
 			bestop = tmpop
@@ -273,9 +274,9 @@ func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo
 		}
 	}
 	if firsterr != nil {
-		return -1, nil, firsterr
+		return -1, nil, nil, firsterr
 	}
-	return bestacc, bestop, nil
+	return bestacc, bestop, accuracies, nil
 
 }
 
-- 
2.43.0


From 44fae3325db100f043cb16b87ff1bb049f6fa296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:31 +0000
Subject: [PATCH 33/41] fix: a model that could not be completely written is
 reported, and its file closed

---
 cv/cv.go     | 13 +++++++++----
 cv/grad.go   |  5 ++++-
 cv/hybrid.go |  5 ++++-
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/cv/cv.go b/cv/cv.go
index 6156731..c617082 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -269,7 +269,9 @@ func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo
 				fmt.Printf("New Best Accuracy %.0f%%, %s\n", bestacc, bestop.String())
 			}
 			if writebest {
-				_ = writeBest(data, bestacc, bestop)
+				if err := writeBest(data, bestacc, bestop); err != nil {
+					log.Printf("Couldn't write the best model: %v", err)
+				}
 			}
 		}
 	}
@@ -286,13 +288,16 @@ func writeBest(data *utils.DataBunch, bestacc float64, bestop *boo.Options) erro
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 	boosted := boo.NewMultiClass(data, bestop)
 	bf := bufio.NewWriter(f)
 	err = boo.JSONMultiClass(boosted, "softmax", bf)
 	if err != nil {
 		return err
 	}
-	bf.Flush()
-	f.Close()
-	return nil
+	err = bf.Flush()
+	if err != nil {
+		return err
+	}
+	return f.Close()
 }
diff --git a/cv/grad.go b/cv/grad.go
index a5abb2a..99a215b 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -2,6 +2,7 @@ package cv
 
 import (
 	"fmt"
+	"log"
 	"math/rand/v2"
 
 	"github.com/rmera/boo"
@@ -262,7 +263,9 @@ func GradientGrid(data *utils.DataBunch, nfold int, options ...*GridOptions) (fl
 					finaloptions = t
 					bestacc = acc
 					if o.WriteBest {
-						writeBest(data, bestacc, finaloptions)
+						if err := writeBest(data, bestacc, finaloptions); err != nil {
+							log.Printf("Couldn't write the best model: %v", err)
+						}
 					}
 				}
 				return t, nil
diff --git a/cv/hybrid.go b/cv/hybrid.go
index 4690388..dc12d43 100644
--- a/cv/hybrid.go
+++ b/cv/hybrid.go
@@ -2,6 +2,7 @@ package cv
 
 import (
 	"fmt"
+	"log"
 
 	"github.com/rmera/boo"
 	"github.com/rmera/boo/utils"
@@ -63,7 +64,9 @@ func HybridGradientGrid(data *utils.DataBunch, nfold int, options ...*GridOption
 							finaloptions = t
 							bestacc = acc
 							if o.WriteBest {
-								writeBest(data, bestacc, finaloptions)
+								if err := writeBest(data, bestacc, finaloptions); err != nil {
+									log.Printf("Couldn't write the best model: %v", err)
+								}
 							}
 						}
 						return t, nil
-- 
2.43.0


From 85cee1dda3c05874d93aebe681cee60dfde540e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:31 +0000
Subject: [PATCH 34/41] fix: the gradient searches no longer alter the best
 options after recording them

---
 cv/grad.go   | 2 +-
 cv/hybrid.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cv/grad.go b/cv/grad.go
index 99a215b..46ba128 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -260,7 +260,7 @@ func GradientGrid(data *utils.DataBunch, nfold int, options ...*GridOptions) (fl
 						fmt.Println("New best accuracy: ", acc, t)
 					}
 					accuracies = append(accuracies, acc)
-					finaloptions = t
+					finaloptions = t.Clone() //t itself is changed by the next steps
 					bestacc = acc
 					if o.WriteBest {
 						if err := writeBest(data, bestacc, finaloptions); err != nil {
diff --git a/cv/hybrid.go b/cv/hybrid.go
index dc12d43..3728866 100644
--- a/cv/hybrid.go
+++ b/cv/hybrid.go
@@ -61,7 +61,7 @@ func HybridGradientGrid(data *utils.DataBunch, nfold int, options ...*GridOption
 								fmt.Println("New best accuracy: ", acc, t)
 							}
 							accuracies = append(accuracies, acc)
-							finaloptions = t
+							finaloptions = t.Clone() //t itself is changed by the next steps
 							bestacc = acc
 							if o.WriteBest {
 								if err := writeBest(data, bestacc, finaloptions); err != nil {
-- 
2.43.0


From 2b11eeff49f0cfab14f0e63a71d0af66eebf2543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:31 +0000
Subject: [PATCH 35/41] fix: the gradient searches compare steps with the
 number of folds requested

---
 cv/grad.go   | 2 +-
 cv/hybrid.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cv/grad.go b/cv/grad.go
index 46ba128..67c849f 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -245,7 +245,7 @@ func GradientGrid(data *utils.DataBunch, nfold int, options ...*GridOptions) (fl
 			t.XGB = o.XGB
 			tprev := t.Clone()
 			CompareAccs := func(t, tprev *boo.Options) (*boo.Options, error) {
-				acc, err := MultiClassCrossValidation(data, 5, &Options{O: t, Conc: false})
+				acc, err := MultiClassCrossValidation(data, nfold, &Options{O: t, Conc: false})
 				if err != nil {
 					return nil, err
 				}
diff --git a/cv/hybrid.go b/cv/hybrid.go
index 3728866..0f2925d 100644
--- a/cv/hybrid.go
+++ b/cv/hybrid.go
@@ -49,7 +49,7 @@ func HybridGradientGrid(data *utils.DataBunch, nfold int, options ...*GridOption
 
 					tprev := t.Clone()
 					CompareAccs := func(t, tprev *boo.Options) (*boo.Options, error) {
-						acc, err := MultiClassCrossValidation(data, 5, &Options{O: t, Conc: false})
+						acc, err := MultiClassCrossValidation(data, nfold, &Options{O: t, Conc: false})
 						if err != nil {
 							return nil, err
 						}
-- 
2.43.0


From 819ed4228e67d435a608b036f34bd15556e7aed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:32 +0000
Subject: [PATCH 36/41] fix: GradientGrid uses the EarlyStop of the search
 options, as the other searches do

---
 cv/grad.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cv/grad.go b/cv/grad.go
index 67c849f..bfcc2a0 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -243,6 +243,7 @@ func GradientGrid(data *utils.DataBunch, nfold int, options ...*GridOptions) (fl
 			t.MaxDepth = md
 			t.MinChildWeight = cw
 			t.XGB = o.XGB
+			t.EarlyStop = o.EarlyStop
 			tprev := t.Clone()
 			CompareAccs := func(t, tprev *boo.Options) (*boo.Options, error) {
 				acc, err := MultiClassCrossValidation(data, nfold, &Options{O: t, Conc: false})
-- 
2.43.0


From e9bc5bd66c30094e5ff59e9179155d154c4d11ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:32 +0000
Subject: [PATCH 37/41] fix: gradient workers get their own copy of the options
 GradStep is updating

---
 cv/grad.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cv/grad.go b/cv/grad.go
index bfcc2a0..9f74704 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -188,7 +188,7 @@ func GradStep(Ori *boo.Options, CVO *GridOptions, D *utils.DataBunch, step, frac
 	gm := map[string]chan *boo.Options{"Gamma": make(chan *boo.Options), "Lambda": make(chan *boo.Options), "SubSample": make(chan *boo.Options), "ColSubSample": make(chan *boo.Options), "LearningRate": make(chan *boo.Options), "Rounds": make(chan *boo.Options)}
 
 	for k, v := range gm {
-		go ParamaterGradStep(D, O, CVO, k, step, fractiondelta, curracc, nfold, central, v)
+		go ParamaterGradStep(D, O.Clone(), CVO, k, step, fractiondelta, curracc, nfold, central, v)
 	}
 	O.Gamma = (<-gm["Gamma"]).Gamma
 	O.Lambda = (<-gm["Lambda"]).Lambda
-- 
2.43.0


From 635869a4e53782c40090ed38f510087a7a5152b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:32 +0000
Subject: [PATCH 38/41] fix: gradient workers deliver exactly one result and
 collect what they started on every path

---
 cv/grad.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/cv/grad.go b/cv/grad.go
index 9f74704..6baac76 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -106,8 +106,11 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 	if central {
 		mO := f[param][0](O.Clone())
 		if mO.Check() != nil {
+			<-pluserr
+			<-plusacc
+			<-pluso
 			out <- O
-
+			return
 		}
 		minerr = make(chan error)
 		mino = make(chan *boo.Options)
@@ -120,8 +123,18 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 	pacc := <-plusacc
 	var der float64
 	_ = <-pluso
+	var macc float64
+	if central {
+		merr := <-minerr
+		macc = <-minacc
+		_ = <-mino
+		if err == nil {
+			err = merr
+		}
+	}
 	if err != nil {
 		out <- O
+		return
 	}
 	h := fd * currentValue(O, param)
 	if !central {
@@ -131,12 +144,6 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 		}
 		der = (pacc - currentAccuracy) / h
 	} else {
-		err = <-minerr
-		macc := <-minacc
-		_ = <-mino
-		if err != nil {
-			out <- O
-		}
 		der = (pacc - macc) / 2 * h
 	}
 	prev := O.Clone()
@@ -182,6 +189,9 @@ func GradStep(Ori *boo.Options, CVO *GridOptions, D *utils.DataBunch, step, frac
 		conc := &Options{O: O, Acc: nil, Err: nil, Ochan: nil, Conc: false}
 		curracc, err = MultiClassCrossValidation(D, nfold, conc)
 		if err != nil {
+			if out != nil {
+				out <- O
+			}
 			return Ori
 		}
 	}
-- 
2.43.0


From a2c9a2e40414ac1673c9c155f73649161bfbc80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:33 +0000
Subject: [PATCH 39/41] fix: a parameter at zero no longer turns into NaN in a
 forward gradient step

---
 cv/grad.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cv/grad.go b/cv/grad.go
index 6baac76..5ee1f48 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -138,7 +138,7 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 	}
 	h := fd * currentValue(O, param)
 	if !central {
-		if h < 0 {
+		if h <= 0 { //the derivative is not defined
 			out <- O
 			return
 		}
-- 
2.43.0


From a46255621f520cece48f4a90a5f20b15831e191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:52 +0000
Subject: [PATCH 40/41] fix: SoftMax no longer overflows to NaN for large
 scores

---
 utils/loss_acti.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/utils/loss_acti.go b/utils/loss_acti.go
index d00d50f..37b1d77 100644
--- a/utils/loss_acti.go
+++ b/utils/loss_acti.go
@@ -37,8 +37,13 @@ func SoftMax(p, probs []float64) []float64 {
 	if probs == nil {
 		probs = make([]float64, len(p))
 	}
+	//subtracting the largest value doesn't change the result, but avoids overflows
+	largest := math.Inf(-1)
+	for _, v := range p {
+		largest = math.Max(largest, v)
+	}
 	for i, v := range p {
-		probs[i] = math.Exp(v)
+		probs[i] = math.Exp(v - largest)
 	}
 	den := floats.Sum(probs)
 	for i := range p {
-- 
2.43.0


From 148b199b10a93e1e450e8fc9116b83d49af0a221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:53 +0000
Subject: [PATCH 41/41] fix: a skipped first round no longer counts as lost
 progress for early stopping

---
 xgb.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xgb.go b/xgb.go
index 3978622..73d348a 100644
--- a/xgb.go
+++ b/xgb.go
@@ -120,7 +120,8 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 					stopped[k] = true
 					continue
 				}
-				if round == 0 {
+				//no earlier loss to compare with, as this is the first round that was not skipped.
+				if len(boosters) == 0 {
 					prevloss[k] = currloss
 					continue
 				}
-- 
2.43.0

