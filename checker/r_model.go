package main

func init() {
	reg("C25", "proof", "canonical value of Classes, Rounds and ClassLabels for an arbitrary model and arguments, compared with their definition; and the fields the answer is read from, as stored by training and by the JSON reader", func(C *Ctx) {
		C.Equiv(Equiv{fn: "(*boo.MultiClass).Classes", spec: "boo.vsClasses"})
		C.Equiv(Equiv{fn: "(*boo.MultiClass).Rounds", spec: "boo.vsRounds"})
		C.Equiv(Equiv{fn: "(*boo.MultiClass).ClassLabels", spec: "boo.vsClassLabels"})
	})
	reg("C17", "proof", "canonical value of Accuracy for an arbitrary model and dataset; and in cross-validation every fold taken, model trained, accuracy measured, value sent and value returned (condition, loops, arguments), compared with the mean over the folds that gave a model", func(C *Ctx) {
		cvFlow(C)
		C.Equiv(Equiv{fn: "(*boo.MultiClass).Accuracy", spec: "boo.vsAccuracy", alt: []string{"boo.vsAccuracyWrong"}, opaque: []string{"(*boo.MultiClass).PredictSingleClass"}})
	}, floatNote)
	reg("C03", "proof", "canonical score, class choice and result slice of prediction for an arbitrary model and row, compared with base score + learning rate x sum of the class's tree outputs; and in training every addition to the scores and every probability transform (condition, loops, arguments) and the base score, learning rate and transform put in the model", func(C *Ctx) {
		train(C, []string{"XGB"}, []string{"learningRate", "probTransform", "baseScore", "xgb"}, fcSoft, fcAdd, fcPredict)
		scores(C)
		C.Equiv(Equiv{fn: "(*boo.MultiClass).PredictSingleClass", spec: "boo.vsPredictSingleClass", alt: []string{"boo.vsPredictSingleClassAt", "boo.vsPredictSingleClassAt1", "boo.vsPredictSingleClassMax1"}, opaque: []string{"(*boo.MultiClass).PredictSingle"}})
		C.Equiv(Equiv{fn: "boo.ClassesFromProbs", spec: "boo.vsClassesFromProbs"})
		C.Equiv(Equiv{fn: "(*boo.Tree).Predict", spec: "boo.vsPredict", opaque: []string{"(*boo.Tree).PredictSingle"}})
	}, floatNote)
	reg("C23", "proof", "canonical feature totals of a tree and of a model, compared with one addition of every split of every tree, the ordering relation and the exchange used in sorting, and the merge of totals", func(C *Ctx) {
		op := []string{"(*boo.Tree).FeatureImportance", "boo.NewFeats", "(*boo.Feats).Add"}
		C.Equiv(Equiv{fn: "(*boo.MultiClass).FeatureImportance", spec: "boo.vsModelImportance", opaque: op})
		C.Equiv(Equiv{fn: "(*boo.Feats).Len", spec: "boo.vsFeatsLen"})
		C.Equiv(Equiv{fn: "(*boo.Feats).Less", spec: "boo.vsFeatsLess"})
		C.Equiv(Equiv{fn: "(*boo.Feats).Swap", spec: "boo.vsFeatsSwap"})
		C.Equiv(Equiv{fn: "boo.NewFeats", spec: "boo.vsNewFeats"})
		C.Equiv(Equiv{fn: "(*boo.Feats).Add", spec: "boo.vsFeatsAdd"})
		C.Equiv(Equiv{fn: "(*boo.Feats).Merge", spec: "boo.vsFeatsMerge", opaque: op})
		C.Equiv(Equiv{fn: "(*boo.Tree).FeatureImportance", spec: "boo.vsTreeImportance", opaque: op})
	}, floatNote)
}
