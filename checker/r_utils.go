package main

import "golang.org/x/tools/go/ssa"

func init() {
	reg("C19", "proof", "canonical value of every cell of the matrices each loss method returns or leaves behind, and of the reported loss, compared with the formulas of the property", func(C *Ctx) {
		for _, k := range []string{"SQErr", "MSE"} {
			s := map[string]string{"SQErr": "SQ", "MSE": "MSE"}[k]
			C.Equiv(Equiv{fn: "(*utils." + k + "Loss).NegGradients", spec: "utils.vs" + s + "Neg"})
			C.Equiv(Equiv{fn: "(*utils." + k + "Loss).Gradients", spec: "utils.vs" + s + "Grad"})
			C.Equiv(Equiv{fn: "(*utils." + k + "Loss).Hessian", spec: "utils.vs" + s + "Hess"})
			C.Equiv(Equiv{fn: "(*utils." + k + "Loss).Loss", spec: "utils.vs" + s + "Loss"})
		}
	}, floatNote)
	reg("C22", "proof", "canonical contents of the row each transform returns, compared with entry over sum of entries, the largest entry subtracted before exponentiation; effects on input and result slices included", func(C *Ctx) {
		C.Equiv(Equiv{fn: "utils.SoftMax", spec: "utils.vsSoftMax", alt: softMaxAlts})
		C.Equiv(Equiv{fn: "utils.Normalization", spec: "utils.vsNormalization", alt: normAlts})
		op := []string{"utils.SoftMax", "utils.Normalization"}
		C.Equiv(Equiv{fn: "utils.SoftMaxDense", spec: "utils.vsSoftMaxDense", alt: []string{"utils.vsSoftMaxDenseInPlace"}, opaque: op})
		C.Equiv(Equiv{fn: "utils.NormalizationDense", spec: "utils.vsNormalizationDense", alt: []string{"utils.vsNormalizationDenseInPlace"}, opaque: op})
	}, floatNote)
	reg("C26", "proof", "canonical element-wise contents of each helper's result and of what it was handed, compared with the requested positions", func(C *Ctx) {
		C.Equiv(Equiv{fn: "utils.SampleSlice", spec: "utils.vsSampleSlice", cond: true})
		C.Equiv(Equiv{fn: "utils.SampleMatrix", spec: "utils.vsSampleMatrix", opaque: []string{"utils.SampleSlice"}})
		C.Equiv(Equiv{fn: "utils.TransposeFloats", spec: "utils.vsTranspose"})
		C.Equiv(Equiv{fn: "utils.DenseCol", spec: "utils.vsDenseCol", cond: true})
		C.Equiv(Equiv{fn: "utils.AddToCol", spec: "utils.vsAddToCol", alt: []string{"utils.vsAddToColRaw"}, cond: true})
		C.Equiv(Equiv{fn: "utils.ToOnes", spec: "utils.vsToOnes"})
		argSort(C)
		subSample(C)
		oneHot(C)
	}, floatNote)
}

var softMaxAlts = []string{"utils.vsSoftMaxMaxSumQ", "utils.vsSoftMaxMaxAccP", "utils.vsSoftMaxMaxAccQ", "utils.vsSoftMaxIfSumP", "utils.vsSoftMaxIfSumQ", "utils.vsSoftMaxIfAccP", "utils.vsSoftMaxIfAccQ", "utils.vsSoftMaxFirstSumP", "utils.vsSoftMaxFirstSumQ", "utils.vsSoftMaxFirstAccP", "utils.vsSoftMaxFirstAccQ", "utils.vsSoftMaxFirst1SumP", "utils.vsSoftMaxFirst1SumQ", "utils.vsSoftMaxFirst1AccP", "utils.vsSoftMaxFirst1AccQ", "utils.vsSoftMaxLibSumP", "utils.vsSoftMaxLibSumQ", "utils.vsSoftMaxLibAccP", "utils.vsSoftMaxLibAccQ", "utils.vsSoftMaxFMaxSumP", "utils.vsSoftMaxFMaxSumQ", "utils.vsSoftMaxFMaxAccP", "utils.vsSoftMaxFMaxAccQ", "utils.vsSoftMaxBMaxSumP", "utils.vsSoftMaxBMaxSumQ", "utils.vsSoftMaxBMaxAccP", "utils.vsSoftMaxBMaxAccQ"}
var normAlts = []string{"utils.vsNormalizationCopy", "utils.vsNormalizationCopyQ", "utils.vsNormalizationQ", "utils.vsNormalizationSumQ", "utils.vsNormalizationSumP", "utils.vsNormalizationSumF"}

// helpersByReference: helpers that do what their references say are read as those references
// from here on (the references are written the way the analyses understand best).
func helpersByReference(C *Ctx) {
	for _, h := range [][2]string{{"utils.SampleSlice", "utils.vaSampleSlice"}, {"utils.SampleMatrix", "utils.vaSampleMatrix"}, {"utils.TransposeFloats", "utils.vaTranspose"}} {
		f, s := C.P.Func(h[0]), C.P.Func(h[1])
		if f == nil || s == nil {
			continue
		}
		n := len(C.fails)
		C.Equiv(Equiv{fn: h[0], spec: h[1], cond: h[0] == "utils.SampleSlice", opaque: []string{"utils.SampleSlice"}})
		if len(C.fails) > n { // it does something else: followed as it is
			C.fails = C.fails[:n]
			continue
		}
		if C.P.subst == nil {
			C.P.subst = map[*ssa.Function]*ssa.Function{}
		}
		C.P.subst[f] = s
	}
}
