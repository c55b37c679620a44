package main

func init() {
	reg("C08", "proof", "canonical values of what the fold generator announces, of the draws, of the test it applies to each draw against all folds, of the folds it completes, and of the rows, labels and keys handed out by the returned function, called n+1 times by a driver, compared with the property stated as a reference generator; folds and call count are loop-carried values, by partition refinement", func(C *Ctx) {
		C.sharedTails([]string{"utils.CrossValidationSamples"})
		C.Equiv(Equiv{fn: "utils.isInPrevious", spec: "utils.vsInPrevious"})
		C.Equiv(Equiv{fn: "utils.fillRemaining", spec: "utils.vsFillRemaining", opaque: []string{"utils.isInPrevious"}})
		C.Flow(Flow{fn: "utils.vdFill", spec: "utils.veFill", bis: true, result: true})
		C.Flow(Flow{fn: "utils.vdSamples", bis: true, spec: "utils.veSamples", alt: []string{"utils.veSamplesB", "utils.veSamplesC", "utils.veSamplesD"}, opaque: []string{"utils.isInPrevious", "utils.fillRemaining", "utils.fillDataBunch", "utils.vuFold"},
			calls: []FlowCall{{name: "utils.isInPrevious"}, {name: "utils.fillRemaining"}, {name: "utils.fillDataBunch", min: 2}, {name: "utils.vuFold", min: 1}, {name: "math/rand/v2.IntN"}}, result: true})
	})
}
