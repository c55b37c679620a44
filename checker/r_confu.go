package main

func init() {
	reg("C16", "proof", "canonical contents of the confusion counts for arbitrary labels and predictions (cell by cell), of the label-to-position map, the sorter, the reversed and truncated lists and the copy of them, compared with the counts of the property", func(C *Ctx) {
		C.Equiv(Equiv{fn: "confu.MCConfusions", spec: "confu.vsMCConfusions", opaque: []string{"(*boo.MultiClass).PredictSingleClass"}})
		C.Equiv(Equiv{fn: "(*confu.Confusions).Matrix", spec: "confu.vsMatrix"})
		C.Equiv(Equiv{fn: "(*confu.Confusions).TopNPerLabel", spec: "confu.vsTopNPerLabel", opaque: []string{"(*confu.Confusions).TopNForLabelM"}})
		C.Equiv(Equiv{fn: "(*confu.idSorter).Len", spec: "confu.vsSortLen"})
		C.Equiv(Equiv{fn: "(*confu.idSorter).Less", spec: "confu.vsSortLess"})
		C.Equiv(Equiv{fn: "(*confu.idSorter).Swap", spec: "confu.vsSortSwap"})
		C.Flow(Flow{fn: "confu.memIntSort", spec: "confu.vsMemIntSort", calls: []FlowCall{{name: "sort.Sort"}}, result: true})
		C.Flow(Flow{fn: "(*confu.Confusions).TopNForLabelM", spec: "confu.vsTopN", alt: []string{"confu.vsTopNMat"}, opaque: []string{"(*confu.Confusions).Matrix", "confu.memIntSort"}, calls: []FlowCall{{name: "(*confu.Confusions).Matrix"}, {name: "confu.memIntSort"}}, result: true})
	})
}
