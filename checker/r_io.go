package main

func init() {
	reg("C24", "proof", "canonical values of the exported text (labels, keys and numbers formatted piecewise, lines as lists over rows and columns) compared with the property stated as a reference writer", func(C *Ctx) {
		C.Equiv(Equiv{fn: "(*utils.DataBunch).getithLabel", spec: "utils.vsIthLabel", cond: true})
		C.Equiv(Equiv{fn: "(*utils.DataBunch).CSV", spec: "utils.vsCSV", alt: []string{"utils.vsCSVMake", "utils.vsCSVConcat"}, opaque: []string{"(*utils.DataBunch).getithLabel"}})
		C.Equiv(Equiv{fn: "(*utils.DataBunch).LibSVM", spec: "utils.vsLibSVM", alt: []string{"utils.vsLibSVMBlanks", "utils.vsLibSVMMake", "utils.vsLibSVMConcat"}, opaque: []string{"(*utils.DataBunch).getithLabel"}})
	})
}

func init() {
	reg("C13", "proof", "canonical values of the parsed records, headers and labels, the order and conditions of every read from the input, and which inputs are refused, compared with the property stated as a reference reader", func(C *Ctx) {
		C.sharedTails([]string{"utils.DataBunchFromCSVFile", "utils.DataBunchFromLibSVMFile", "confu.ReadNameMap"})
		readerFlows(C)
	})
}

func readerFlows(C *Ctx) {
	C.Flow(Flow{fn: "utils.vdRecord", spec: "utils.veRecord", bis: true, result: true, errs: true})
	C.Flow(Flow{fn: "utils.vdLine", spec: "utils.veLine", bis: true, result: true, errs: true})
	C.Flow(Flow{fn: "utils.vdHeader", spec: "utils.veHeader", bis: true, result: true, errs: true})
	C.Flow(Flow{fn: "utils.ParseCSVFromReader", spec: "utils.vsParseCSV", alt: []string{"utils.vsParseCSVBreak", "utils.vsParseCSVAhead"}, bis: true, result: true, errs: true, opaque: []string{"utils.recordsToData"},
		calls: []FlowCall{{name: "encoding/csv.NewReader", min: 1}, {name: "set *"}, {name: "(*encoding/csv.Reader).*"}, {name: "utils.recordsToData", args: []int{0, 1}, min: 1}}})
	C.Flow(Flow{fn: "utils.ParseLibSVMFromReader", spec: "utils.vsParseSVM", alt: []string{"utils.vsParseSVMBreak", "utils.vsParseSVMFirst", "utils.vsParseSVMFirstBreak", "utils.vsParseSVMAhead"}, bis: true, result: true, errs: true, opaque: []string{"utils.parseLibSVMLine"},
		calls: []FlowCall{{name: "bufio.New*"}, {name: "(*bufio.Reader).*"}, {name: "utils.parseLibSVMLine", min: 1}}})
	C.Flow(Flow{fn: "utils.DataBunchFromCSVFile", spec: "utils.vsCSVFile", bis: true, result: true, errs: true, opaque: []string{"utils.ParseCSVFromReader"},
		calls: []FlowCall{{name: "os.*"}, {name: "utils.ParseCSVFromReader", min: 1}}})
	C.Flow(Flow{fn: "utils.DataBunchFromLibSVMFile", spec: "utils.vsSVMFile", bis: true, result: true, errs: true, opaque: []string{"utils.ParseLibSVMFromReader"},
		calls: []FlowCall{{name: "os.*"}, {name: "utils.ParseLibSVMFromReader", min: 1}}})
	C.Flow(Flow{fn: "confu.ReadNameMap", spec: "confu.vsReadNameMap", alt: []string{"confu.vsReadNameMapLoop", "confu.vsReadNameMapBreak"}, bis: true, result: true, errs: true,
		calls: []FlowCall{{name: "os.*"}, {name: "bufio.New*"}, {name: "(*bufio.Reader).*"}, {name: "enter *", min: 1}}})
}
