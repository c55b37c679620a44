package main

// Rule decides one property.
type Rule struct {
	Level   string
	Explain string
	Assume  []string
	Check   func(*Ctx)
}

var rules = map[string]*Rule{}

const floatNote = "floating-point arithmetic is read as real arithmetic (rounding, overflow and re-association are not distinguished), NaN is kept apart in comparisons"
const aliasNote = "different parameters of the analysed function do not alias each other, and a callee's documented effect is that of the pinned library version"

func reg(id, level, explain string, f func(*Ctx), assume ...string) {
	rules[id] = &Rule{level, explain, append(assume, aliasNote), f}
}

var tmpRules = map[string]*Rule{}

// regTmp: rules under construction, run only by name with "all".
func regTmp(id, level, explain string, f func(*Ctx), assume ...string) {
	tmpRules[id] = &Rule{level, explain, append(assume, aliasNote), f}
}
