package main

// B is a formula: a reduced ordered decision diagram over canonical atoms.
type B int32

const (
	BFalse B = 0
	BTrue  B = 1
)

type bnode struct {
	v      int
	lo, hi B
}

var (
	bddNodes = []bnode{{v: 1 << 30}, {v: 1 << 30}}
	bddTab   = map[bnode]B{}
	bddVars  []*Term
	bddVarOf = map[*Term]int{}
	bddIte   = map[[3]B]B{}
	bddHBm   = map[B]int{}
	bddSymm  = map[B]bool{}
)

func bconst(b bool) B {
	if b {
		return BTrue
	}
	return BFalse
}

func bmk(v int, lo, hi B) B {
	if lo == hi {
		return lo
	}
	n := bnode{v, lo, hi}
	if b, ok := bddTab[n]; ok {
		return b
	}
	b := B(len(bddNodes))
	bddNodes = append(bddNodes, n)
	bddTab[n] = b
	return b
}

// assumed fixes atoms while one specialised graph is being evaluated.
var assumed map[*Term]bool

func batom(t *Term) B {
	if v, ok := assumed[t]; ok {
		return bconst(v)
	}
	v, ok := bddVarOf[t]
	if !ok {
		v = len(bddVars)
		bddVars = append(bddVars, t)
		bddVarOf[t] = v
	}
	return bmk(v, BFalse, BTrue)
}

func bite(f, g, h B) B {
	switch {
	case f == BTrue:
		return g
	case f == BFalse:
		return h
	case g == h:
		return g
	case g == BTrue && h == BFalse:
		return f
	}
	k := [3]B{f, g, h}
	if r, ok := bddIte[k]; ok {
		return r
	}
	v := min(bddNodes[f].v, min(bddNodes[g].v, bddNodes[h].v))
	cof := func(b B) (B, B) {
		if bddNodes[b].v == v {
			return bddNodes[b].lo, bddNodes[b].hi
		}
		return b, b
	}
	f0, f1 := cof(f)
	g0, g1 := cof(g)
	h0, h1 := cof(h)
	r := bmk(v, bite(f0, g0, h0), bite(f1, g1, h1))
	bddIte[k] = r
	return r
}

func band(a, b B) B { return bite(a, b, BFalse) }
func bor(a, b B) B  { return bite(a, BTrue, b) }
func bnot(a B) B    { return bite(a, BFalse, BTrue) }
func biff(a, b B) B { return bite(a, b, bnot(b)) }
func bimp(a, b B) B { return bite(a, b, BTrue) }

func ball(bs ...B) B {
	r := BTrue
	for _, b := range bs {
		r = band(r, b)
	}
	return r
}

// constrain is f given that c holds; it depends only on f&c and c.
func constrain(f, c B) B {
	if c == BFalse {
		return BFalse
	}
	memo := map[[2]B]B{}
	var rec func(f, c B) B
	rec = func(f, c B) B {
		if c == BTrue || f <= BTrue {
			return f
		}
		if f == c {
			return BTrue
		}
		k := [2]B{f, c}
		if r, ok := memo[k]; ok {
			return r
		}
		v := min(bddNodes[f].v, bddNodes[c].v)
		cof := func(b B) (B, B) {
			if bddNodes[b].v == v {
				return bddNodes[b].lo, bddNodes[b].hi
			}
			return b, b
		}
		f0, f1 := cof(f)
		c0, c1 := cof(c)
		var r B
		switch {
		case c1 == BFalse:
			r = rec(f0, c0)
		case c0 == BFalse:
			r = rec(f1, c1)
		default:
			r = bmk(v, rec(f0, c0), rec(f1, c1))
		}
		memo[k] = r
		return r
	}
	return rec(f, c)
}

func bddHB(b B) int {
	if b <= BTrue {
		return 0
	}
	if r, ok := bddHBm[b]; ok {
		return r
	}
	n := bddNodes[b]
	r := max(bddVars[n.v].hb, max(bddHB(n.lo), bddHB(n.hi)))
	bddHBm[b] = r
	return r
}

var bddFVm = map[B]uint64{}

func bddFV(b B) uint64 {
	if b <= BTrue {
		return 0
	}
	if r, ok := bddFVm[b]; ok {
		return r
	}
	n := bddNodes[b]
	r := bddVars[n.v].fv | bddFV(n.lo) | bddFV(n.hi)
	bddFVm[b] = r
	return r
}

func bddSym(b B) bool {
	if b <= BTrue {
		return false
	}
	if r, ok := bddSymm[b]; ok {
		return r
	}
	n := bddNodes[b]
	r := bddVars[n.v].sym || bddSym(n.lo) || bddSym(n.hi)
	bddSymm[b] = r
	return r
}

// cubes lists the paths to true as sets of literals.
type lit struct {
	a   *Term
	pos bool
}

func cubes(b B, limit int) [][]lit {
	var out [][]lit
	var rec func(b B, ls []lit)
	rec = func(b B, ls []lit) {
		if b == BFalse || len(out) > limit {
			return
		}
		if b == BTrue {
			out = append(out, append([]lit{}, ls...))
			return
		}
		n := bddNodes[b]
		rec(n.hi, append(ls, lit{bddVars[n.v], true}))
		rec(n.lo, append(ls, lit{bddVars[n.v], false}))
	}
	rec(b, nil)
	return out
}
