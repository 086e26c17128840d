package main

import (
	"math"
	"sort"

	"github.com/dmitryikh/leaves"

	"zsim/rt"
)

// call is one prediction call with all its memory.
type call struct {
	op     Op
	m      *Model
	rows   int
	cols   int
	groups int // NOutputGroups of the view
	n, t   int
	vals   *gbuf // dense values or feature vector
	indptr []int
	ccols  []int
	cvals  []float64
	ptrF   []int // full arrays the CSR slices were cut from
	colF   []int
	valF   []float64
	out    *gbuf
	need   int // output elements the call may write
	err    error
	single float64
	inputs []*keep
	// rowsDense is every row as a dense vector over the missing value
	rowsDense [][]float64
	refusable bool // the call must be refused
	passed    []float64
	mem       *arena // the client's own memory, used for call after call
}

// arena is memory a client uses again for every call.
type arena struct {
	f, v []float64
	p, c []int
}

func reuseF(dst *[]float64, src []float64) []float64 {
	if cap(*dst) < len(src) {
		*dst = make([]float64, len(src)+50)
	}
	return (*dst)[:copy((*dst)[:len(src)], src)]
}

func reuseI(dst *[]int, src []int) []int {
	if cap(*dst) < len(src) {
		*dst = make([]int, len(src)+50)
	}
	return (*dst)[:copy((*dst)[:len(src)], src)]
}

// Flags of a prediction op.
const (
	fShortOut  = 1 // output one element too short
	fFewCols   = 2 // one feature too few
	fZeroCols  = 3 // ncols = 0
	fEmptyOut  = 4 // no output at all
	fReuse     = 8 // reuse the client's previous buffer
	fMaskFlags = 7
)

// value for the slot before and after CSR arrays
const badIndex = 1 << 40

// prepare builds the memory of a prediction call. groups is NOutputGroups of
// the view used, nf its NFeatures.
func prepare(op Op, m *Model, groups, nf int) *call {
	r := rt.NewRand(op.Seed ^ 0xC0FFEE)
	c := &call{op: op, m: m, n: op.N, t: op.T, groups: groups}
	c.rows = clamp(op.Rows, 0, 70000)
	extra := clamp(op.Extra, 0, 20)
	exact := op.Flag&fNoExact == 0
	mode := func() int { return r.Intn(nRowModes) }
	fl := op.Flag & fMaskFlags
	switch op.K {
	case "one", "single":
		c.rows = 1
		c.cols = nf + extra
		if fl == fFewCols || fl == fZeroCols {
			c.cols = nf - 1
		}
		c.vals = newGbuf(c.cols, &r, 2)
		row := m.row(&r, mode(), exact)
		w := c.vals.win()
		for i := range w {
			if i < len(row) {
				w[i] = row[i]
			} else {
				w[i] = norm(&r)
			}
		}
		c.rowsDense = [][]float64{w}
		c.inputs = append(c.inputs, keepF("feature vector", c.vals.full))
	case "dense":
		c.cols = nf + extra
		switch fl {
		case fFewCols:
			c.cols = nf - 1
		case fZeroCols:
			c.cols = 0
		}
		more := 0 // a matrix with further rows behind those asked for
		if r.Chance(12) {
			more = 1 + r.Intn(40)
		}
		c.vals = newGbuf((c.rows+more)*c.cols, &r, 2)
		w := c.vals.win()
		for i := c.rows * c.cols; i < len(w); i++ {
			w[i] = norm(&r)
		}
		alike := r.Chance(15) // a row differs from the last one in few places
		var row []float64
		for i := 0; i < c.rows; i++ {
			last := row
			row = m.row(&r, mode(), exact)
			if alike && i > 0 && len(row) > 0 && !r.Chance(10) {
				j := r.Intn(len(row))
				x := row[j]
				copy(row, last)
				if r.Chance(80) {
					row[j] = x
				}
			}
			for j := 0; j < c.cols; j++ {
				if j < len(row) {
					w[i*c.cols+j] = row[j]
				} else {
					w[i*c.cols+j] = norm(&r)
				}
			}
			c.rowsDense = append(c.rowsDense, w[i*c.cols:(i+1)*c.cols])
		}
		c.inputs = append(c.inputs, keepF("dense values", c.vals.full))
	case "csr":
		c.genCSR(&r, nf, extra)
	default:
		panic("call " + op.K)
	}
	c.need = c.rows * groups
	n := c.need + extra
	if r.Chance(10) { // room for the results of more rows
		n += groups * (1 + r.Intn(40))
	}
	switch fl {
	case fShortOut:
		n = c.need - 1
	case fEmptyOut:
		n = 0
	}
	if n < 0 {
		n = 0
	}
	c.out = newGbuf(n, &r, r.Intn(4))
	c.passed = c.out.win()
	switch {
	case n < c.need && op.K != "single":
		c.refusable = true
	case op.K != "csr" && c.cols < nf && (op.K != "dense" || nf > 0):
		c.refusable = true
	case op.K == "dense" && c.cols == 0:
		c.refusable = true
	}
	return c
}

func (c *call) genCSR(r *rt.Rand, nf, extra int) {
	exact := c.op.Flag&fNoExact == 0
	lead := r.Intn(5) // stored entries before the first row
	if r.Chance(50) {
		lead = 0
	}
	ptr := []int{}
	cols := []int{}
	vals := []float64{}
	for i := 0; i < lead; i++ {
		cols = append(cols, badIndex)
		vals = append(vals, math.NaN())
	}
	miss := c.m.missing()
	ptr = append(ptr, len(cols))
	style := r.Intn(3)
	ones := r.Chance(15) // indicators: rows differ in columns only
	var used []int       // few of many features are set
	if nf > 100 && r.Chance(70) {
		used = c.m.used()
	}
	for i := 0; i < c.rows; i++ {
		full := c.m.row(r, r.Intn(nRowModes), exact)
		for j := range full {
			if ones {
				full[j] = 1
			}
		}
		row := make([]float64, nf)
		for j := range row {
			row[j] = miss
		}
		density := pick(r, 0, 20, 50, 90, 100)
		var order []int
		for j := 0; j < nf && j < len(full); j++ {
			if used == nil && r.Chance(density) {
				order = append(order, j)
			}
		}
		if len(used) > 0 {
			set := map[int]bool{}
			for k := r.Intn(9); k > 0; k-- {
				j := used[r.Intn(len(used))]
				if r.Chance(20) {
					j = r.Intn(nf)
				}
				if j < nf && j < len(full) && !set[j] {
					set[j] = true
					order = append(order, j)
				}
			}
			sort.Ints(order)
		}
		if style > 0 && len(order) > 1 {
			p := perm(r, len(order))
			o := make([]int, len(order))
			for a, b := range p {
				o[a] = order[b]
			}
			order = o
		}
		for _, j := range order {
			if style == 2 && r.Chance(15) {
				cols = append(cols, j)
				x := c.m.value(r, j, rowNear, exact)
				if ones {
					x = 1
				}
				vals = append(vals, x)
			}
			if style == 2 && r.Chance(10) {
				x := norm(r)
				if ones {
					x = 1
				}
				cols = append(cols, nf+r.Intn(extra+3))
				vals = append(vals, x)
			}
			cols = append(cols, j)
			vals = append(vals, full[j])
			row[j] = full[j]
		}
		if r.Chance(10) {
			cols = append(cols, nf+r.Intn(1000))
			vals = append(vals, 1)
		}
		ptr = append(ptr, len(cols))
		c.rowsDense = append(c.rowsDense, row)
	}
	for i := 0; i < 3; i++ {
		cols = append(cols, badIndex)
		vals = append(vals, math.NaN())
	}
	// cut the slices out of larger arrays
	c.ptrF = append(append([]int{-7, -7}, ptr...), 1<<50, -9)
	c.colF = append([]int{badIndex}, cols...)
	c.valF = append([]float64{math.Inf(-1)}, vals...)
	c.indptr = c.ptrF[2 : 2+len(ptr)]
	c.ccols = c.colF[1 : len(c.colF)-r.Intn(3)]
	c.cvals = c.valF[1:]
	c.cvals = c.cvals[:len(c.ccols)]
	c.inputs = append(c.inputs, keepI("indptr", c.ptrF), keepI("column indexes", c.colF), keepF("values", c.valF))
}

// invoke makes the call on e.
func (c *call) invoke(e *leaves.Ensemble) {
	count(cPredictCalls)
	var w []float64
	if c.vals != nil {
		w = c.vals.win()
	}
	p, cs, vs := c.indptr, c.ccols, c.cvals
	if c.mem != nil {
		w, vs = reuseF(&c.mem.f, w), reuseF(&c.mem.v, vs)
		p, cs = reuseI(&c.mem.p, p), reuseI(&c.mem.c, cs)
	}
	switch c.op.K {
	case "one":
		c.err = e.Predict(w, c.n, c.passed)
	case "single":
		c.single = e.PredictSingle(w, c.n)
	case "dense":
		c.err = e.PredictDense(w, c.rows, c.cols, c.passed, c.n, c.t)
	case "csr":
		c.err = e.PredictCSR(p, cs, vs, c.passed, c.n, c.t)
	}
	if c.err != nil {
		count(cRefused)
	}
}

// mayBeRefused: whether the estimator limit or arguments make e refuse.
func (c *call) mustRefuse(e *leaves.Ensemble) bool {
	if c.refusable {
		return true
	}
	if isLeafView(c.op.V) {
		n := c.n
		if n > 0 && n < e.NEstimators() {
			return true
		}
	}
	return false
}

// effective worker count of a batch call by the documentation
func threadLimit(t, procs int) int {
	if t < 0 || t > procs {
		t = procs
	}
	if t < 1 {
		t = 1
	}
	return t
}

// expectRows computes what Predict gives for each row on e.
func (c *call) expectRows(e *leaves.Ensemble) [][]float64 {
	out := make([][]float64, c.rows)
	g := e.NOutputGroups()
	for i, row := range c.rowsDense {
		o := make([]float64, g)
		if err := e.Predict(row, c.n, o); err != nil {
			fail("row-refused", "Predict refuses row %d of a valid batch (%d features given, %d needed): %v", i, len(row), e.NFeatures(), err)
		}
		out[i] = o
	}
	return out
}

// what describes a call for a message.
func (c *call) what() string {
	s := map[string]string{"one": "Predict", "single": "PredictSingle", "dense": "PredictDense", "csr": "PredictCSR"}[c.op.K]
	s += "(model " + itoa(c.op.M) + " " + c.m.Kind
	if c.op.V != "" {
		s += " view " + c.op.V
	}
	s += ", rows=" + itoa(c.rows) + ", nEstimators=" + itoa(c.n) + ", nThreads=" + itoa(c.t) + ")"
	return s
}

// checkGuards reports damage to memory around the output and to inputs.
func (c *call) checkGuards() {
	if i := c.out.intact(); i >= 0 {
		fail("stray-write", "%s wrote outside the output slice (element %d of the array around it)", c.what(), i-c.out.lo)
	}
	for _, k := range c.inputs {
		if i := k.changed(); i >= 0 {
			fail("input-modified", "%s modified its %s at %d", c.what(), k.name, i)
		}
	}
}

// ---- generators ----

func genRows(r *rt.Rand) int {
	switch r.Intn(10) {
	case 0:
		return r.Intn(3)
	case 1, 2, 3, 4:
		return max(0, 16*(1+r.Intn(9))+r.Intn(3)-1)
	case 5, 6:
		return 17 + r.Intn(60)
	case 7:
		return r.Intn(17)
	case 8:
		return 100 + r.Intn(250)
	}
	return 17 + r.Intn(150)
}

func genThreads(r *rt.Rand) int {
	if r.Chance(60) {
		return 2 + r.Intn(7)
	}
	if r.Chance(12) {
		return hugeInt(r)
	}
	return pick(r, -5, -1, 0, 1, 2, 3, 5, 8, 16, 20, 1000)
}

// hugeInt is a number that does not fit into 32 bits, or hardly.
func hugeInt(r *rt.Rand) int {
	return pick(r, math.MaxInt64, math.MinInt64, 1<<32, 1<<32+1, 1<<31, 1<<31-1, -1<<31, -1<<32, -1<<32+1, 1<<16, 1<<62, 1<<40+3)
}

func genLimit(r *rt.Rand, iters int) int {
	if r.Chance(55) {
		return 0
	}
	if r.Chance(6) {
		return hugeInt(r)
	}
	return pick(r, -1, 0, 1, 1+r.Intn(iters), iters-1, iters, iters+1, 1000)
}

// genView picks a view chain; leaf views only where they are meaningful.
func genView(r *rt.Rand, s Spec) string {
	v := pick(r, "", "", "", "r", "l", "rl", "lr", "ll", "rr")
	if s.Kind == "xglinear" && v != "" {
		v = "r"
	}
	return v
}

func genPredict(r *rt.Rand, models []Spec, batchOnly bool) Op {
	op := Op{M: r.Intn(len(models)), Seed: r.U64() >> 20}
	s := models[op.M]
	op.V = genView(r, s)
	if batchOnly {
		op.K = pick(r, "dense", "csr")
	} else {
		op.K = pick(r, "dense", "csr", "one", "single", "dense", "csr", "one")
	}
	if op.K == "dense" || op.K == "csr" {
		op.Rows = genRows(r)
		op.T = genThreads(r)
	}
	if r.Chance(25) {
		op.Extra = 1 + r.Intn(4)
	}
	if isLeafView(op.V) {
		op.N = pick(r, 0, 0, 0, s.Iters, -1, 1000)
		if r.Chance(10) {
			op.N = 1
		}
	} else {
		op.N = genLimit(r, s.Iters)
	}
	return op
}

// validModel makes sure an op refers to an existing model.
func (c *ctx) model(op Op) *Model {
	return c.models[clamp(op.M, 0, len(c.models)-1)]
}

func genSched(r *rt.Rand) Sched {
	s := Sched{Seed: r.U64() >> 12}
	switch x := r.Intn(100); {
	case x < 40:
		s.Strategy = rt.StratRandom
	case x < 65:
		s.Strategy = rt.StratPCT
	case x < 80:
		s.Strategy = rt.StratRR
	default:
		s.Strategy = rt.StratStall
	}
	s.Quantum = pick(r, 1, 2, 3, 5, 10, 20, 50, 200, 1000)
	s.Sync = pick(r, 0, 10, 30, 60)
	s.Changes = 1 + r.Intn(12)
	s.Horizon = pick(r, int64(300), 2000, 10000, 50000)
	s.Procs = 1 + r.Intn(16)
	if r.Chance(60) {
		s.Procs = 2 + r.Intn(6)
	}
	s.CPUs = 1 + r.Intn(16)
	s.MaxSteps = 150000000
	if f := rt.NewRand(s.Seed ^ 0xF4EE2E); f.Chance(25) {
		h := pick(&f, 100, 1000, 10000)
		for n := 1 + f.Intn(3); n > 0; n-- {
			s.Freezes = append(s.Freezes, rt.Freeze{At: 1 + int64(f.Intn(h)), For: pick(&f, int64(1e5), 1e7, 1e9, 9e10, 3e11)})
		}
	}
	return s
}
