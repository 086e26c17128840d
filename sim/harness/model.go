package main

import (
	"math"
	"strings"

	"zsim/rt"
)

// Spec determines a model file completely: everything else about the model is
// derived from its numbers. Shrinking a failing case lowers the numbers.
type Spec struct {
	Kind   string `json:"kind"` // lgtext lgjson xgtree xgdart xglinear sk
	Seed   uint64 `json:"seed"`
	Feat   int    `json:"feat"`
	Groups int    `json:"groups"`
	Iters  int    `json:"iters"`
	Leaves int    `json:"leaves"` // largest number of leaves of a tree
	Cat    bool   `json:"cat,omitempty"`
	Obj    string `json:"obj,omitempty"`
	Trans  bool   `json:"trans,omitempty"` // load with its transformation
	RF     bool   `json:"rf,omitempty"`
	Deep   bool   `json:"deep,omitempty"`    // chain-like trees
	Alt    int    `json:"alt,omitempty"`     // the same structure with other leaf values
	CatTop int    `json:"cat_top,omitempty"` // category values go up to it
	Mag    int    `json:"mag,omitempty"`     // scores: 1 far below zero, 2 far above, 3 wide apart, 4 and 5 beyond what exp can take
}

var kinds = []string{"lgtext", "lgjson", "xgtree", "xgdart", "xglinear", "sk"}

const (
	missNone = 0
	missZero = 1
	missNaN  = 2
)

type tnode struct {
	leaf    bool
	val     float64
	id      int // leaf number or node number in the file
	feat    int
	thr     float64
	isCat   bool
	cats    []int
	defLeft bool
	miss    int
	l, r    *tnode
	depth   int
}

type tree struct {
	root   *tnode
	leaves []*tnode
	nodes  []*tnode // internal, nodes[0] is the root
	weight float64
}

// Model is the neutral description of a model together with its file.
type Model struct {
	Spec
	trees  []*tree // iteration-major
	base   []float64
	lr     float64
	lin    []float32 // gblinear: feature-major, then bias
	thrs   [][]float64
	cats   [][]int // categories seen per feature
	bytes  []byte
	xg     bool
	isLin  bool
	layout rt.Rand
}

func genSpec(r *rt.Rand, kinds []string) Spec {
	s := Spec{Kind: kinds[r.Intn(len(kinds))], Seed: r.U64() >> 12}
	s.Feat = 1 + r.Intn(8)
	if r.Chance(15) {
		s.Feat = 1 + r.Intn(40)
	}
	s.Groups = 1
	if r.Chance(50) {
		s.Groups = 2 + r.Intn(4)
	}
	s.Iters = 1 + r.Intn(6)
	s.Leaves = 1 + r.Intn(10)
	if r.Chance(10) {
		s.Leaves = 10 + r.Intn(40)
	}
	if r.Chance(8) { // large in one dimension
		switch r.Intn(4) {
		case 0:
			s.Feat = 50 + r.Intn(230)
		case 1:
			s.Groups = 6 + r.Intn(15)
			s.Iters = 1 + r.Intn(3)
		case 2:
			s.Iters = 10 + r.Intn(60)
			s.Groups = 1 + r.Intn(2)
		case 3:
			s.Leaves = 50 + r.Intn(250)
			s.Iters = 1 + r.Intn(2)
		}
	}
	if r.Chance(15) {
		s.Mag = 1 + r.Intn(5)
	}
	s.Deep = r.Chance(25)
	s.Trans = r.Chance(60)
	switch s.Kind {
	case "lgtext":
		s.Cat = r.Chance(60)
		s.RF = r.Chance(20)
		if s.Groups == 1 {
			s.Obj = []string{"binary sigmoid:1", "poisson", "gamma", "tweedie", "regression", "regression_l1"}[r.Intn(6)]
		} else {
			s.Obj = "multiclass"
		}
	case "lgjson":
		s.Cat = r.Chance(60)
		s.Trans = false
	case "xgtree", "xgdart", "xglinear":
		s.Obj = "binary:logistic"
		if s.Groups > 1 {
			s.Obj, s.Trans = pick(r, "multi:softprob", "multi:softmax", "multi:output_of_several_trees"), false
		} else if r.Chance(30) {
			s.Obj, s.Trans = pick(r, "reg:linear", "reg:squarederror", "reg:squaredlogerror", "rank:pairwise", "", "survival:cox", strings.Repeat("long", 5+r.Intn(100))), false
		}
	case "sk":
		if s.Groups == 2 {
			s.Groups = 3
		}
		if s.Groups*s.Iters > 24 {
			s.Groups, s.Iters = min(s.Groups, 8), 3
		}
	}
	return s
}

// grow makes a model large in one dimension, beyond what fits into a byte or
// two bytes, or into a reader's buffer.
func grow(r *rt.Rand, s *Spec) {
	s.Groups, s.Iters, s.Leaves, s.Deep = 1, 1+r.Intn(2), 1+r.Intn(4), false
	json := s.Kind == "lgjson"
	switch r.Intn(6) {
	case 0, 5: // leaves
		s.Feat = 4 + r.Intn(12)
		s.Iters, s.Leaves = 1, pick(r, 300, 3000, 70000, 140000)
		if json {
			s.Leaves = min(s.Leaves, 3000)
		}
		if s.Kind == "sk" {
			s.Leaves = min(s.Leaves, 40000)
		}
	case 1: // features
		s.Feat = pick(r, 300, 5000, 33000, 66000, 70000)
	case 2: // trees
		s.Iters = pick(r, 130, 260, 300, 700)
		if s.Kind == "sk" {
			s.Iters = min(s.Iters, 260)
		}
	case 3: // outputs
		s.Groups = pick(r, 130, 257, 300)
		if s.Kind == "sk" {
			s.Iters = 1
		}
	case 4: // categories
		if s.Kind != "lgtext" && !json {
			s.Kind, s.Obj = "lgtext", "regression"
		}
		s.Cat, s.RF = true, false
		s.Leaves = 2 + r.Intn(6)
		s.CatTop = pick(r, 300, 5000, 66000, 140000)
	}
	if s.Groups > 1 {
		switch s.Kind {
		case "lgtext":
			s.Obj = "multiclass"
		case "xgtree", "xgdart", "xglinear":
			s.Obj, s.Trans = "multi:softprob", false
		}
	} else if s.Obj == "multiclass" || strings.HasPrefix(s.Obj, "multi:") {
		s.Obj = map[bool]string{true: "regression", false: "reg:linear"}[s.Kind == "lgtext"]
	}
}

// tall makes one batch of a scenario very long and its model small.
func tall(r *rt.Rand, sc *Scenario) bool {
	for _, ops := range sc.Clients {
		for i := range ops {
			op := &ops[i]
			op.A = 0
			if op.K != "dense" && op.K != "csr" {
				continue
			}
			s := &sc.Models[clamp(op.M, 0, len(sc.Models)-1)]
			s.Feat, s.Iters, s.Leaves = 1+r.Intn(3), 1+r.Intn(2), 1+r.Intn(4)
			if isLeafView(op.V) {
				op.N = 0
			}
			op.Rows = pick(r, 1025, 2100, 4097, 4200, 5000, 9000, 17000, 33000, 66000)
			if r.Chance(70) {
				op.T = 2 + r.Intn(7)
			}
			sc.Sched.Quantum = max(200, sc.Sched.Quantum)
			sc.Sched.MaxSteps *= 15
			return true
		}
	}
	return false
}

// fitBig adapts the calls of a scenario to its models after one has grown.
func fitBig(sc *Scenario) {
	sc.Sched.MaxSteps *= 15
	sc.Sched.Quantum = max(50, sc.Sched.Quantum)
	wide := 1
	for _, s := range sc.Models {
		wide = max(wide, s.Feat, s.Iters*s.Groups)
	}
	for i, ops := range sc.Clients {
		if len(ops) > 5 {
			sc.Clients[i] = ops[:5]
		}
	}
	for _, ops := range append([][]Op{sc.Prep}, sc.Clients...) {
		for i := range ops {
			op := &ops[i]
			s := sc.Models[clamp(op.M, 0, len(sc.Models)-1)]
			if op.K != "cut" {
				op.A = 0
			}
			op.Rows = min(op.Rows, 60)
			if wide > 1000 {
				op.Rows = min(op.Rows, 20)
			}
			if op.Src != nil && op.Src.Chunk > 0 {
				op.Src.Chunk += 700
			}
			if isLeafView(op.V) && s.Kind == "xglinear" {
				op.V = ""
			}
			if isLeafView(op.V) && op.N > 0 && op.N < s.Iters {
				op.N = 0
			}
		}
	}
}

// widen gives a model hundreds of features, of which it uses some.
func widen(r *rt.Rand, sc *Scenario) {
	s := &sc.Models[r.Intn(len(sc.Models))]
	s.Feat = pick(r, 270, 600, 1100, 2100)
	s.Iters = min(s.Iters, 3)
	s.Groups = min(s.Groups, 3)
	s.Leaves = min(s.Leaves, 20)
	for _, ops := range append([][]Op{sc.Prep}, sc.Clients...) {
		for i := range ops {
			ops[i].Rows = min(ops[i].Rows, 50)
			if ops[i].K != "cut" {
				ops[i].A = min(ops[i].A, 3)
			}
		}
	}
	sc.Sched.MaxSteps *= 5
}

// used lists the features that decide something.
func (m *Model) used() (u []int) {
	for f := 0; f < m.Feat; f++ {
		if m.isLin || len(m.thrs[f]) > 0 || len(m.cats[f]) > 0 {
			u = append(u, f)
		}
	}
	return u
}

func f32(x float64) float64 { return float64(float32(x)) }

// Build makes the model of a spec.
func Build(s Spec) *Model {
	m := &Model{Spec: s}
	if s.Groups < 1 {
		m.Groups = 1
	}
	if m.Kind == "sk" && m.Groups == 2 {
		m.Groups = 3
	}
	if m.Groups > 1 {
		switch m.Kind {
		case "lgtext":
			m.Obj = "multiclass"
		case "xgtree", "xgdart", "xglinear":
			m.Trans = false
			if !strings.HasPrefix(m.Obj, "multi:") {
				m.Obj = "multi:softprob"
			}
		}
	} else if m.Obj == "multiclass" || strings.HasPrefix(m.Obj, "multi:") {
		m.Obj = map[bool]string{true: "regression", false: "reg:linear"}[m.Kind == "lgtext"]
		m.Trans = false
	}
	r := rt.NewRand(s.Seed)
	m.layout = rt.NewRand(s.Seed ^ 0x55AA)
	m.thrs = make([][]float64, m.Feat)
	m.cats = make([][]int, m.Feat)
	m.xg = m.Kind == "xgtree" || m.Kind == "xgdart"
	m.isLin = m.Kind == "xglinear"
	m.base = make([]float64, m.Groups)
	if m.xg || m.isLin {
		b := f32([]float64{0, 0.5, -1.25, 0.1}[r.Intn(4)])
		for i := range m.base {
			m.base[i] = b
		}
	}
	if m.isLin {
		m.lin = make([]float32, (m.Feat+1)*m.Groups)
		for i := range m.lin {
			m.lin[i] = float32(norm(&r))
			if r.Chance(10) {
				m.lin[i] = 0
			}
		}
	} else {
		// some features are categorical for good
		catFeat := make([]bool, m.Feat)
		if m.Cat {
			for i := range catFeat {
				catFeat[i] = r.Chance(50)
			}
		}
		grid := make([][]float64, m.Feat)
		for i := range grid {
			for j := 0; j < 1+r.Intn(6); j++ {
				v := norm(&r) * 2
				switch r.Intn(6) {
				case 0:
					v = float64(r.Intn(9)) - 4
				case 1:
					v = float64(r.Intn(9)-4) + 0.5
				case 2:
					v *= 1000
				case 3:
					v /= 1000
				}
				if v == 0 {
					v = 0.25
				}
				if m.xg {
					v = f32(v)
				}
				grid[i] = append(grid[i], v)
			}
		}
		for i := 0; i < m.Iters*m.Groups; i++ {
			m.trees = append(m.trees, m.genTree(&r, catFeat, grid))
		}
		if m.Kind == "sk" {
			m.lr = []float64{0.1, 1, 0.3, 0.05}[r.Intn(4)]
			for i := range m.base {
				m.base[i] = norm(&r)
			}
		}
	}
	if s.Mag > 0 {
		m.magnify()
	}
	if s.Alt > 0 {
		for i := range m.lin {
			m.lin[i] += float32(s.Alt)
		}
		for _, t := range m.trees {
			for _, x := range t.leaves {
				x.val = x.val*1.5 + 0.25*float64(s.Alt)
				if m.xg {
					x.val = f32(x.val)
				}
			}
		}
	}
	m.encode()
	return m
}

// magnify moves the scores of the model away from zero.
func (m *Model) magnify() {
	n := float64(m.Iters)
	scale, shift := 1.0, 0.0
	switch m.Mag {
	case 1:
		shift = -25
	case 2:
		shift = 25
	case 3:
		scale = math.Min(15, 200/n)
	case 4:
		shift = -800
	case 5:
		scale = 1000
	}
	if m.isLin {
		for i := range m.lin {
			m.lin[i] *= float32(scale)
		}
		for k := 0; k < m.Groups; k++ {
			m.lin[m.Groups*m.Feat+k] += float32(shift)
		}
	}
	for _, t := range m.trees {
		for _, x := range t.leaves {
			x.val = x.val*scale + shift/n
			if m.xg {
				x.val = f32(x.val)
			}
		}
	}
}

// norm is a rough normal variate.
func norm(r *rt.Rand) float64 {
	return (r.F() + r.F() + r.F() + r.F() - 2) * 1.7
}

func (m *Model) genTree(r *rt.Rand, catFeat []bool, grid [][]float64) *tree {
	t := &tree{weight: 1}
	if m.Kind == "xgdart" {
		t.weight = f32(0.1 + r.F())
		if r.Chance(15) {
			t.weight = 0
		}
	}
	n := 1 + r.Intn(m.Leaves)
	if r.Chance(50) || m.Leaves > 1000 {
		n = m.Leaves
	}
	t.root = &tnode{leaf: true}
	open := []*tnode{t.root}
	// in large trees every leaf can be reached: thresholds halve what is left
	var box map[*tnode][]float64
	if n > 1000 {
		box = map[*tnode][]float64{}
		b := make([]float64, 2*m.Feat)
		for i := range b {
			b[i] = float64(2*(i&1)-1) * 1024
		}
		box[t.root] = b
	}
	for len(open) < n {
		k := r.Intn(len(open))
		if m.Deep {
			k = len(open) - 1
		}
		x := open[k]
		x.leaf = false
		x.feat = r.Intn(m.Feat)
		if r.Chance(8) {
			x.feat = m.Feat - 1
		}
		x.defLeft = r.Chance(50)
		if m.Kind == "sk" {
			x.defLeft = false
		}
		if m.xg {
			x.miss = missNaN
		} else if m.Kind != "sk" {
			x.miss = r.Intn(3)
		}
		if catFeat[x.feat] && box == nil {
			x.isCat = true
			x.miss = []int{missNone, missNaN}[r.Intn(2)]
			x.defLeft = false
			seen := map[int]bool{}
			var want, top int
			switch r.Intn(4) {
			case 0:
				want, top = 1, []int{6, 32, 80}[r.Intn(3)]
			case 1:
				want, top = 1+r.Intn(6), 32
			case 2:
				want, top = 2+r.Intn(8), 70
			default:
				want, top = 2+r.Intn(8), 200
			}
			if m.CatTop > 0 && r.Chance(70) {
				want, top = 1+r.Intn(8), m.CatTop
			}
			for len(x.cats) < want {
				c := r.Intn(top)
				if r.Chance(20) {
					c = []int{0, 31, 32, 63, 64}[r.Intn(5)] % top
				}
				if !seen[c] {
					seen[c] = true
					x.cats = append(x.cats, c)
				}
			}
			m.cats[x.feat] = append(m.cats[x.feat], x.cats...)
		} else if box != nil {
			b := box[x]
			for f := 0; f < m.Feat; f++ {
				if b[2*f+1]-b[2*f] > b[2*x.feat+1]-b[2*x.feat] {
					x.feat = f
				}
			}
			lo, hi := b[2*x.feat], b[2*x.feat+1]
			x.thr = f32(lo + (hi-lo)*(0.3+0.4*r.F()))
			m.thrs[x.feat] = append(m.thrs[x.feat], x.thr)
		} else {
			x.thr = grid[x.feat][r.Intn(len(grid[x.feat]))]
			m.thrs[x.feat] = append(m.thrs[x.feat], x.thr)
		}
		x.l = &tnode{leaf: true, depth: x.depth + 1}
		x.r = &tnode{leaf: true, depth: x.depth + 1}
		if box != nil {
			bl, br := box[x], append([]float64{}, box[x]...)
			bl[2*x.feat+1], br[2*x.feat] = x.thr, x.thr
			box[x.l], box[x.r] = bl, br
			delete(box, x)
		}
		if m.Deep && r.Chance(50) {
			open[k] = x.r
			open = append(open, x.l)
		} else {
			open[k] = x.l
			open = append(open, x.r)
		}
	}
	var walk func(x *tnode)
	walk = func(x *tnode) {
		if x.leaf {
			x.val = norm(r) * 0.5
			if r.Chance(5) {
				x.val = 0
			}
			if m.xg {
				x.val = f32(x.val)
			}
			t.leaves = append(t.leaves, x)
			return
		}
		t.nodes = append(t.nodes, x)
		walk(x.l)
		walk(x.r)
	}
	walk(t.root)
	// numbering used by formats that leave it open
	lp := perm(r, len(t.leaves))
	for i, x := range t.leaves {
		x.id = lp[i]
	}
	if len(t.nodes) > 0 {
		np := perm(r, len(t.nodes)-1)
		t.nodes[0].id = 0
		for i, x := range t.nodes[1:] {
			x.id = 1 + np[i]
		}
	}
	return t
}

func perm(r *rt.Rand, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if r.Chance(40) {
		return p
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// missing is the value a CSR row has where nothing is stored.
func (m *Model) missing() float64 {
	if m.xg {
		return math.NaN()
	}
	return 0
}

// ---- reference semantics ----

const zeroEps = 1e-35

func (m *Model) goesLeft(x *tnode, v float64) bool {
	if x.isCat {
		if math.IsNaN(v) {
			// only generated where the file says that NaN is the missing value
			return false
		}
		c := int(v)
		if v < 0 && c == 0 {
			c = 0 // truncation towards zero
		}
		if c < 0 {
			return false
		}
		for _, k := range x.cats {
			if k == c {
				return true
			}
		}
		return false
	}
	if m.xg {
		if math.IsNaN(v) {
			return x.defLeft
		}
		return v < x.thr
	}
	switch x.miss {
	case missNaN:
		if math.IsNaN(v) {
			return x.defLeft
		}
	case missZero:
		if math.IsNaN(v) || v > -zeroEps && v <= zeroEps {
			return x.defLeft
		}
	default:
		if math.IsNaN(v) {
			v = 0
		}
	}
	return v <= x.thr
}

func (m *Model) leafOf(t *tree, row []float64) *tnode {
	x := t.root
	for !x.leaf {
		if m.goesLeft(x, row[x.feat]) {
			x = x.l
		} else {
			x = x.r
		}
	}
	return x
}

// limit is the number of estimators used for a requested limit.
func (m *Model) limit(n int) int {
	if n <= 0 || n > m.nest() {
		return m.nest()
	}
	return n
}

func (m *Model) nest() int {
	if m.isLin {
		return 1
	}
	return m.Iters
}

// raw is the reference raw score and a bound on its rounding error.
func (m *Model) raw(row []float64, n int) (out, tol []float64) {
	out = make([]float64, m.Groups)
	tol = make([]float64, m.Groups)
	n = m.limit(n)
	for k := range out {
		mag := math.Abs(m.base[k])
		s := m.base[k]
		if m.isLin {
			w := float64(m.lin[m.Groups*m.Feat+k])
			s += w
			mag += math.Abs(w)
			for i := 0; i < m.Feat; i++ {
				p := row[i] * float64(m.lin[m.Groups*i+k])
				s += p
				mag += math.Abs(p)
			}
		} else {
			for i := 0; i < n; i++ {
				t := m.trees[i*m.Groups+k]
				v := m.leafOf(t, row).val * t.weight
				if m.Kind == "sk" {
					v *= m.lr
				}
				if m.RF {
					v /= float64(n)
				}
				s += v
				mag += math.Abs(v)
			}
		}
		out[k] = s
		tol[k] = 1e-9*mag + 1e-12
	}
	return out, tol
}

// transKind is the transformation a loaded model reports.
func (m *Model) transKind() string {
	if !m.Trans || m.RF {
		return "raw"
	}
	switch m.Kind {
	case "lgtext":
		switch m.Obj {
		case "binary sigmoid:1":
			return "logistic"
		case "poisson", "gamma", "tweedie":
			return "exponential"
		case "multiclass":
			return "softmax"
		}
	case "xgtree", "xgdart", "xglinear":
		if m.Obj == "binary:logistic" {
			return "logistic"
		}
	}
	return "raw"
}

// out is the reference transformed score with tolerances.
func (m *Model) out(row []float64, n int) (out, tol []float64) {
	raw, tol := m.raw(row, n)
	switch m.transKind() {
	case "logistic":
		return []float64{1 / (1 + math.Exp(-raw[0]))}, []float64{tol[0] + 1e-9}
	case "exponential":
		v := math.Exp(raw[0])
		return []float64{v}, []float64{v*tol[0] + 1e-9*v}
	case "softmax":
		mx := raw[0]
		for _, v := range raw {
			mx = math.Max(mx, v)
		}
		s := 0.0
		o := make([]float64, len(raw))
		for i, v := range raw {
			o[i] = math.Exp(v - mx)
			s += o[i]
		}
		for i := range o {
			o[i] /= s
			tol[i] = 1e-8
		}
		return o, tol
	}
	return raw, tol
}

func (m *Model) modelName() string {
	switch m.Kind {
	case "lgtext":
		if m.RF {
			return "lightgbm.rf"
		}
		return "lightgbm.gbdt"
	case "lgjson":
		return "lightgbm.gbdt"
	case "xgtree":
		return "xgboost.gbtree"
	case "xgdart":
		return "xgboost.dart"
	case "xglinear":
		return "xgboost.gblinear"
	}
	return "sklearn.ensemble.GradientBoostingClassifier"
}

// ---- feature vectors ----

// rowMode: how feature values are chosen.
const (
	rowPath = iota // directed to a random leaf of a random tree, values next to the thresholds
	rowNear        // values around thresholds
	rowWild        // NaN, infinities, zeros, large values mixed in
	nRowModes
)

// value picks a value of feature f inside the documented domain. exact allows
// values equal to a threshold.
func (m *Model) value(r *rt.Rand, f int, mode int, exact bool) float64 {
	if len(m.cats[f]) > 0 {
		// a feature that is categorical somewhere is an integer (or missing)
		c := m.cats[f][r.Intn(len(m.cats[f]))]
		if exact && mode == rowWild && r.Chance(10) {
			return extreme(r)
		}
		switch r.Intn(8) {
		case 0:
			c++
		case 1:
			c = r.Intn(max(220, m.CatTop+50))
		case 2:
			c = -1 - r.Intn(3)
		case 3:
			if mode == rowWild && m.catNaNOK(f) {
				return math.NaN()
			}
		case 4:
			if r.Chance(30) {
				return float64(c) + 0.5
			}
			if r.Chance(30) {
				return pick(r, -0.5, -0.01, -0.99) // truncated to 0
			}
		case 5:
			if r.Chance(30) {
				c += 32 * (1 + r.Intn(3))
				if r.Chance(20) {
					c += pick(r, 256, 1<<16, 1<<20)
				}
			}
		}
		return float64(c)
	}
	if mode == rowWild {
		switch r.Intn(11) {
		case 10:
			if exact || !m.isLin && m.Kind != "sk" {
				return extreme(r)
			}
			return 1e20
		case 0, 1:
			if exact || !m.isLin && m.Kind != "sk" {
				return math.NaN()
			}
		case 2:
			return pick(r, 0, 0, 1e-35, 2e-35, -2e-35, 5e-36, -5e-36)
		case 3:
			return math.Copysign(0, -1)
		case 4:
			if !m.isLin && m.Kind != "sk" {
				return math.Inf(1 - 2*r.Intn(2))
			}
			return 1e6
		case 5:
			return f32(norm(r) * 1e4)
		}
	}
	if len(m.thrs[f]) > 0 && r.Chance(85) {
		t := m.thrs[f][r.Intn(len(m.thrs[f]))]
		return m.near(r, t, r.Intn(3)-1, exact)
	}
	return f32(norm(r) * 3)
}

// extreme gives values at the ends of the float64 range.
func extreme(r *rt.Rand) float64 {
	x := pick(r, 1e300, math.MaxFloat64, 1e39, 5e-324, 1e-310, 1<<31, 1<<53, 1e31, math.Inf(1), 1e12)
	if r.Chance(50) {
		x = -x
	}
	return x
}

// catNaNOK: every categorical node on f treats NaN as missing.
func (m *Model) catNaNOK(f int) bool {
	for _, t := range m.trees {
		for _, x := range t.nodes {
			if x.feat == f && (!x.isCat || x.miss != missNaN) {
				return false
			}
		}
	}
	return true
}

// near gives a value at the threshold (side 0), just below (-1) or just above.
func (m *Model) near(r *rt.Rand, t float64, side int, exact bool) float64 {
	if m.xg {
		// a value rounds to the same side whether it is compared as float32 or not
		v := t
		switch {
		case side < 0:
			v = float64(math.Nextafter32(float32(t), float32(math.Inf(-1))))
			if r.Chance(25) {
				v += (t - v) / 4
			}
		case side > 0:
			v = float64(math.Nextafter32(float32(t), float32(math.Inf(1))))
			if r.Chance(25) {
				v = t + (v-t)/4
			}
		}
		return v
	}
	far := r.Chance(30)
	switch {
	case side < 0 && far:
		return t - 0.125
	case side < 0:
		return math.Nextafter(t, math.Inf(-1))
	case side > 0 && far:
		return t + 0.125
	case side > 0:
		return math.Nextafter(t, math.Inf(1))
	}
	return t
}

func (m *Model) row(r *rt.Rand, mode int, exact bool) []float64 {
	row := make([]float64, m.Feat)
	for f := range row {
		row[f] = m.value(r, f, mode, exact)
	}
	if mode == rowPath && len(m.trees) > 0 {
		t := m.trees[r.Intn(len(m.trees))]
		m.direct(r, t, t.leaves[r.Intn(len(t.leaves))], row, exact)
	}
	return row
}

// direct edits row so that it reaches leaf x of tree t if possible.
func (m *Model) direct(r *rt.Rand, t *tree, x *tnode, row []float64, exact bool) {
	type iv struct{ lo, hi float64 }
	ivs := map[int]iv{}
	var path []*tnode
	var find func(n *tnode) bool
	find = func(n *tnode) bool {
		if n == x {
			return true
		}
		if n.leaf {
			return false
		}
		path = append(path, n)
		if find(n.l) || find(n.r) {
			return true
		}
		path = path[:len(path)-1]
		return false
	}
	find(t.root)
	for i, n := range path {
		next := x
		if i+1 < len(path) {
			next = path[i+1]
		}
		left := next == n.l
		if n.isCat {
			if left {
				row[n.feat] = float64(n.cats[r.Intn(len(n.cats))])
			} else if m.goesLeft(n, row[n.feat]) {
				row[n.feat] = float64(max(201, m.CatTop+1))
			}
			continue
		}
		v, ok := ivs[n.feat]
		if !ok {
			v = iv{math.Inf(-1), math.Inf(1)}
		}
		if left {
			v.hi = math.Min(v.hi, n.thr)
		} else {
			v.lo = math.Max(v.lo, n.thr)
		}
		ivs[n.feat] = v
		switch {
		case !math.IsInf(v.hi, 1) && r.Chance(60) || math.IsInf(v.lo, -1):
			side := 0
			if m.xg {
				side = -1
			}
			row[n.feat] = m.near(r, v.hi, side, exact)
		default:
			row[n.feat] = m.near(r, v.lo, 1, exact)
		}
		// now and then the missing value leads there
		if n.miss != missNone && n.defLeft == left && m.Kind != "sk" && r.Chance(15) {
			if n.miss == missNaN {
				row[n.feat] = math.NaN()
			} else {
				row[n.feat] = 0
			}
		}
	}
}
