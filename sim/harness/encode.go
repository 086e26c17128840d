package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"zsim/rt"
)

func num(x float64) string { return strconv.FormatFloat(x, 'g', 17, 64) }

func join[T any](xs []T, f func(T) string) string {
	s := make([]string, len(xs))
	for i, x := range xs {
		s[i] = f(x)
	}
	return strings.Join(s, " ")
}

func itoa(x int) string { return strconv.Itoa(x) }

func (m *Model) encode() {
	switch m.Kind {
	case "lgtext":
		m.bytes = m.lgText()
	case "lgjson":
		m.bytes = m.lgJSON()
	case "xgtree", "xgdart":
		m.bytes = m.xgBin()
	case "xglinear":
		m.bytes = m.xgLinear()
	case "sk":
		m.bytes = m.skPickle()
	default:
		panic("unknown kind " + m.Kind)
	}
}

func bitset(cats []int) []uint32 {
	top := 0
	for _, c := range cats {
		if c > top {
			top = c
		}
	}
	b := make([]uint32, top/32+1)
	for _, c := range cats {
		b[c/32] |= 1 << uint(c%32)
	}
	return b
}

func (m *Model) lgText() []byte {
	var trees []string
	for i, t := range m.trees {
		trees = append(trees, m.lgTree(i, t))
	}
	sep := "\n"
	if m.layout.Chance(50) {
		sep = ""
	}
	var b strings.Builder
	p := func(f string, a ...any) { fmt.Fprintf(&b, f+"\n", a...) }
	p("tree")
	p("version=%s", []string{"v2", "v3"}[m.layout.Intn(2)])
	p("num_class=%d", m.Groups)
	p("num_tree_per_iteration=%d", m.Groups)
	p("label_index=0")
	p("max_feature_idx=%d", m.Feat-1)
	obj := m.Obj
	if obj == "multiclass" {
		obj = "multiclass num_class:" + itoa(m.Groups)
	}
	if obj != "" {
		p("objective=%s", obj)
	}
	if m.RF {
		p("average_output")
	}
	names := make([]int, m.Feat)
	for i := range names {
		names[i] = i
	}
	p("feature_names=%s", join(names, func(i int) string { return "Column_" + itoa(i) }))
	p("feature_infos=%s", join(names, func(i int) string {
		if len(m.cats[i]) > 0 {
			return "0:1:2"
		}
		return "[-3:3.5]"
	}))
	p("tree_sizes=%s", join(trees, func(s string) string { return itoa(len(s)) }))
	p("")
	for _, t := range trees {
		b.WriteString(t)
		b.WriteString(sep)
	}
	if m.layout.Chance(70) {
		p("end of trees")
		p("")
	}
	p("feature importances:")
	p("Column_0=3")
	p("")
	if m.layout.Chance(50) {
		p("parameters:")
		p("[boosting: gbdt]")
		p("end of parameters")
		p("")
		b.WriteString("pandas_categorical:null\n")
	}
	return []byte(b.String())
}

func (m *Model) lgTree(i int, t *tree) string {
	var b strings.Builder
	p := func(f string, a ...any) { fmt.Fprintf(&b, f+"\n", a...) }
	leaves := make([]*tnode, len(t.leaves))
	for _, x := range t.leaves {
		leaves[x.id] = x
	}
	nodes := make([]*tnode, len(t.nodes))
	for _, x := range t.nodes {
		nodes[x.id] = x
	}
	var bounds = []uint32{0}
	var bits []uint32
	ncat := 0
	thr := make([]string, len(nodes))
	for i, x := range nodes {
		if x.isCat {
			thr[i] = itoa(ncat)
			ncat++
			bits = append(bits, bitset(x.cats)...)
			bounds = append(bounds, uint32(len(bits)))
		} else {
			thr[i] = num(x.thr)
		}
	}
	child := func(x *tnode) string {
		if x.leaf {
			return itoa(-x.id - 1)
		}
		return itoa(x.id)
	}
	p("Tree=%d", i)
	p("num_leaves=%d", len(leaves))
	p("num_cat=%d", ncat)
	if len(nodes) > 0 || m.layout.Chance(50) {
		p("split_feature=%s", join(nodes, func(x *tnode) string { return itoa(x.feat) }))
		p("split_gain=%s", join(nodes, func(x *tnode) string { return "1.5" }))
		p("threshold=%s", strings.Join(thr, " "))
		p("decision_type=%s", join(nodes, func(x *tnode) string {
			d := x.miss << 2
			if x.isCat {
				d |= 1
			}
			if x.defLeft {
				d |= 2
			}
			return itoa(d)
		}))
		p("left_child=%s", join(nodes, func(x *tnode) string { return child(x.l) }))
		p("right_child=%s", join(nodes, func(x *tnode) string { return child(x.r) }))
	}
	p("leaf_value=%s", join(leaves, func(x *tnode) string { return num(x.val) }))
	p("leaf_count=%s", join(leaves, func(x *tnode) string { return itoa(20 + x.id) }))
	if len(nodes) > 0 {
		p("internal_value=%s", join(nodes, func(x *tnode) string { return "0.125" }))
		p("internal_count=%s", join(nodes, func(x *tnode) string { return "40" }))
	}
	if ncat > 0 {
		u := func(v uint32) string { return strconv.FormatUint(uint64(v), 10) }
		p("cat_boundaries=%s", join(bounds, u))
		p("cat_threshold=%s", join(bits, u))
	}
	p("shrinkage=0.1")
	p("")
	return b.String()
}

func (m *Model) lgJSON() []byte {
	var b strings.Builder
	nl, in := "\n", ""
	if m.layout.Chance(40) {
		nl = ""
	}
	if m.layout.Chance(50) && nl != "" {
		in = "  "
	}
	p := func(f string, a ...any) { fmt.Fprintf(&b, in+f+nl, a...) }
	p("{")
	p(`"name":"tree",`)
	p(`"version":"v2",`)
	p(`"num_class":%d,`, m.Groups)
	p(`"num_tree_per_iteration":%d,`, m.Groups)
	p(`"label_index":0,`)
	p(`"max_feature_idx":%d,`, m.Feat-1)
	fn := make([]string, m.Feat)
	for i := range fn {
		fn[i] = strconv.Quote("Column_" + itoa(i))
	}
	p(`"feature_names":[%s],`, strings.Join(fn, ","))
	p(`"tree_info":[`)
	for i, t := range m.trees {
		ncat := 0
		for _, x := range t.nodes {
			if x.isCat {
				ncat++
			}
		}
		p(`{"tree_index":%d,"num_leaves":%d,"num_cat":%d,"shrinkage":0.1,"tree_structure":`, i, len(t.leaves), ncat)
		var walk func(x *tnode)
		walk = func(x *tnode) {
			if x.leaf {
				if len(t.nodes) == 0 {
					p(`{"leaf_value":%s}`, num(x.val))
					return
				}
				p(`{"leaf_index":%d,"leaf_value":%s,"leaf_count":38}`, x.id, num(x.val))
				return
			}
			thr, dt := num(x.thr), "<="
			if x.isCat {
				dt = "=="
				cs := append([]int{}, x.cats...)
				if m.layout.Chance(60) {
					sort.Ints(cs)
				}
				s := make([]string, len(cs))
				for i, c := range cs {
					s[i] = itoa(c)
				}
				thr = strconv.Quote(strings.Join(s, "||"))
			}
			p(`{"split_index":%d,"split_feature":%d,"split_gain":1.5,"threshold":%s,`, x.id, x.feat, thr)
			p(`"decision_type":"%s","default_left":%v,"missing_type":"%s","internal_value":0.1,"internal_count":7,`, dt, x.defLeft, []string{"None", "Zero", "NaN"}[x.miss])
			b.WriteString(in + `"left_child":`)
			walk(x.l)
			b.WriteString(in + `,"right_child":`)
			walk(x.r)
			p("}")
		}
		walk(t.root)
		b.WriteString("}")
		if i < len(m.trees)-1 {
			b.WriteString(",")
		}
		b.WriteString(nl)
	}
	p("]}")
	return []byte(b.String())
}

type bin struct{ bytes.Buffer }

func (b *bin) i32(xs ...int) {
	for _, x := range xs {
		binary.Write(b, binary.LittleEndian, int32(x))
	}
}
func (b *bin) u64(x int)     { binary.Write(b, binary.LittleEndian, uint64(x)) }
func (b *bin) f32(x float64) { binary.Write(b, binary.LittleEndian, float32(x)) }
func (b *bin) f64(x float64) { binary.Write(b, binary.LittleEndian, x) }
func (b *bin) str(s string)  { b.u64(len(s)); b.WriteString(s) }
func (b *bin) zero32(n int)  { b.Write(make([]byte, 4*n)) }
func (b *bin) junk32(r *rt.Rand, n int) {
	for i := 0; i < n; i++ {
		b.i32(int(int32(r.U64())))
	}
}

func (m *Model) xgHeader(b *bin, gbm string) {
	b.f32(m.base[0])
	b.i32(m.Feat)
	nc := 0
	if m.Groups > 1 {
		nc = m.Groups
	}
	b.i32(nc, m.layout.Intn(2), m.layout.Intn(2))
	if m.layout.Chance(50) {
		b.zero32(29)
	} else {
		b.junk32(&m.layout, 29)
	}
	b.str(m.Obj)
	b.str(gbm)
}

func (m *Model) xgBin() []byte {
	b := &bin{}
	gbm := "gbtree"
	if m.Kind == "xgdart" {
		gbm = "dart"
	}
	m.xgHeader(b, gbm)
	slv := 0
	if m.layout.Chance(15) {
		slv = 1
	}
	b.i32(len(m.trees), 1, m.Feat, 0)
	b.u64(0)
	b.i32(m.Groups, slv)
	b.zero32(32)
	for _, t := range m.trees {
		m.xgTree(b, t, slv)
	}
	for i := range m.trees {
		b.i32(i % m.Groups)
	}
	if m.Kind == "xgdart" {
		b.u64(len(m.trees))
		for _, t := range m.trees {
			b.f32(t.weight)
		}
	}
	m.xgTail(b)
	return b.Bytes()
}

func (m *Model) xgTail(b *bin) {
	if m.layout.Chance(50) {
		b.u64(1)
		b.str("SAVED_PARAM")
		b.str("0.3")
	}
}

func (m *Model) xgTree(b *bin, t *tree, slv int) {
	// number all nodes: root 0, the rest in a seeded order, with deleted nodes
	// that nothing refers to mixed in
	all := []*tnode{}
	var walk func(x *tnode)
	walk = func(x *tnode) {
		all = append(all, x)
		if !x.leaf {
			walk(x.l)
			walk(x.r)
		}
	}
	walk(t.root)
	del := 0
	if len(all) > 1 && m.layout.Chance(30) {
		del = 1 + m.layout.Intn(3)
	}
	slots := make([]*tnode, len(all)+del)
	slots[0] = all[0]
	p := perm(&m.layout, len(slots)-1)
	pos := map[*tnode]int{all[0]: 0}
	parent := map[*tnode]int{all[0]: -1}
	for i, x := range all[1:] {
		slots[1+p[i]] = x
		pos[x] = 1 + p[i]
	}
	for _, x := range all {
		if !x.leaf {
			parent[x.l] = pos[x] | -1<<31
			parent[x.r] = pos[x]
		}
	}
	b.i32(1, len(slots), del, 5, m.Feat, slv)
	b.zero32(31)
	for _, x := range slots {
		switch {
		case x == nil:
			b.i32(-1, -1, -1)
			b.i32(-1)
			b.f32(9e9)
		case x.leaf:
			b.i32(parent[x], -1, -1)
			b.i32(m.layout.Intn(2) * -1 << 31)
			b.f32(x.val)
		default:
			b.i32(parent[x], pos[x.l], pos[x.r])
			s := x.feat
			if x.defLeft {
				s |= -1 << 31
			}
			b.i32(s)
			b.f32(x.thr)
		}
	}
	for range slots {
		b.f32(1.5)
		b.f32(20)
		b.f32(0.25)
		b.i32(0)
	}
	if slv > 0 {
		b.u64(len(slots))
		for range slots {
			b.f32(0.5)
		}
	}
}

func (m *Model) xgLinear() []byte {
	b := &bin{}
	m.xgHeader(b, "gblinear")
	b.i32(m.Feat, m.Groups)
	b.zero32(32)
	b.u64(len(m.lin))
	for _, w := range m.lin {
		b.f32(float64(w))
	}
	m.xgTail(b)
	return b.Bytes()
}

// ---- pickle, protocol 0 ----

type pkl struct {
	bytes.Buffer
	n    int
	memo map[string]int
	py3  bool // as Python 3 writes protocol 0: more escapes, INT instead of LONG
}

func (p *pkl) put() int  { fmt.Fprintf(p, "p%d\n", p.n); p.n++; return p.n - 1 }
func (p *pkl) get(i int) { fmt.Fprintf(p, "g%d\n", i) }
func (p *pkl) long(i int) {
	if p.py3 {
		fmt.Fprintf(p, "I%d\n", i)
		return
	}
	fmt.Fprintf(p, "L%dL\n", i)
}
func (p *pkl) none() { p.WriteByte('N') }
func (p *pkl) flt(x float64) {
	s := strconv.FormatFloat(x, 'g', -1, 64)
	if !strings.ContainsAny(s, ".e") {
		s += ".0"
	}
	fmt.Fprintf(p, "F%s\n", s)
}

// once writes an object the first time and a reference afterwards.
func (p *pkl) once(key string, f func()) {
	if i, ok := p.memo[key]; ok {
		p.get(i)
		return
	}
	f()
	p.memo[key] = p.put()
}

func (p *pkl) uni(s string) {
	p.once("V"+s, func() { p.raw(s) })
}

func (p *pkl) raw(s string) {
	s = strings.ReplaceAll(s, "\\", "\\u005c")
	s = strings.ReplaceAll(s, "\n", "\\u000a")
	if p.py3 {
		s = strings.ReplaceAll(s, "\x00", "\\u0000")
		s = strings.ReplaceAll(s, "\r", "\\u000d")
		s = strings.ReplaceAll(s, "\x1a", "\\u001a")
	}
	p.WriteString("V" + s + "\n")
}

func (p *pkl) global(m, n string) {
	p.once("c"+m+"."+n, func() { fmt.Fprintf(p, "c%s\n%s\n", m, n) })
}

func (p *pkl) key(k string) { p.uni(k) }
func (p *pkl) set()         { p.WriteByte('s') }

// data is _codecs.encode(text, 'latin1')
func (p *pkl) data(b []byte) {
	p.global("_codecs", "encode")
	p.WriteByte('(')
	p.raw(string(b))
	p.put()
	p.uni("latin1")
	p.WriteByte('t')
	p.put()
	p.WriteByte('R')
	p.put()
}

func (p *pkl) dtype(t string, order string) {
	p.once("dtype"+t, func() {
		p.global("numpy", "dtype")
		p.WriteByte('(')
		p.uni(t)
		p.long(0)
		p.long(1)
		p.WriteString("t")
		p.put()
		p.WriteString("R")
		p.memo["dtype"+t] = p.put()
		p.WriteByte('(')
		p.long(3)
		p.uni(order)
		p.WriteString("NNN")
		p.long(-1)
		p.long(-1)
		p.long(0)
		p.WriteByte('t')
		p.put()
		p.WriteByte('b')
	})
}

func (p *pkl) array(shape []int, t, order string, body func()) {
	p.global("numpy.core.multiarray", "_reconstruct")
	p.WriteByte('(')
	p.global("numpy", "ndarray")
	p.WriteByte('(')
	p.long(0)
	p.WriteByte('t')
	p.put()
	p.data([]byte("b"))
	p.WriteByte('t')
	p.put()
	p.WriteByte('R')
	p.put()
	p.WriteByte('(')
	p.long(1)
	p.WriteByte('(')
	for _, s := range shape {
		p.long(s)
	}
	p.WriteByte('t')
	p.put()
	p.dtype(t, order)
	p.WriteString("I00\n")
	body()
	p.WriteByte('t')
	p.put()
	p.WriteByte('b')
}

func le(xs ...float64) []byte {
	b := &bin{}
	for _, x := range xs {
		b.f64(x)
	}
	return b.Bytes()
}

func lei(xs ...int) []byte {
	b := &bin{}
	for _, x := range xs {
		b.u64(x)
	}
	return b.Bytes()
}

func (p *pkl) object(mod, name string, body func()) {
	p.global("copy_reg", "_reconstructor")
	p.WriteByte('(')
	p.global(mod, name)
	p.global("__builtin__", "object")
	p.none()
	p.WriteByte('t')
	p.put()
	p.WriteByte('R')
	p.put()
	p.WriteString("(d")
	p.put()
	body()
	p.WriteByte('b')
}

// entries writes the entries of a dict, the order of which is of no importance
func (p *pkl) entries(r *rt.Rand, e ...func()) {
	for _, k := range perm(r, len(e)) {
		if e[k] != nil {
			e[k]()
		}
	}
}

// extra is an entry that is there in some files
func (p *pkl) extra(r *rt.Rand, name string, value func()) func() {
	if !r.Chance(25) {
		return nil
	}
	return func() {
		p.key(name)
		value()
		p.set()
	}
}

func (m *Model) skPickle() []byte {
	p := &pkl{memo: map[string]int{}, py3: m.layout.Chance(50)}
	nclass := m.Groups
	if nclass == 1 {
		nclass = 2
	}
	maxFeat := m.Feat
	if m.layout.Chance(30) {
		maxFeat = 1 + m.layout.Intn(m.Feat)
	}
	p.object("sklearn.ensemble.gradient_boosting", "GradientBoostingClassifier", func() {
		p.entries(&m.layout,
			func() {
				p.key("n_estimators")
				p.long(m.Iters)
				p.set()
			},
			func() {
				p.key("learning_rate")
				p.flt(m.lr)
				p.set()
			},
			func() {
				p.key("loss")
				p.uni("deviance")
				p.set()
			},
			func() {
				p.key("max_depth")
				p.long(3)
				p.set()
			},
			func() {
				p.key("max_features")
				p.none()
				p.set()
			},
			func() {
				p.key("warm_start")
				p.WriteString("I00\n")
				p.set()
			},
			func() {
				p.key("n_features_")
				p.long(m.Feat)
				p.set()
			},
			func() {
				p.key("classes_")
				cs := make([]int, nclass)
				// the labels of the classes are whatever they were in the data
				step, first := 1, 0
				if m.layout.Chance(40) {
					step, first = 1+m.layout.Intn(9), m.layout.Intn(20)-10
				}
				for i := range cs {
					cs[i] = i*step + first
				}
				p.array([]int{nclass}, "i8", "<", func() { p.data(lei(cs...)) })
				p.set()
			},
			func() {
				p.key("n_classes_")
				p.long(nclass)
				p.set()
			},
			func() {
				p.key("max_features_")
				p.long(maxFeat)
				p.set()
			},
			func() {
				p.key("init_")
				if m.Groups == 1 {
					p.object("sklearn.ensemble.gradient_boosting", "LogOddsEstimator", func() {
						p.key("prior")
						p.global("numpy.core.multiarray", "scalar")
						p.WriteByte('(')
						p.dtype("f8", "<")
						p.data(le(m.base[0]))
						p.WriteByte('t')
						p.put()
						p.WriteByte('R')
						p.put()
						p.set()
					})
				} else {
					p.object("sklearn.ensemble.gradient_boosting", "PriorProbabilityEstimator", func() {
						p.key("priors")
						p.array([]int{m.Groups}, "f8", "<", func() { p.data(le(m.base...)) })
						p.set()
					})
				}
				p.set()
			},
			func() {
				p.key("estimators_")
				p.array([]int{m.Iters, m.Groups}, "O8", "|", func() {
					p.WriteString("(l")
					p.put()
					for _, t := range m.trees {
						m.skTree(p, t, maxFeat)
						p.WriteByte('a')
					}
				})
				p.set()
			},
			p.extra(&m.layout, "n_estimators_", func() { p.long(m.Iters) }),
			p.extra(&m.layout, "n_iter_no_change", p.none),
			p.extra(&m.layout, "validation_fraction", func() { p.flt(0.1) }),
			p.extra(&m.layout, "random_state", func() { p.long(m.layout.Intn(100)) }),
			p.extra(&m.layout, "subsample", func() { p.flt(1) }),
			p.extra(&m.layout, "learning_rate_schedule", func() { p.flt(-5) }),
			p.extra(&m.layout, "init", p.none),
			p.extra(&m.layout, "presort", func() { p.uni("auto") }),
			p.extra(&m.layout, "train_score_", func() {
				p.array([]int{2}, "f8", "<", func() { p.data(le(0.5, 0.25)) })
			}),
			p.extra(&m.layout, "_sklearn_version", func() { p.uni("0.20.0") }),
		)
	})
	p.WriteByte('.')
	if m.layout.Chance(20) {
		p.WriteString("\n")
	}
	return p.Bytes()
}

func (m *Model) skTree(p *pkl, t *tree, maxFeat int) {
	var all []*tnode
	var walk func(x *tnode)
	walk = func(x *tnode) {
		all = append(all, x)
		if !x.leaf {
			walk(x.l)
			walk(x.r)
		}
	}
	walk(t.root)
	pos := map[*tnode]int{}
	q := perm(&m.layout, len(all)-1)
	order := make([]*tnode, len(all))
	order[0] = all[0]
	pos[all[0]] = 0
	for i, x := range all[1:] {
		order[1+q[i]] = x
		pos[x] = 1 + q[i]
	}
	p.object("sklearn.tree.tree", "DecisionTreeRegressor", func() {
		p.entries(&m.layout,
			func() {
				p.key("max_depth")
				p.long(3)
				p.set()
			},
			func() {
				p.key("n_features_")
				p.long(m.Feat)
				p.set()
			},
			func() {
				p.key("n_outputs_")
				p.long(1)
				p.set()
			},
			func() {
				p.key("n_classes_")
				p.global("numpy.core.multiarray", "scalar")
				p.WriteByte('(')
				p.dtype("i8", "<")
				p.data(lei(1))
				p.WriteByte('t')
				p.put()
				p.WriteByte('R')
				p.put()
				p.set()
			},
			func() {
				p.key("max_features_")
				p.long(maxFeat)
				p.set()
			},
			func() {
				p.key("tree_")
				p.global("sklearn.tree._tree", "Tree")
				p.WriteByte('(')
				p.long(m.Feat)
				p.array([]int{1}, "i8", "<", func() { p.data(lei(1)) })
				p.long(1)
				p.WriteByte('t')
				p.put()
				p.WriteByte('R')
				p.put()
				p.WriteString("(d")
				p.put()
				p.entries(&m.layout,
					func() {
						p.key("max_depth")
						p.long(3)
						p.set()
					},
					func() {
						p.key("node_count")
						p.long(len(order))
						p.set()
					},
					func() {
						p.key("nodes")
						b := &bin{}
						for _, x := range order {
							if x.leaf {
								b.u64(-1)
								b.u64(-1)
								b.u64(-2)
								b.f64(-2)
							} else {
								b.u64(pos[x.l])
								b.u64(pos[x.r])
								b.u64(x.feat)
								b.f64(x.thr)
							}
							b.f64(0.5)
							b.u64(10)
							b.f64(10)
						}
						p.array([]int{len(order)}, "V56", "|", func() { p.data(b.Bytes()) })
						p.set()
					},
					func() {
						p.key("values")
						vs := make([]float64, len(order))
						for i, x := range order {
							if x.leaf {
								vs[i] = x.val
							} else {
								vs[i] = math.Pi
							}
						}
						p.array([]int{len(order), 1, 1}, "f8", "<", func() { p.data(le(vs...)) })
						p.set()
					},
				)
				p.WriteByte('b')
				p.set()
			},
			p.extra(&m.layout, "splitter", func() { p.uni("best") }),
			p.extra(&m.layout, "criterion", func() { p.uni("friedman_mse") }),
			p.extra(&m.layout, "class_weight", p.none),
		)
	})
}
