package main

import (
	"fmt"
	"math"

	"github.com/dmitryikh/leaves"

	"zsim/rt"
)

const fSharedView = 64

// genClients fills a scenario with concurrent clients of prediction ops.
func genClients(r *rt.Rand, sc *Scenario, nc, maxOps int, batchOnly bool, shrinkRows int) {
	for i := 0; i < nc; i++ {
		var ops []Op
		for j := 0; j < 1+r.Intn(maxOps); j++ {
			op := genPredict(r, sc.Models, batchOnly)
			if shrinkRows > 0 && op.Rows > shrinkRows {
				op.Rows = r.Intn(shrinkRows)
			}
			ops = append(ops, op)
		}
		sc.Clients = append(sc.Clients, ops)
	}
}

// ---- C02: refinement of the reference model ----

func init() {
	props["C02"] = &prop{
		big: 5, tall: 1, quick: 45000, thorough: 1200000,
		rule: "a run loads one or two generated models through a seeded delivery of their bytes and scores rows directed at their leaves from several concurrent clients; it is non-trivial if some delivery was irregular (short, empty, delayed, from the simulated disk) or scoring was preempted; distinct by model contents and schedule",
		gen: func(r *rt.Rand, sc *Scenario) {
			genModels(r, sc, 1+r.Intn(2), kinds)
			var loads []Op
			for i := range sc.Models {
				op := Op{K: "load", M: i, Src: genDelivery(r)}
				op.Src.File = r.Chance(30)
				loads = append(loads, op)
			}
			nc := 1 + r.Intn(3)
			for i := 0; i < nc; i++ {
				var ops []Op
				for j := 0; j < 1+r.Intn(3); j++ {
					op := genPredict(r, sc.Models, false)
					if op.Rows > 60 {
						op.Rows = 17 + r.Intn(40)
					}
					op.Flag = fNoExact
					if isLeafView(op.V) && op.N == 1 {
						op.N = 0
					}
					ops = append(ops, op)
				}
				sc.Clients = append(sc.Clients, ops)
			}
			sc.Prep = loads
		},
		run: runC02,
	}
}

const (
	fNoExact = 128
	fArena   = 256
)

func (c *ctx) loadBy(m *Model, op Op) (*leaves.Ensemble, error) {
	src := op.Src
	if src == nil {
		src = &Src{}
	}
	if src.File && hasFileLoader(m.Kind) {
		name := op.file("", fmt.Sprintf("model%d", op.M), "")
		c.place(name, m.bytes, src)
		return loadFile(m.Kind, m.Trans, name)
	}
	return loadReader(m.Kind, m.Trans, newSource(m.bytes, src))
}

func runC02(c *ctx) {
	es := make([]*leaves.Ensemble, len(c.models))
	for _, op := range c.sc.Prep {
		m := c.model(op)
		e, err := c.loadBy(m, op)
		if err != nil || e == nil {
			fail("load-refused", "well-formed %s model is refused: %v", m.Kind, err)
		}
		es[clamp(op.M, 0, len(es)-1)] = e
		if op.Src != nil && (op.Src.Chunk > 0 || op.Src.Empty > 0 || op.Src.Delay > 0 || op.Src.File || op.Src.DataEOF) {
			c.hit()
		}
	}
	for i, m := range c.models {
		if es[i] == nil {
			es[i] = clean(m)
		}
		c.checkMeta(m, es[i])
	}
	var all [][]*call
	for _, ops := range c.sc.Clients {
		var cs []*call
		for _, op := range ops {
			m := c.model(op)
			op.M = clamp(op.M, 0, len(es)-1)
			cs = append(cs, prepare(op, m, viewGroups(m, op.V), m.Feat))
		}
		all = append(all, cs)
	}
	c.parallel(func(i int) {
		for _, cl := range all[i] {
			cl.invoke(view(es[cl.op.M], cl.op.V))
			cl.compareReference()
		}
	})
	// leaf numbers name leaves one to one
	for mi, m := range c.models {
		if m.isLin {
			continue
		}
		fwd := map[[2]int]*tnode{}
		back := map[*tnode]int{}
		for _, cs := range all {
			for _, cl := range cs {
				if cl.op.M != mi || !isLeafView(cl.op.V) || cl.op.K == "single" || cl.err != nil {
					continue
				}
				for ri, row := range cl.rowsDense {
					for t, tr := range m.trees {
						k, it := t%m.Groups, t/m.Groups
						pos := k*m.Iters + it
						got := cl.passed[ri*cl.groups+pos]
						leaf := m.leafOf(tr, row)
						id := int(got)
						if float64(id) != got || id < 0 || id >= len(tr.leaves) {
							fail("leaf-index", "%s: leaf index %v of tree %d is not in 0..%d", cl.what(), got, t, len(tr.leaves)-1)
						}
						if m.Kind == "lgtext" && len(tr.leaves) > 1 && id != leaf.id {
							fail("leaf-index", "%s: leaf index %d of tree %d, the file numbers it %d", cl.what(), id, t, leaf.id)
						}
						if x, ok := fwd[[2]int{t, id}]; ok && x != leaf {
							fail("leaf-index", "%s: tree %d reports index %d for two different leaves", cl.what(), t, id)
						}
						if x, ok := back[leaf]; ok && x != id {
							fail("leaf-index", "%s: tree %d reports indexes %d and %d for the same leaf", cl.what(), t, x, id)
						}
						fwd[[2]int{t, id}] = leaf
						back[leaf] = id
					}
				}
			}
		}
	}
	if c.preempted() {
		c.hit()
	}
}

//go:norace
func (c *ctx) preempted() bool { return rt.Switches() > 2 }

func viewGroups(m *Model, chain string) int {
	if chain == "" {
		return m.Groups
	}
	if isLeafView(chain) {
		return m.Groups * m.nest()
	}
	return m.Groups
}

func (c *ctx) checkMeta(m *Model, e *leaves.Ensemble) {
	count(cInspect)
	bad := func(what string, got, want any) {
		if got != want {
			fail("metadata", "%s model (%d features, %d groups, %d iterations): %s is %v, the file says %v", m.Kind, m.Feat, m.Groups, m.nest(), what, got, want)
		}
	}
	bad("Name", e.Name(), m.modelName())
	bad("NFeatures", e.NFeatures(), m.Feat)
	bad("NEstimators", e.NEstimators(), m.nest())
	bad("NRawOutputGroups", e.NRawOutputGroups(), m.Groups)
	bad("NOutputGroups", e.NOutputGroups(), m.Groups)
	bad("transformation", e.Transformation().Name(), m.transKind())
	raw, leaf := e.EnsembleWithRawPredictions(), e.EnsembleWithLeafPredictions()
	bad("transformation of the raw view", raw.Transformation().Name(), "raw")
	bad("NOutputGroups of the raw view", raw.NOutputGroups(), m.Groups)
	bad("NOutputGroups of the leaf view", leaf.NOutputGroups(), m.Groups*m.nest())
	bad("NFeatures of the leaf view", leaf.NFeatures(), m.Feat)
	if !m.isLin {
		nl := e.NLeaves()
		bad("len(NLeaves)", len(nl), len(m.trees))
		for t, tr := range m.trees {
			k, it := t%m.Groups, t/m.Groups
			bad(fmt.Sprintf("leaves of tree %d", t), nl[k*m.Iters+it], len(tr.leaves))
		}
	}
}

func (c *call) compareReference() {
	if c.op.K == "single" {
		want, tol := 0.0, 0.0
		if c.groups == 1 && !isLeafView(c.op.V) {
			w, t := c.reference(c.rowsDense[0])
			want, tol = w[0], t[0]
		} else if c.groups == 1 {
			return
		}
		if !near(c.single, want, tol) {
			fail("wrong-value", "%s returned %v, the model file defines %v", c.what(), c.single, want)
		}
		return
	}
	if c.mustRefuseRef() {
		if c.err == nil {
			fail("accepted", "%s should be refused", c.what())
		}
		return
	}
	if c.err != nil {
		fail("refused", "%s is refused: %v", c.what(), c.err)
	}
	if isLeafView(c.op.V) {
		return
	}
	for i, row := range c.rowsDense {
		want, tol := c.reference(row)
		for j := range want {
			if got := c.passed[i*c.groups+j]; !near(got, want[j], tol[j]) {
				fail("wrong-value", "%s: row %d output %d is %v, the model file defines %v (row %v)", c.what(), i, j, got, want[j], row)
			}
		}
	}
	countN(cRowsChecked, len(c.rowsDense))
}

func (c *call) mustRefuseRef() bool {
	return c.refusable || isLeafView(c.op.V) && c.n > 0 && c.n < c.m.nest()
}

func (c *call) reference(row []float64) (out, tol []float64) {
	if c.op.V == "" {
		return c.m.out(row, c.n)
	}
	return c.m.raw(row, c.n)
}

func near(a, b, tol float64) bool {
	if a == b || (a != a && b != b) {
		return true
	}
	return math.Abs(a-b) <= tol
}

// ---- C03: completion ----

func init() {
	props["C03"] = &prop{
		big: 3, tall: 4, quick: 24000, thorough: 640000,
		rule: "a run is one or several concurrent batch calls under an adversarial schedule (stalled workers, priority inversion); it is non-trivial if a call started workers and at least one goroutine was preempted or stalled; distinct by the sequence of goroutines scheduled",
		gen: func(r *rt.Rand, sc *Scenario) {
			genModels(r, sc, 1, kinds)
			sc.Models[0].Iters = 1 + r.Intn(3)
			nc := 1
			if r.Chance(40) {
				nc = 2 + r.Intn(3)
			}
			genClients(r, sc, nc, 2, true, 0)
			for _, ops := range sc.Clients {
				for i := range ops {
					if r.Chance(15) {
						ops[i].Flag = pick(r, fShortOut, fFewCols, fZeroCols, fEmptyOut)
					}
					if r.Chance(10) {
						ops[i].Rows = 300 + r.Intn(900)
					}
				}
			}
			if r.Chance(30) {
				sc.Sched.Strategy = rt.StratStall
			}
			if r.Chance(4) {
				// a long history of small batches: what a call leaves behind adds up
				for _, ops := range sc.Clients {
					for i := range ops {
						ops[i].Rows = 17 + r.Intn(30)
						ops[i].T = pick(r, 2, 3, 4, 8, 16, -1, 1000)
						ops[i].A = 20 + r.Intn(80)
					}
				}
				sc.Sched.Procs = 2 + r.Intn(15)
			}
		},
		run: runC03,
	}
}

func runC03(c *ctx) {
	m := c.models[0]
	e := clean(m)
	ref := clean(m)
	type res struct {
		cl   *call
		want [][]float64
		snap []float64
		must bool
	}
	all := make([][]*res, len(c.sc.Clients))
	for i, ops := range c.sc.Clients {
		for _, op := range ops {
			v := view(ref, op.V)
			x := &res{cl: prepare(op, c.model(op), v.NOutputGroups(), v.NFeatures())}
			x.must = x.cl.mustRefuse(v)
			if !x.must {
				x.want = x.cl.expectRows(v)
			}
			all[i] = append(all[i], x)
		}
	}
	if c.sc.Cold {
		c.restart()
		e = clean(m)
	}
	n0, live := rt.Spawned(), rt.Live()
	c.parallel(func(i int) {
		for _, x := range all[i] {
			v := view(e, x.cl.op.V)
			for k := clamp(x.cl.op.A, 0, 1000); k > 0; k-- {
				x.cl.invoke(v)
			}
			x.cl.invoke(v)
			x.snap = append([]float64{}, x.cl.out.full...)
			if x.cl.err == nil && x.must {
				fail("accepted", "%s with unsuitable arguments reports success", x.cl.what())
			}
			if x.cl.err == nil {
				x.cl.compareRows(x.want)
			}
		}
	})
	if rt.Spawned()-n0 > len(c.sc.Clients) && c.preempted() {
		c.hit()
		count(cParallel)
	}
	rt.Quiet(false)
	rt.Sleep(int64(1e13)) // leftovers get the processor
	rt.Quiet(true)
	for _, xs := range all {
		for _, x := range xs {
			for j := range x.snap {
				if math.Float64bits(x.snap[j]) != math.Float64bits(x.cl.out.full[j]) {
					fail("late-write", "%s: the output buffer changed after the call had returned (element %d)", x.cl.what(), j-x.cl.out.lo)
				}
			}
		}
	}
	if n := rt.Live(); n > live {
		fail("leak", "%d goroutines started by prediction calls are still there long after the calls returned", n-live)
	}
}

// ---- C04: writes only its own slots ----

func init() {
	props["C04"] = &prop{
		big: 3, tall: 2, quick: 60000, thorough: 1600000,
		rule: "a run is one to three concurrent prediction calls (valid and refused) with guard zones and input copies compared at every scheduling point; non-trivial if the memory was compared at least ten times while calls were in progress, or a call was refused; distinct by schedule and arguments",
		gen: func(r *rt.Rand, sc *Scenario) {
			genModels(r, sc, 1, kinds)
			sc.Models[0].Iters = 1 + r.Intn(3)
			genClients(r, sc, 1+r.Intn(3), 2, false, 80)
			for _, ops := range sc.Clients {
				for i := range ops {
					if r.Chance(30) {
						ops[i].Flag = pick(r, fShortOut, fFewCols, fZeroCols, fEmptyOut)
					}
				}
			}
			sc.Sched.Quantum = pick(r, 3, 7, 20, 60)
		},
		run: runC04,
	}
}

type guarded struct {
	cl     *call
	before []float64
	need   int
	must   bool
	live   bool
}

//go:norace
func (g *guarded) check() string {
	for i := range g.before {
		if i >= g.cl.out.lo && i < g.cl.out.lo+g.need {
			continue
		}
		if math.Float64bits(g.before[i]) != math.Float64bits(g.cl.out.full[i]) {
			return fmt.Sprintf("%s wrote to element %d relative to the start of an output slice of which it may write %d", g.cl.what(), i-g.cl.out.lo, g.need)
		}
	}
	for _, k := range g.cl.inputs {
		if j := k.changed(); j >= 0 {
			return fmt.Sprintf("%s changed its %s at position %d (with surroundings)", g.cl.what(), k.name, j)
		}
	}
	return ""
}

func (g *guarded) size() int {
	n := len(g.before)
	for _, k := range g.cl.inputs {
		n += len(k.f) + len(k.i)
	}
	return n
}

func runC04(c *ctx) {
	m := c.models[0]
	e := clean(m)
	ref := clean(m)
	all := make([][]*guarded, len(c.sc.Clients))
	var flat []*guarded
	for i, ops := range c.sc.Clients {
		for _, op := range ops {
			v := view(ref, op.V)
			g := &guarded{cl: prepare(op, c.model(op), v.NOutputGroups(), v.NFeatures())}
			g.must = g.cl.mustRefuse(v)
			g.need = g.cl.need
			if g.must || op.K == "single" {
				g.need = 0
			}
			g.before = append([]float64{}, g.cl.out.full...)
			all[i] = append(all[i], g)
			flat = append(flat, g)
		}
	}
	checks, skip := 0, 0
	pause := 0 // comparing large memory at every point would take for ever
	for _, g := range flat {
		pause += g.size() / 4000
	}
	watcher = func(*rt.G) (string, string) {
		if skip++; skip <= pause {
			return "", ""
		}
		skip = 0
		for _, g := range flat {
			if !g.live {
				continue
			}
			checks++
			if s := g.check(); s != "" {
				return "stray-write", s
			}
		}
		return "", ""
	}
	c.parallel(func(i int) {
		for _, g := range all[i] {
			setLive(g, true)
			n := rt.SpawnedBy(i)
			v := view(e, g.cl.op.V)
			g.cl.invoke(v)
			started := rt.SpawnedBy(i) - n
			if s := g.check(); s != "" {
				fail("stray-write", "%s", s)
			}
			switch {
			case g.cl.op.K == "single":
				quiet := v.NOutputGroups() != 1 || g.must
				if quiet && (g.cl.single != 0 || math.Signbit(g.cl.single)) {
					fail("not-quiet", "%s with unsuitable arguments returns %v instead of 0", g.cl.what(), g.cl.single)
				}
				if quiet && started > 0 {
					fail("started", "%s with unsuitable arguments started %d goroutines", g.cl.what(), started)
				}
			case g.must && g.cl.err == nil:
				fail("accepted", "%s with unsuitable arguments reports success", g.cl.what())
			case g.cl.err != nil:
				c.hit()
				if !g.must {
					fail("refused", "%s is refused: %v", g.cl.what(), g.cl.err)
				}
				if started > 0 {
					fail("started", "%s returned an error but started %d goroutines", g.cl.what(), started)
				}
			}
		}
	})
	rt.Sleep(int64(1e13))
	for _, g := range flat {
		if s := g.check(); s != "" {
			fail("stray-write", "%s", s)
		}
	}
	if checks >= 10 {
		c.hit()
	}
}

//go:norace
func setLive(g *guarded, v bool) { g.live = v }

// ---- C05: shared model, concurrent callers ----

func init() {
	props["C05"] = &prop{
		quick: 9000, thorough: 240000, race: true,
		rule: "a run shares one ensemble and views of it between two to five concurrent clients; every call is compared with the same call on a separately loaded copy, every memory access is under happens-before analysis; non-trivial if calls of two clients overlapped; distinct by the sequence of goroutines scheduled",
		gen: func(r *rt.Rand, sc *Scenario) {
			genModels(r, sc, 1, kinds)
			genTwin(r, sc, 20)
			genClients(r, sc, 2+r.Intn(4), 3, false, 70)
			for _, ops := range sc.Clients {
				for i := range ops {
					if r.Chance(40) {
						ops[i].Flag |= fNoExact
					}
					if r.Chance(15) {
						ops[i].K = "inspect"
					}
					if r.Chance(50) {
						ops[i].Flag |= fSharedView
					}
				}
			}
		},
		run: runC05,
	}
}

// inspect reads everything the inspection methods tell.
func inspect(v *leaves.Ensemble) string {
	count(cInspect)
	return fmt.Sprint(v.Name(), " ", v.NFeatures(), " ", v.NEstimators(), " ", v.NRawOutputGroups(), " ", v.NOutputGroups(), " ",
		v.Transformation().Name(), " ", int(v.Transformation().Type()), " ", v.Transformation().NOutputGroups(), " ", v.NLeaves())
}

type pair struct {
	op       Op
	cl, want *call
	text     string
}

func (c *ctx) pairs(ref func(m int) *leaves.Ensemble) [][]*pair {
	all := make([][]*pair, len(c.sc.Clients))
	for i, ops := range c.sc.Clients {
		for _, op := range ops {
			op.M = clamp(op.M, 0, len(c.models)-1)
			p := &pair{op: op}
			v := view(ref(op.M), op.V)
			if op.K == "inspect" {
				p.text = inspect(v)
			} else {
				p.cl = prepare(op, c.model(op), v.NOutputGroups(), v.NFeatures())
				p.want = prepare(op, c.model(op), v.NOutputGroups(), v.NFeatures())
				p.want.invoke(v)
			}
			all[i] = append(all[i], p)
		}
	}
	return all
}

// sharedViews makes the views that clients share, each from the previous view
// of its chain, so that views share ancestors.
func (c *ctx) sharedViews(es []*leaves.Ensemble, all [][]*pair) map[string]*leaves.Ensemble {
	shared := map[string]*leaves.Ensemble{}
	for _, ps := range all {
		for _, p := range ps {
			if p.op.Flag&fSharedView == 0 {
				continue
			}
			v := es[p.op.M]
			for k := 0; k <= len(p.op.V); k++ {
				s := itoa(p.op.M) + p.op.V[:k]
				if k > 0 {
					if shared[s] == nil {
						shared[s] = view(v, p.op.V[k-1:k])
					}
					v = shared[s]
				}
			}
			shared[p.viewKey()] = v
		}
	}
	return shared
}

func (p *pair) viewKey() string { return itoa(p.op.M) + p.op.V }

func (p *pair) view(es []*leaves.Ensemble, shared map[string]*leaves.Ensemble) *leaves.Ensemble {
	if p.op.Flag&fSharedView != 0 {
		if v := shared[p.viewKey()]; v != nil {
			return v
		}
	}
	return view(es[p.op.M], p.op.V)
}

// compare checks a finished call against the same call made elsewhere, and
// against the definition where the rows allow it.
func (p *pair) compare() {
	p.cl.compareCall(p.want)
	if p.op.Flag&fNoExact != 0 && p.cl.err == nil && !p.cl.refusable {
		p.cl.compareReference()
	}
}

func runC05(c *ctx) {
	es, refs := c.cleanAll(), c.cleanAll()
	all := c.pairs(func(m int) *leaves.Ensemble { return refs[m] })
	if c.sc.Cold {
		c.restart()
		es = c.cleanAll()
	}
	shared := c.sharedViews(es, all)
	sw := rt.Switches()
	c.parallel(func(i int) {
		for _, p := range all[i] {
			v := p.view(es, shared)
			if p.op.K == "inspect" {
				if s := inspect(v); s != p.text {
					fail("wrong-inspection", "inspection of view %q gives %q, alone it gives %q", p.op.V, s, p.text)
				}
				continue
			}
			p.cl.invoke(v)
			p.compare()
		}
	})
	if rt.Switches()-sw > int64(2*len(all)) {
		c.hit()
	}
	for _, ps := range all {
		for _, p := range ps {
			if p.cl != nil {
				p.cl.checkGuards()
			}
		}
	}
}

// ---- C06: histories ----

func init() {
	props["C06"] = &prop{
		big: 3, tall: 1, quick: 24000, thorough: 640000,
		rule: "a run is a history of 3 to 20 calls (predictions of all kinds, refused calls, view creation, inspections whose returned slices are overwritten) by one to three clients on one ensemble and its views; every call is compared with the same call on a freshly loaded copy; non-trivial with at least three calls; distinct by the history",
		gen: func(r *rt.Rand, sc *Scenario) {
			genModels(r, sc, 1, kinds)
			genTwin(r, sc, 30)
			nc := 1
			if r.Chance(35) {
				nc = 2 + r.Intn(2)
			}
			for i := 0; i < nc; i++ {
				var ops []Op
				for j := 0; j < 3+r.Intn(18/nc); j++ {
					op := genPredict(r, sc.Models, false)
					if op.Rows > 50 {
						op.Rows = r.Intn(50)
					}
					if r.Chance(20) {
						op.K = "inspect"
					}
					if r.Chance(15) {
						op.Flag = pick(r, fShortOut, fFewCols, fZeroCols, fEmptyOut)
					}
					if r.Chance(50) {
						op.Flag |= fSharedView
					}
					if r.Chance(40) {
						op.Flag |= fReuse
					}
					if r.Chance(40) {
						op.Flag |= fNoExact
					}
					if r.Chance(40) {
						op.Flag |= fArena
					}
					if len(ops) > 0 && r.Chance(25) {
						// something asked before, of another view or model, or just so
						o := ops[r.Intn(len(ops))]
						if r.Chance(50) {
							op.V, op.M = o.V, o.M
						}
						if o.K != "inspect" {
							op.K, op.Seed, op.Rows, op.Extra = o.K, o.Seed, o.Rows, o.Extra
							op.Flag = o.Flag&^fReuse | op.Flag&fReuse
						}
					}
					ops = append(ops, op)
				}
				if r.Chance(25) {
					// a run of single rows in the same memory
					b := genPredict(r, sc.Models, false)
					b.K, b.Flag = pick(r, "single", "single", "one"), fArena|fSharedView
					if r.Chance(50) {
						b.V = ""
					}
					at := r.Intn(len(ops) + 1)
					for j := 0; j < 2+r.Intn(8); j++ {
						b.Seed = r.U64() >> 20
						if r.Chance(50) {
							b.Flag |= fReuse
						}
						ops = append(ops[:at:at], append([]Op{b}, ops[at:]...)...)
					}
				}
				if r.Chance(3) && len(ops) > 0 {
					ops[0].A = 5 + r.Intn(40) // the whole history so many times more
				}
				sc.Clients = append(sc.Clients, ops)
			}
		},
		run: runC06,
	}
}

func runC06(c *ctx) {
	es := c.cleanAll()
	all := c.pairs(func(m int) *leaves.Ensemble { return clean(c.models[m]) })
	shared := c.sharedViews(es, all)
	n := 0
	for _, ps := range all {
		n += len(ps)
		mem := &arena{}
		var last *call
		for _, p := range ps {
			if p.cl == nil {
				continue
			}
			if p.op.Flag&fArena != 0 {
				p.cl.mem = mem
			}
			// a client that keeps one output buffer: the old results are still in it
			if p.op.Flag&fReuse != 0 && last != nil && len(last.passed) >= len(p.cl.passed) && len(p.cl.passed) > 0 {
				p.cl.out = last.out
				p.cl.passed = last.passed[:len(p.cl.passed)]
			}
			last = p.cl
		}
	}
	if n >= 3 {
		c.hit()
	}
	base := make([]string, len(es))
	for i, m := range c.models {
		base[i] = inspect(clean(m))
	}
	c.parallel(func(i int) {
		ps := all[i]
		if len(ps) > 0 {
			for k := clamp(ps[0].op.A, 0, 300); k > 0; k-- {
				ps = append(ps, all[i]...)
			}
		}
		for _, p := range ps {
			v := p.view(es, shared)
			if p.op.K == "inspect" {
				if s := inspect(v); s != p.text {
					fail("wrong-inspection", "inspection of view %q gives %q, on a fresh copy %q", p.op.V, s, p.text)
				}
				nl := v.NLeaves()
				for j := range nl {
					nl[j] = -12345
				}
				if len(nl) > 0 {
					nl = append(nl[:len(nl)-1], -1, -2, -3)
					count(cOverwrites)
				}
				continue
			}
			p.cl.invoke(v)
			p.compare()
		}
	})
	for i, m := range c.models {
		if s := inspect(es[i]); s != base[i] {
			fail("model-changed", "after the history inspection of the ensemble gives %q instead of %q", s, base[i])
		}
		f, g := fingerprint(clean(m), m, 99, 4), fingerprint(es[i], m, 99, 4)
		if !f.eq(g) {
			fail("model-changed", "after the history the ensemble behaves differently: %s", f.diff(g))
		}
	}
}

// ---- C07: parallelism bound ----

func init() {
	props["C07"] = &prop{
		quick: 24000, thorough: 640000,
		rule: "a run is one batch call watched at every scheduling point: which goroutine writes which row when; non-trivial if two or more goroutines were observed inside rows; distinct by the sequence of goroutines scheduled",
		gen: func(r *rt.Rand, sc *Scenario) {
			s := genSpec(r, []string{"lgtext", "lgjson", "xgtree", "xgdart", "sk"})
			s.Iters = 4 + r.Intn(pick(r, 8, 8, 8, 8, 8, 8, 8, 30))
			s.Leaves = 2 + r.Intn(5)
			s.Groups = 1 + r.Intn(pick(r, 2, 2, 6))
			s.RF = false
			sc.Models = []Spec{s}
			op := Op{K: pick(r, "dense", "csr"), V: "r", Seed: r.U64() >> 20, Rows: 17 + r.Intn(180), T: genThreads(r)}
			if r.Chance(50) {
				op.T = pick(r, -1, 0, 1, 2, 3, 20, 1000, hugeInt(r))
			}
			sc.Clients = [][]Op{{op}}
			sc.Sched.Strategy = pick(r, rt.StratRandom, rt.StratRR, rt.StratRR, rt.StratStall)
			sc.Sched.Quantum = pick(r, 3, 8, 15, 25)
			sc.Sched.Procs = 1 + r.Intn(8)
			sc.Sched.CPUs = 1 + r.Intn(16)
			if r.Chance(20) {
				// the program has made a call before it changed GOMAXPROCS
				sc.Sched.Was = 1 + r.Intn(16)
			}
			switch r.Intn(100) {
			case 0:
				sc.Clients[0][0].Rows = pick(r, 500, 1100, 2100)
				sc.Sched.Quantum = 400
			case 1:
				sc.Models[0].Iters = 40 + r.Intn(150)
				sc.Sched.Quantum = 400
			}
		},
		run: runC07,
	}
}

// evaluationCode is the set of statements that evaluate estimators: those that
// Predict executes more often the more estimators it is to use.
func evaluationCode(e *leaves.Ensemble, m *Model) map[int]bool {
	v := view(e, "r")
	r := rt.NewRand(m.Seed ^ 0x407)
	out := make([]float64, v.NOutputGroups())
	hot := map[int]bool{}
	for i := 0; i < 6; i++ {
		row := m.row(&r, rowPath, false)
		one := rt.Profile(func() { v.Predict(row, 1, out) })
		all := rt.Profile(func() { v.Predict(row, 0, out) })
		for id, n := range all {
			if n-one[id] >= m.nest()-1 {
				hot[id] = true
			}
		}
	}
	return hot
}

type span struct {
	g          int
	from, till int64
}

func runC07(c *ctx) {
	m := c.models[0]
	e := clean(m)
	op := c.sc.Clients[0][0]
	v := view(e, "r")
	cl := prepare(op, m, v.NOutputGroups(), v.NFeatures())
	prev := append([]float64{}, cl.out.full...)
	open := make([]span, cl.rows) // current span of each row
	for i := range open {
		open[i].g = -1
	}
	var spans []span
	on := false
	hot := evaluationCode(clean(m), m)
	limit := threadLimit(op.T, max(1, c.sc.Sched.Procs))
	inside := 0
	watcher = func(g *rt.G) (string, string) {
		if !on {
			return "", ""
		}
		n := 0
		rt.Goroutines(func(x *rt.G) {
			if hot[x.At] {
				n++
			}
		})
		inside = max(inside, n)
		if n > limit {
			return "parallelism", fmt.Sprintf("%s with GOMAXPROCS=%d (and %d processors): %d goroutines are in the middle of the evaluation of trees at the same time, at most %d allowed", cl.what(), c.sc.Sched.Procs, c.sc.Sched.CPUs, n, limit)
		}
		now := rt.Steps()
		w := cl.out.full
		for i := 0; i < cl.rows; i++ {
			ch := false
			for j := 0; j < cl.groups; j++ {
				k := cl.out.lo + i*cl.groups + j
				if math.Float64bits(w[k]) != math.Float64bits(prev[k]) {
					ch = true
					prev[k] = w[k]
				}
			}
			if ch {
				if open[i].g != g.ID {
					if open[i].g >= 0 {
						spans = append(spans, open[i])
					}
					open[i] = span{g.ID, now, now}
				}
				open[i].till = now
			}
		}
		return "", ""
	}
	c.parallel(func(int) {
		if c.sc.Sched.Was > 0 {
			before := op
			before.Rows, before.T = min(op.Rows, 70), -1
			procs := rt.MaxProcs(c.sc.Sched.Was)
			prepare(before, m, v.NOutputGroups(), v.NFeatures()).invoke(v)
			rt.MaxProcs(procs)
		}
		on = true
		cl.invoke(v)
		on = false
	})
	for _, s := range open {
		if s.g >= 0 {
			spans = append(spans, s)
		}
	}
	// most goroutines inside a row at one moment
	worst := inside
	for _, a := range spans {
		in := map[int]bool{}
		for _, b := range spans {
			if b.from <= a.from && a.from <= b.till {
				in[b.g] = true
			}
		}
		if len(in) > worst {
			worst = len(in)
		}
	}
	countMax(cMaxOverlap, int64(worst))
	if worst >= 2 {
		c.hit()
	}
	if worst > limit {
		fail("parallelism", "%s with GOMAXPROCS=%d (and %d processors): rows evaluated by %d goroutines at the same time, at most %d allowed", cl.what(), c.sc.Sched.Procs, c.sc.Sched.CPUs, worst, limit)
	}
	if p := rt.MaxProcs(0); p != c.sc.Sched.Procs {
		fail("procs-changed", "%s changes the GOMAXPROCS setting of the process from %d to %d", cl.what(), c.sc.Sched.Procs, p)
	}
}
