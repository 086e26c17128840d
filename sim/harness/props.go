package main

import (
	"fmt"
	"os"
	"strconv"

	"github.com/dmitryikh/leaves"

	"zsim/rt"
)

// prop is one decided property.
type prop struct {
	gen        func(r *rt.Rand, sc *Scenario)
	run        func(c *ctx)
	allocLimit func(c *ctx) int64
	big        int  // so many runs of a thousand have a very large model
	tall       int  // and so many a very long batch
	rounds     int  // a run is a history of so many rounds in one process
	race       bool // decided on a build with the happens-before analyser
	quick      int  // scenarios in the quick tier
	thorough   int
	rule       string // what makes a run non-trivial
	byDigest   bool   // executions differ by their digest, not by their schedule
}

var props = map[string]*prop{}

// allBig is for trying out large models only.
var allBig, _ = strconv.Atoi(os.Getenv("ZSIM_BIG"))

// genScenario makes scenario i of a property from the base seed.
func genScenario(id string, seed uint64, i int) *Scenario {
	h := uint64(0)
	for _, ch := range id {
		h = h*31 + uint64(ch)
	}
	r := rt.NewRand(mix(mix(seed, h), uint64(i)))
	sc := &Scenario{Prop: id, Index: i}
	sc.Sched = genSched(&r)
	if f := rt.NewRand(sc.Sched.Seed ^ 0xC01D); f.Chance(30) {
		sc.Cold = true
	}
	p := props[id]
	p.gen(&r, sc)
	if f := rt.NewRand(sc.Sched.Seed ^ 0xF11E); f.Chance(40) {
		for _, ops := range sc.Clients {
			for k := range ops {
				if f.Chance(60) {
					ops[k].Name = 1 + f.Intn(len(fileNames))
				}
			}
		}
	}
	for i := range sc.Models {
		if s := &sc.Models[i]; p.race && s.Kind == "lgjson" {
			// the analyser needs time quadratic in the number of deliveries
			// to the standard library's decoder
			s.Leaves, s.Iters, s.Groups = min(s.Leaves, 20), min(s.Iters, 4), min(s.Groups, 5)
		}
	}
	if len(sc.Models) > 0 {
		switch x := r.Intn(1000); {
		case x < p.tall && tall(&r, sc):
		case p.big > 0 && x < max(p.tall+p.big, allBig):
			grow(&r, &sc.Models[r.Intn(len(sc.Models))])
			fitBig(sc)
		case p.big > 0 && x >= 985:
			widen(&r, sc)
		}
	}
	return sc
}

func genModels(r *rt.Rand, sc *Scenario, n int, ks []string) {
	for i := 0; i < n; i++ {
		sc.Models = append(sc.Models, genSpec(r, ks))
	}
}

// genTwin adds, now and then, a second model: another one, or one that takes
// the very same rows and gives other values for them.
func genTwin(r *rt.Rand, sc *Scenario, chance int) {
	if !r.Chance(chance) {
		return
	}
	if r.Chance(50) {
		genModels(r, sc, 1, kinds)
		return
	}
	s := sc.Models[0]
	s.Alt = 1 + r.Intn(3)
	sc.Models = append(sc.Models, s)
}

func (c *ctx) cleanAll() []*leaves.Ensemble {
	var es []*leaves.Ensemble
	for _, m := range c.models {
		es = append(es, clean(m))
	}
	return es
}

// ---- C01 ----

func init() {
	props["C01"] = &prop{
		big: 3, tall: 3, quick: 45000, thorough: 1200000,
		rule: "a run is one simulated execution of one or two batch calls; it is non-trivial if a batch was evaluated by at least two goroutines with at least one preemption; distinct by the sequence of goroutines scheduled",
		gen: func(r *rt.Rand, sc *Scenario) {
			genModels(r, sc, 1, kinds)
			genTwin(r, sc, 15)
			n := 1
			if r.Chance(25) {
				n = 2
			}
			for i := 0; i < n; i++ {
				op := genPredict(r, sc.Models, true)
				if isLeafView(op.V) && op.N == 1 {
					op.N = 0
				}
				sc.Clients = append(sc.Clients, []Op{op})
			}
		},
		run: runC01,
	}
}

func runC01(c *ctx) {
	es, refs := c.cleanAll(), c.cleanAll()
	calls := make([]*call, len(c.sc.Clients))
	want := make([][][]float64, len(calls))
	for i, ops := range c.sc.Clients {
		for _, op := range ops {
			op.M = clamp(op.M, 0, len(es)-1)
			v := view(refs[op.M], op.V)
			cl := prepare(op, c.model(op), v.NOutputGroups(), v.NFeatures())
			if cl.mustRefuse(v) {
				continue
			}
			calls[i] = cl
			want[i] = cl.expectRows(v)
		}
	}
	if c.sc.Cold {
		c.restart()
		es = c.cleanAll()
	}
	before := rt.Spawned()
	c.parallel(func(i int) {
		cl := calls[i]
		if cl == nil {
			return
		}
		v := view(es[cl.op.M], cl.op.V)
		cl.invoke(v)
		if cl.err != nil {
			fail("batch-refused", "%s refused: %v", cl.what(), cl.err)
		}
		cl.compareRows(want[i])
	})
	if rt.Spawned()-before > len(c.sc.Clients)+1 {
		count(cParallel)
		c.hit()
	}
	for _, cl := range calls {
		if cl != nil {
			cl.checkGuards()
		}
	}
}

// compareRows checks the output of a successful call against rows.
func (c *call) compareRows(want [][]float64) {
	out := c.passed
	for i, w := range want {
		for j, x := range w {
			if got := out[i*c.groups+j]; !same(got, x) {
				fail("wrong-row", "%s: row %d output %d is %v, alone it is %v", c.what(), i, j, got, x)
			}
		}
	}
	countN(cRowsChecked, len(want))
}

// compareCall checks one finished call against the same call made elsewhere.
func (c *call) compareCall(w *call) {
	if (c.err == nil) != (w.err == nil) {
		fail("wrong-outcome", "%s: error %v, but the same call on a fresh copy gives %v", c.what(), c.err, w.err)
	}
	if c.op.K == "single" {
		if !same(c.single, w.single) {
			fail("wrong-value", "%s returned %v, a fresh copy gives %v", c.what(), c.single, w.single)
		}
		return
	}
	if c.err != nil {
		return
	}
	for i := 0; i < c.need; i++ {
		if !same(c.passed[i], w.passed[i]) {
			fail("wrong-value", "%s: row %d output %d is %v, a fresh copy gives %v", c.what(), i/max(1, c.groups), i%max(1, c.groups), c.passed[i], w.passed[i])
		}
	}
	countN(cRowsChecked, c.rows)
}

var _ = fmt.Sprint
