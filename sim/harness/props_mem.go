package main

import (
	"fmt"
	"reflect"
	"runtime"

	"github.com/dmitryikh/leaves"

	"zsim/rt"
	ssync "zsim/shim/sync"
	"zsim/simfs"
)

// ---- C18: nothing accumulates ----
//
// A run is a history in rounds. Every round is a simulation of its own in the
// same process with the same kinds of operation, faults and sizes, but other
// values in the files and rows and another schedule; whatever the round made
// is dropped at its end. What is alive in the process then (after a garbage
// collection) may not grow with the number of rounds. In the other shape one
// ensemble lives through the rounds and its own size is followed.

func init() {
	props["C18"] = &prop{
		rounds: 14, byDigest: true, quick: 3200, thorough: 90000,
		rule: "a run is a history of 14 rounds of loads (intact, cut, damaged, failing, slow, from readers and files), predictions, views, matrix reads and writes by one to three clients, everything dropped after each round, or of 14 rounds of calls on one ensemble; non-trivial if something was loaded, predicted or refused in every round; distinct by digest of all rounds",
		gen:  genC18,
		run:  runC18,
	}
}

func genC18(r *rt.Rand, sc *Scenario) {
	genModels(r, sc, 1+r.Intn(3), kinds)
	for i := range sc.Models {
		s := &sc.Models[i]
		s.Leaves, s.Iters = min(s.Leaves, 40), min(s.Iters, 6)
		s.Feat = min(s.Feat, 40)
	}
	keepOne, predicting := r.Chance(35), r.Chance(40)
	for i := 0; i < 1+r.Intn(3); i++ {
		var ops []Op
		for j := 1 + r.Intn(5); j > 0; j-- {
			var op Op
			switch {
			case keepOne || predicting && r.Chance(80) || r.Chance(25):
				op = genPredict(r, sc.Models, false)
				if op.Rows > 60 {
					op.Rows = 17 + r.Intn(40)
				}
				if r.Chance(20) {
					op.Flag = pick(r, fShortOut, fFewCols, fZeroCols, fEmptyOut)
				}
			case r.Chance(25):
				op = genMat(r)
				op.Rows, op.Extra = min(op.Rows, 60), min(op.Extra, 40)
				op.Limit = []int{genMatLimit(r, op.Rows)}
				op.Src = genDelivery(r)
				op.Src.File = r.Chance(40)
				genTrouble(r, &op)
			case r.Chance(20):
				op = Op{K: "write", Seed: r.U64() >> 20, Rows: r.Intn(30), Extra: 1 + r.Intn(8)}
				w := &Wr{File: r.Chance(60), Err: r.Intn(len(writeErrors))}
				switch r.Intn(5) {
				case 0, 1:
					w.Cap = 1 + r.Intn(300)
				case 2:
					w.Open = 1 + r.Intn(len(openErrors))
				case 3:
					w.Close = 1 + r.Intn(len(writeErrors))
				}
				op.Wr = w
			default:
				op = Op{K: "load", M: r.Intn(len(sc.Models)), V: pick(r, "", "", "r", "l", "rl")}
				op.A, op.Rows, op.N2 = r.Intn(4), 1+r.Intn(40), 1+r.Intn(4)
				op.Src = genDelivery(r)
				op.Src.File = r.Chance(35)
				genTrouble(r, &op)
			}
			if keepOne {
				op.M = 0
			}
			if op.Src != nil {
				op.Src.Delay = min(op.Src.Delay, 1000000)
			}
			ops = append(ops, op)
		}
		sc.Clients = append(sc.Clients, ops)
	}
	if keepOne {
		sc.Models = sc.Models[:1]
		sc.Prep = []Op{{K: "keep"}}
	}
}

// genTrouble makes, now and then, an operation on a source fail.
func genTrouble(r *rt.Rand, op *Op) {
	switch r.Intn(5) {
	case 0:
		addReadError(r, op.Src, 5000)
		op.T = r.Intn(4)
		if op.Src.File {
			op.Src.ErrData, op.Src.After = false, 0
		}
	case 1:
		op.Mut = genDamage(r)
	case 2:
		if r.Chance(50) {
			op.Src.Cut = 1 + r.Intn(3000)
		} else if op.Src.File {
			op.Src.OpenErr = 1 + r.Intn(len(openErrors))
		}
	}
}

const moreRounds = 240

// footprint is what is alive after everything droppable was dropped.
type footprint struct{ bytes, objects uint64 }

var memStats runtime.MemStats

func measure() footprint {
	ssync.DrainPools()
	var last footprint
	for i := 0; i < 8; i++ {
		runtime.Gosched()
		runtime.GC()
		runtime.ReadMemStats(&memStats)
		ms := &memStats
		f := footprint{ms.HeapAlloc, ms.Mallocs - ms.Frees}
		if i > 0 && f == last {
			break
		}
		last = f
	}
	return last
}

// grows: over the last rounds the sizes never shrink, nearly always grow, and
// grow by more than odds and ends.
func grows(xs []footprint) bool {
	if len(xs) < 11 {
		return false
	}
	xs = xs[len(xs)-11:]
	up := 0
	for i := 1; i < len(xs); i++ {
		if xs[i].bytes < xs[i-1].bytes || xs[i].objects < xs[i-1].objects {
			return false
		}
		if xs[i].bytes > xs[i-1].bytes {
			up++
		}
	}
	return up >= 8 && xs[10].bytes-xs[0].bytes >= 80
}

// runRounds runs the rounds of a history. A history that looks as if memory
// grew is continued, so that a cache of bounded size is not taken for a leak.
func runRounds(p *prop, sc *Scenario) *Outcome {
	if len(sc.Prep) > 0 {
		return runOnce(p, sc, 0)
	}
	total := &Outcome{Hash: 7, SchedHash: 7, NonTrivial: true}
	sizes := make([]footprint, 0, p.rounds+moreRounds)
	n := p.rounds
	for round := 0; round < n; round++ {
		s := *sc
		s.Sched.Seed = mix(sc.Sched.Seed, uint64(round))
		s.Models = append([]Spec{}, sc.Models...)
		for i := range s.Models {
			s.Models[i].Alt += round
		}
		o := runOnce(p, &s, round)
		if round < p.rounds {
			total.Hash = mix(total.Hash, o.Hash)
			total.SchedHash = mix(total.SchedHash, o.SchedHash)
			total.Steps += o.Steps
			total.Switches += o.Switches
			total.Preempts += o.Preempts
			total.Stalls += o.Stalls
			total.SimTime += o.SimTime
			total.Spawned += o.Spawned
			total.NonTrivial = total.NonTrivial && o.NonTrivial
		}
		if o.Class != "" {
			total.Class, total.Msg = o.Class, fmt.Sprintf("%s (round %d)", o.Msg, round)
			return total
		}
		simfs.Cur = nil
		sizes = append(sizes, measure())
		// (goroutines that package initialisation starts stay behind after every round)
		if round+1 == n && !rt.StartsWork && grows(sizes) {
			if n >= p.rounds+moreRounds {
				total.Class = "memory-growth"
				k := len(sizes) - 11
				total.Msg = fmt.Sprintf("after %d rounds of the same kinds of operation, everything dropped after each, memory still grows with every round: %d bytes in the last ten rounds", n, sizes[k+10].bytes-sizes[k].bytes)
				return total
			}
			n = p.rounds + moreRounds
		}
	}
	return total
}

func runC18(c *ctx) {
	if len(c.sc.Prep) > 0 {
		c.oneEnsemble()
		return
	}
	type job struct {
		op   Op
		data []byte
		s    Src
		name string
	}
	refs := make([]*leaves.Ensemble, len(c.models))
	for i, m := range c.models {
		refs[i] = clean(m)
	}
	all := make([][]*job, len(c.sc.Clients))
	plans := map[int]*simfs.Faults{}
	dir := c.disk.Put("/out", nil)
	dir.Node.Dir = true
	for i, ops := range c.sc.Clients {
		for k, op := range ops {
			op.M = clamp(op.M, 0, len(c.models)-1)
			op.Seed = mix(op.Seed, uint64(c.round)) >> 12
			j := &job{name: op.file("", fmt.Sprintf("d%d_%d_%d", c.round, i, k), "")}
			switch op.K {
			case "load":
				j.data = damage(c.models[op.M].bytes, op.Mut)
			case "svmdense", "svmcsr", "csv":
				j.data = damage(matBytes(op), op.Mut)
			case "write":
				j.name = op.file("/out", fmt.Sprintf("d%d_%d_%d", c.round, i, k), "")
				if op.Wr == nil {
					op.Wr = &Wr{}
				}
				if op.Wr.File {
					plans[1000*(i+1)+k] = writeFaults(op.Wr, op.Wr.Cap-1)
				}
			}
			if j.data != nil {
				if op.Src == nil {
					op.Src = &Src{}
				}
				j.s = placeErr(op, j.data)
				if j.s.File {
					c.place(j.name, j.data, &j.s)
				}
			}
			j.op = op
			all[i] = append(all[i], j)
		}
	}
	c.disk.WFault = func(tag int) *simfs.Faults { return plans[tag] }
	c.parallel(func(i int) {
		for k, j := range all[i] {
			rt.SetTag(1000*(i+1) + k)
			m := c.model(j.op)
			switch j.op.K {
			case "load":
				var e *leaves.Ensemble
				var err error
				if j.s.File && hasFileLoader(m.Kind) {
					count(cLoads)
					e, err = loadFile(m.Kind, m.Trans, j.name)
				} else {
					e, err = loadReader(m.Kind, m.Trans, newSource(j.data, &j.s))
				}
				c.hit()
				if err != nil {
					break
				}
				if len(j.op.Mut) == 0 && j.s.Cut == 0 && j.s.ErrAt == 0 {
					c.use(view(e, j.op.V), m, j.op)
				}
			case "svmdense", "svmcsr", "csv":
				lim := 0
				if len(j.op.Limit) > 0 {
					lim = j.op.Limit[0]
				}
				count(cMatReads)
				if j.s.File {
					loadMatFile(j.op.K, j.name, lim, j.op.Skip, j.op.delim(), defValue)
				} else {
					loadMat(j.op.K, newSource(j.data, &j.s).buffered(), lim, j.op.Skip, j.op.delim(), defValue)
				}
				c.hit()
			case "write":
				count(cWrites)
				x := genMatrix(j.op)
				if j.op.Wr.File {
					x.ToCsvFile(j.name, j.op.delim())
				} else {
					x.WriteStr(&failingWriter{cap: j.op.Wr.Cap - 1, err: errOf(writeErrors, j.op.Wr.Err)}, j.op.delim())
				}
				c.hit()
			default:
				c.use(view(refs[j.op.M], j.op.V), m, j.op)
			}
		}
	})
	c.settled()
}

// use makes one prediction call and looks at the ensemble.
func (c *ctx) use(v *leaves.Ensemble, m *Model, op Op) {
	if op.K == "load" {
		op = Op{K: []string{"one", "single", "dense", "csr"}[op.A&3], Seed: op.Seed, Rows: op.Rows, T: op.N2}
	}
	count(cInspect)
	_ = v.Name()
	_ = v.NLeaves()
	cl := prepare(op, m, v.NOutputGroups(), v.NFeatures())
	cl.invoke(v)
	c.hit()
}

// settled: after everything returned and time went by, nothing is left.
func (c *ctx) settled() {
	rt.Quiet(false)
	rt.Sleep(int64(1e13))
	rt.Quiet(true)
	if n := rt.Live(); n > c.live {
		fail("goroutine-leak", "%d goroutines started by the library are still there long after all calls returned", n-c.live)
	}
	if n := c.disk.OpenHandles(-1); n > 0 {
		fail("file-leak", "%d files are still open after all calls returned", n)
	}
}

// oneEnsemble follows the size of an ensemble through rounds of calls on it.
func (c *ctx) oneEnsemble() {
	m := c.models[0]
	e := clean(m)
	var sizes []footprint
	n := props[c.sc.Prop].rounds
	for round := 0; round < n; round++ {
		c.parallel(func(i int) {
			for _, op := range c.sc.Clients[i] {
				op.Seed = mix(op.Seed, uint64(round)) >> 12
				if op.K != "one" && op.K != "single" && op.K != "dense" && op.K != "csr" {
					op.K = "dense"
				}
				c.use(view(e, op.V), m, op)
			}
		})
		ssync.DrainPools()
		sizes = append(sizes, sizeOf(e))
		if round+1 == n && grows(sizes) {
			if n >= props[c.sc.Prop].rounds+moreRounds {
				k := len(sizes) - 11
				fail("ensemble-growth", "a %s ensemble still grows with every round of calls after %d rounds: %d bytes in the last ten rounds, %d bytes at first", m.Kind, n, sizes[k+10].bytes-sizes[k].bytes, sizes[0].bytes)
			}
			n = props[c.sc.Prop].rounds + moreRounds
		}
	}
	c.settled()
}

// sizeOf follows everything an ensemble refers to.
//
//go:norace
func sizeOf(e *leaves.Ensemble) footprint {
	w := walker{seen: map[seenKey]bool{}}
	w.walk(reflect.ValueOf(e))
	return w.sum
}

type seenKey struct {
	p uintptr
	n int
	t reflect.Type
}

type walker struct {
	seen map[seenKey]bool
	sum  footprint
}

//go:norace
func (w *walker) add(n int) {
	w.sum.bytes += uint64(n)
	w.sum.objects++
}

// plain types hold no references.
func plain(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Array:
		return plain(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !plain(t.Field(i).Type) {
				return false
			}
		}
		return true
	}
	return t.Kind() <= reflect.Complex128
}

//go:norace
func (w *walker) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		k := seenKey{v.Pointer(), 0, v.Type()}
		if w.seen[k] {
			return
		}
		w.seen[k] = true
		w.add(int(v.Type().Elem().Size()))
		w.walk(v.Elem())
	case reflect.Interface:
		if !v.IsNil() {
			if x := v.Elem(); x.Kind() != reflect.Ptr {
				w.add(int(x.Type().Size()))
				w.walk(x)
			} else {
				w.walk(x)
			}
		}
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 {
			return
		}
		k := seenKey{v.Pointer(), v.Cap(), v.Type()}
		if w.seen[k] {
			return
		}
		w.seen[k] = true
		w.add(v.Cap() * int(v.Type().Elem().Size()))
		if !plain(v.Type().Elem()) {
			for i := 0; i < v.Len(); i++ {
				w.walk(v.Index(i))
			}
		}
	case reflect.String:
		w.add(v.Len())
	case reflect.Array:
		if !plain(v.Type()) {
			for i := 0; i < v.Len(); i++ {
				w.walk(v.Index(i))
			}
		}
	case reflect.Struct:
		if !plain(v.Type()) {
			for i := 0; i < v.NumField(); i++ {
				w.walk(v.Field(i))
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		k := seenKey{v.Pointer(), 0, v.Type()}
		if w.seen[k] {
			return
		}
		w.seen[k] = true
		it := v.MapRange()
		for it.Next() {
			w.add(int(v.Type().Key().Size() + v.Type().Elem().Size()))
			w.walk(it.Key())
			w.walk(it.Value())
		}
	}
}
