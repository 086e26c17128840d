package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"syscall"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/mat"

	"zsim/rt"
	"zsim/simfs"
)

// loaded is the outcome of a load.
type loaded struct {
	ok   bool
	f    finger
	text string
}

func observe(e *leaves.Ensemble, err error, m *Model, rows int) loaded {
	if err != nil {
		if e != nil {
			fail("model-with-error", "%s: an ensemble is returned together with error %v", m.Kind, err)
		}
		return loaded{text: err.Error()}
	}
	if e == nil {
		fail("load-nil", "%s: neither an ensemble nor an error", m.Kind)
	}
	return loaded{ok: true, f: fingerprint(e, m, 4711, rows)}
}

func (l loaded) String() string {
	if !l.ok {
		return "refused (" + l.text + ")"
	}
	return "loaded"
}

// ---- C08: delivery independence ----

func init() {
	props["C08"] = &prop{
		big: 5, byDigest: true, quick: 21000, thorough: 560000,
		rule: "a run loads each of one to three byte sequences (intact, damaged or cut model and matrix files) once from a plain reader and several times through irregular deliveries; non-trivial if a delivery contained short, empty, delayed or data-with-EOF reads; distinct by contents and delivery",
		gen: func(r *rt.Rand, sc *Scenario) {
			genModels(r, sc, 1, kinds)
			n := 2 + r.Intn(3)
			var ops []Op
			var mut []Mut
			cut := 0
			if r.Chance(25) {
				mut = genDamage(r)
			}
			if r.Chance(15) {
				cut = 1 + r.Intn(100000)
			}
			matrix := r.Chance(30)
			proto := Op{K: "load"}
			if matrix {
				proto = genMat(r)
				proto.Limit = []int{genMatLimit(r, proto.Rows)}
			}
			for i := 0; i < n; i++ {
				op := proto
				op.Mut, op.N = mut, cut
				op.Src = genDelivery(r)
				op.Src.File = r.Chance(20)
				ops = append(ops, op)
			}
			sc.Clients = [][]Op{ops}
		},
		run:        runC08,
		allocLimit: loadAlloc,
	}
}

func loadAlloc(c *ctx) int64 {
	n := 0
	for _, m := range c.models {
		n += len(m.bytes)
	}
	return 64<<20 + 256*int64(n)
}

func cutBytes(b []byte, n int) []byte {
	if n > 0 {
		b = b[:(n-1)%(len(b)+1)]
	}
	return b
}

func runC08(c *ctx) {
	m := c.models[0]
	base := map[string]any{}
	for _, ops := range c.sc.Clients {
		for i, op := range ops {
			data := m.bytes
			matrix := op.K != "load"
			if matrix {
				data = matBytes(op)
			}
			data = cutBytes(damage(data, op.Mut), op.N)
			key := string(data)
			if matrix {
				lim := 0
				if len(op.Limit) > 0 {
					lim = op.Limit[0]
				}
				run := func(s *Src) string {
					if s.File {
						c.place("/mat", data, s)
						g, err := loadMatFile(op.K, "/mat", lim, op.Skip, op.delim(), defValue)
						return matPrint(g, err)
					}
					g, err := loadMat(op.K, newSource(data, s).buffered(), lim, op.Skip, op.delim(), defValue)
					return matPrint(g, err)
				}
				if base[key] == nil {
					base[key] = run(&Src{})
				}
				rt.Quiet(false)
				got := run(op.Src)
				rt.Quiet(true)
				if got != base[key] {
					fail("delivery", "%s of %d bytes: %s through delivery %+v, %s from a plain reader", op.K, len(data), got, *op.Src, base[key])
				}
				c.hit()
				continue
			}
			run := func(s *Src) loaded {
				if s.File && hasFileLoader(m.Kind) {
					c.place("/model", data, s)
					e, err := loadFile(m.Kind, m.Trans, "/model")
					return observe(e, err, m, 6)
				}
				e, err := loadReader(m.Kind, m.Trans, newSource(data, s))
				return observe(e, err, m, 6)
			}
			if base[key] == nil {
				base[key] = run(&Src{})
			}
			b := base[key].(loaded)
			rt.Quiet(false)
			got := run(op.Src)
			rt.Quiet(true)
			if got.ok != b.ok {
				fail("delivery", "%s model of %d bytes, load %d: %v through delivery %+v, %v from a plain reader", m.Kind, len(data), i, got, *op.Src, b)
			}
			if got.ok && !b.f.eq(got.f) {
				fail("delivery", "%s model of %d bytes behaves differently when delivered by %+v: %s", m.Kind, len(data), *op.Src, b.f.diff(got.f))
			}
			c.hit()
		}
	}
}

// ---- C09: failing reads ----

func init() {
	props["C09"] = &prop{
		big: 4, byDigest: true, quick: 27000, thorough: 720000,
		rule: "a run loads one or two intact models through sources that fail at seeded offsets (sticky, transient, followed by EOF, with and without data), then loads them intact; non-trivial if an injected error was delivered to the loader; distinct by model, offset and delivery",
		gen: func(r *rt.Rand, sc *Scenario) {
			genModels(r, sc, 1+r.Intn(2), kinds)
			var ops []Op
			for i := 0; i < 2+r.Intn(5); i++ {
				op := Op{K: "load", M: r.Intn(len(sc.Models)), Src: genDelivery(r)}
				if r.Chance(50) {
					op.Src.Chunk, op.Src.Empty = 0, 0
				}
				addReadError(r, op.Src, 30000)
				op.T = r.Intn(4) // how the offset is placed
				op.Src.File = r.Chance(20)
				ops = append(ops, op)
			}
			sc.Clients = [][]Op{ops}
		},
		run: runC09,
	}
}

// placeErr maps the offset of the plan into the file.
func placeErr(op Op, data []byte) Src {
	s := *op.Src
	if s.ErrAt == 0 {
		return s
	}
	n := len(data)
	k := s.ErrAt - 1
	switch op.T {
	case 0:
		s.ErrAt = 1 + k%(n+1)
	case 1: // near the end
		s.ErrAt = 1 + n - k%(min(n, 40)+1)
	case 2: // at a line boundary, or a multiple of 4
		nl := bytes.Count(data, []byte("\n"))
		if nl > 3 && n/nl < 400 {
			ts := linesOf(data)
			s.ErrAt = 1 + ts[k%len(ts)].b - (k/7)%2
		} else {
			s.ErrAt = 1 + (k%(n+1))&^3
		}
	default: // near the beginning
		s.ErrAt = 1 + k%(min(n, 300)+1)
	}
	return s
}

func runC09(c *ctx) {
	base := make([]loaded, len(c.models))
	for i, m := range c.models {
		base[i] = observe(clean(m), nil, m, 6)
	}
	for _, ops := range c.sc.Clients {
		for _, op := range ops {
			m := c.model(op)
			b := base[clamp(op.M, 0, len(base)-1)]
			s := placeErr(op, m.bytes)
			rt.Quiet(false)
			var e *leaves.Ensemble
			var err error
			fired := false
			if s.File && hasFileLoader(m.Kind) {
				c.place("/model", m.bytes, &s)
				e, err = loadFile(m.Kind, m.Trans, "/model")
				fired = c.disk.Counts.ReadErr > 0
			} else {
				src := newSource(m.bytes, &s)
				e, err = loadReader(m.Kind, m.Trans, src)
				fired = src.surfaced
			}
			rt.Quiet(true)
			if fired {
				c.hit()
			}
			got := observe(e, err, m, 6)
			if got.ok && !b.f.eq(got.f) {
				fail("swallowed", "%s model of %d bytes, read error %v after byte %d: loads as a different model: %s", m.Kind, len(m.bytes), errOf(readErrors, s.Err), s.ErrAt-1, b.f.diff(got.f))
			}
			if !fired && !got.ok {
				fail("refused", "%s model: refused (%s) although no read failed", m.Kind, got.text)
			}
		}
	}
	for i, m := range c.models {
		got := observe(clean(m), nil, m, 6)
		if !base[i].f.eq(got.f) {
			fail("later-load", "%s model loaded after failing loads behaves differently: %s", m.Kind, base[i].f.diff(got.f))
		}
	}
}

// ---- C10: truncation ----

func init() {
	props["C10"] = &prop{
		big: 4, byDigest: true, quick: 10500, thorough: 280000,
		rule: "a run cuts one model file at up to 60 places and loads each prefix through a seeded delivery; evaluations are runs, cut points are counted separately; non-trivial if at least one prefix was refused; distinct by model and cut points",
		gen: func(r *rt.Rand, sc *Scenario) {
			s := genSpec(r, kinds)
			if r.Chance(70) {
				s.Iters = 1 + r.Intn(3)
				s.Leaves = 1 + r.Intn(6)
			}
			sc.Models = []Spec{s}
			var ops []Op
			for i := 0; i < 20+r.Intn(41); i++ {
				op := Op{K: "cut", A: int(r.U64() >> 40), T: r.Intn(4)}
				if r.Chance(30) {
					op.Src = genDelivery(r)
					op.Src.Delay = 0
				}
				ops = append(ops, op)
			}
			sc.Clients = [][]Op{ops}
		},
		run:        runC10,
		allocLimit: loadAlloc,
	}
}

func runC10(c *ctx) {
	m := c.models[0]
	base := observe(clean(m), nil, m, 8)
	n := len(m.bytes)
	for _, ops := range c.sc.Clients {
		for _, op := range ops {
			var cut int
			switch op.T {
			case 0:
				cut = op.A % n
			case 1:
				cut = n - 1 - op.A%min(n, 60)
			case 2:
				ts := linesOf(m.bytes)
				if len(ts) > 3 {
					cut = ts[op.A%len(ts)].b - (op.A/1000)%3
				} else {
					cut = (op.A % n) &^ 3
				}
			default:
				cut = op.A % min(n, 400)
			}
			cut = clamp(cut, 0, n-1)
			s := Src{}
			if op.Src != nil {
				s = *op.Src
			}
			s.Cut, s.ErrAt = cut+1, 0
			count(cCuts)
			rt.Quiet(false)
			e, err := loadReader(m.Kind, m.Trans, newSource(m.bytes, &s))
			rt.Quiet(true)
			got := observe(e, err, m, 8)
			if !got.ok {
				count(cCutRefused)
				c.hit()
				continue
			}
			if !base.f.eq(got.f) {
				fail("truncated", "%s model of %d bytes cut after %d bytes loads as a different model: %s", m.Kind, n, cut, base.f.diff(got.f))
			}
			count(cCutSame)
		}
	}
}

// ---- C11: damage ----

func init() {
	props["C11"] = &prop{
		big: 3, byDigest: true, quick: 60000, thorough: 1600000,
		rule: "a run damages one stored model or matrix file in 8 to 30 ways and loads each version; an ensemble that loads is inspected and evaluated on seeded vectors; non-trivial if at least one damaged file still loaded; distinct by file and damage",
		gen: func(r *rt.Rand, sc *Scenario) {
			s := genSpec(r, kinds)
			if r.Chance(80) {
				s.Iters = 1 + r.Intn(3)
				s.Leaves = 1 + r.Intn(6)
			}
			sc.Models = []Spec{s}
			var ops []Op
			matrix := r.Chance(12)
			proto := Op{K: "load"}
			if matrix {
				proto = genMat(r)
				proto.Limit = []int{genMatLimit(r, proto.Rows)}
			}
			for i := 0; i < 8+r.Intn(23); i++ {
				op := proto
				op.Mut = genDamage(r)
				op.N = r.Intn(2)
				if r.Chance(10) {
					op.Src = genDelivery(r)
				}
				ops = append(ops, op)
			}
			sc.Clients = [][]Op{ops}
		},
		run:        runC11,
		allocLimit: func(c *ctx) int64 { return 8<<20 + 64*int64(len(c.models[0].bytes)) },
	}
}

func runC11(c *ctx) {
	m := c.models[0]
	base := observe(clean(m), nil, m, 3)
	for _, ops := range c.sc.Clients {
		for _, op := range ops {
			s := Src{}
			if op.Src != nil {
				s = *op.Src
				s.ErrAt = 0
			}
			if op.K != "load" {
				data := damage(matBytes(op), op.Mut)
				lim := 0
				if len(op.Limit) > 0 {
					lim = op.Limit[0]
				}
				g, err := loadMat(op.K, newSource(data, &s).buffered(), lim, op.Skip, op.delim(), defValue)
				consistent("damaged "+op.K, g, err)
				if err == nil {
					count(cDamUsable)
					c.hit()
				} else {
					count(cDamRefused)
				}
				continue
			}
			data := damage(m.bytes, op.Mut)
			before := rt.AllocBytes
			e, err := loadReader(m.Kind, m.Trans && op.N == 0, newSource(data, &s))
			if n := rt.AllocBytes - before; n > 64<<20+2048*int64(len(data)) {
				fail("alloc", "loading a damaged %s model of %d bytes demanded %d bytes of memory", m.Kind, len(data), n)
			}
			if err != nil {
				if e != nil {
					fail("model-with-error", "damaged %s: an ensemble is returned together with error %v", m.Kind, err)
				}
				count(cDamRefused)
				continue
			}
			if e == nil {
				fail("load-nil", "damaged %s: neither an ensemble nor an error", m.Kind)
			}
			count(cDamUsable)
			c.hit()
			useDamaged(m, e, op.Mut)
		}
	}
	got := observe(clean(m), nil, m, 3)
	if !base.f.eq(got.f) {
		fail("later-load", "%s model loaded after damaged ones behaves differently: %s", m.Kind, base.f.diff(got.f))
	}
}

// useDamaged inspects and evaluates an ensemble loaded from damaged bytes.
func useDamaged(m *Model, e *leaves.Ensemble, ms []Mut) {
	inspect(e)
	raw := e.EnsembleWithRawPredictions()
	nf := raw.NFeatures()
	if nf < 0 {
		fail("metadata", "damaged %s model loads with %d features", m.Kind, nf)
	}
	if nf > hugeModel || raw.NOutputGroups() > hugeModel {
		return
	}
	if raw.NOutputGroups() < 0 {
		fail("metadata", "damaged %s model loads with %d output groups", m.Kind, raw.NOutputGroups())
	}
	r := rt.NewRand(11)
	out := make([]float64, raw.NOutputGroups())
	for i := 0; i < 12; i++ {
		row := make([]float64, nf)
		for j := range row {
			switch {
			case i == 0:
				row[j] = math.NaN()
			case i == 1:
				row[j] = 0
			case i == 2:
				row[j] = math.Inf(1)
			case i == 3:
				row[j] = math.Inf(-1)
			case i == 4:
				row[j] = -1 - float64(j)
			case i == 5:
				row[j] = 1e18
			case i < 9 && j < m.Feat:
				row[j] = m.value(&r, j, rowWild, true)
			default:
				row[j] = pick(&r, norm(&r)*10, float64(r.Intn(300)), -5, math.NaN(), 31, 32, 63, 64, 4e9, 2147483648)
			}
		}
		n := 0
		if i%3 == 2 {
			n = r.Intn(5)
		}
		if err := raw.Predict(row, n, out); err != nil {
			fail("unusable", "damaged %s model loads but its raw view refuses to predict: %v", m.Kind, err)
		}
	}
	// a batch through the parallel path
	if nf > 0 && nf < 1000 {
		rows := 20
		vals := make([]float64, rows*nf)
		for i := range vals {
			vals[i] = pick(&r, norm(&r), 0, math.NaN(), 5)
		}
		bo := make([]float64, rows*raw.NOutputGroups())
		if err := raw.PredictDense(vals, rows, nf, bo, 0, 2); err != nil {
			fail("unusable", "damaged %s model loads but its raw view refuses a batch: %v", m.Kind, err)
		}
	}
}

// ---- C12: file loaders ----

func init() {
	props["C12"] = &prop{
		big: 4, byDigest: true, quick: 30000, thorough: 800000,
		rule: "a run makes one to three concurrent clients load model and matrix files from a simulated disk with open failures, read errors, short reads and delays, on intact, damaged or missing files; non-trivial if a disk fault fired or several clients were active; distinct by files, faults and schedule",
		gen: func(r *rt.Rand, sc *Scenario) {
			genModels(r, sc, 1+r.Intn(2), []string{"lgtext", "xgtree", "xgdart", "xglinear", "sk"})
			swap := r.Chance(30)
			if swap {
				// a newer version of the first model, of the same or another shape
				t := sc.Models[0]
				if r.Chance(50) {
					t.Alt = 1 + r.Intn(3)
				} else {
					t = genSpec(r, []string{t.Kind})
					t.Trans = sc.Models[0].Trans
				}
				sc.Models = []Spec{sc.Models[0], t}
			}
			for i := 0; i < 1+r.Intn(3); i++ {
				var ops []Op
				for j := 0; j < 1+r.Intn(3); j++ {
					var op Op
					if r.Chance(40) {
						op = genMat(r)
						op.Limit = []int{genMatLimit(r, op.Rows)}
					} else {
						op = Op{K: "load", M: r.Intn(len(sc.Models))}
					}
					op.Src = &Src{Seed: r.U64() >> 20, Chunk: pick(r, 0, 0, 1, 7, 100, 1000)}
					if r.Chance(30) {
						op.Src.Delay = 1000000
					}
					switch r.Intn(6) {
					case 0:
						op.Src.OpenErr = 1 + r.Intn(len(openErrors))
					case 1, 2:
						addReadError(r, op.Src, 30000)
						op.Src.After, op.Src.ErrData = 0, false
						op.T = r.Intn(4)
					case 3:
						op.Mut = genDamage(r)
					}
					if r.Chance(6) {
						op.Flag |= fMissing
					} else if r.Chance(5) {
						op.Flag |= fDirectory
					} else if op.K == "load" && swap && op.M < 2 && r.Chance(70) {
						op.Flag |= fSwap
						op.Mut = nil
						op.Src.ErrAt, op.Src.OpenErr = 0, 0
						op.A = r.Intn(pick(r, 10, 100, 1000, 10000, 100000))
					}
					ops = append(ops, op)
				}
				sc.Clients = append(sc.Clients, ops)
			}
		},
		run:        runC12,
		allocLimit: loadAlloc,
	}
}

const (
	fMissing   = 1 << 10
	fDirectory = 1 << 11
	fSwap      = 1 << 12 // another version is moved to the file's place meanwhile
)

func runC12(c *ctx) {
	type job struct {
		op    Op
		m     *Model
		name  string
		s     Src
		want  loaded
		wantM string
		mustE bool
		other *Model // takes the file's place while it is being loaded
		want2 loaded
	}
	all := make([][]*job, len(c.sc.Clients))
	for i, ops := range c.sc.Clients {
		for k, op := range ops {
			if op.Src == nil {
				op.Src = &Src{}
			}
			j := &job{op: op, m: c.model(op), name: op.file("/data", fmt.Sprintf("f%d_%d", i, k), "")}
			data := j.m.bytes
			if op.K != "load" {
				data = matBytes(op)
			}
			data = damage(data, op.Mut)
			j.s = placeErr(op, data)
			lim := 0
			if len(op.Limit) > 0 {
				lim = op.Limit[0]
			}
			// the same bytes and failures through the reader-based loader
			rs := j.s
			rs.File, rs.After, rs.ErrData, rs.Delay = false, 0, false, 0
			j.mustE = op.Src.OpenErr > 0 || op.Flag&(fMissing|fDirectory) != 0
			if op.K == "load" {
				e, err := loadReader(j.m.Kind, j.m.Trans, newSource(data, &rs))
				j.want = observe(e, err, j.m, 5)
				if op.Flag&fSwap != 0 && len(c.models) == 2 && c.models[0].Kind == c.models[1].Kind {
					j.other = c.models[1-clamp(op.M, 0, 1)]
					e, err := loadReader(j.m.Kind, j.m.Trans, newSource(j.other.bytes, &rs))
					j.want2 = observe(e, err, j.m, 5)
				}
			} else {
				g, err := loadMat(op.K, newSource(data, &rs).buffered(), lim, op.Skip, op.delim(), defValue)
				j.wantM = matPrint(g, err)
			}
			switch {
			case op.Flag&fMissing != 0:
			case op.Flag&fDirectory != 0:
				c.disk.Mkdir(j.name)
			default:
				e := c.disk.Put(j.name, append([]byte{}, data...))
				e.F = faultsOf(&j.s)
			}
			all[i] = append(all[i], j)
		}
	}
	c.disk.Log = nil
	if len(c.sc.Clients) > 1 {
		c.hit()
	}
	c.parallel(func(i int) {
		for k, j := range all[i] {
			tag := 1000*(i+1) + k
			rt.SetTag(tag)
			lim := 0
			if len(j.op.Limit) > 0 {
				lim = j.op.Limit[0]
			}
			if j.op.K == "load" {
				if j.other != nil {
					j := j
					rt.Go(func() {
						for k := clamp(j.op.A, 0, 1000000); k > 0; k-- {
							rt.Point()
						}
						c.disk.Put(j.name, append([]byte{}, j.other.bytes...))
						count(cSwapped)
					})
				}
				e, err := loadFile(j.m.Kind, j.m.Trans, j.name)
				c.checkFiles(j.name, tag)
				got := observe(e, err, j.m, 5)
				switch {
				case j.other != nil && got.ok == j.want2.ok && (!got.ok || j.want2.f.eq(got.f)):
					if !j.want.f.eq(got.f) {
						count(cSwapNew)
					}
				case j.mustE && got.ok:
					fail("no-error", "%s loader on %s reports success although the file cannot be opened", j.m.Kind, j.name)
				case j.mustE:
				case !got.ok && c.diskFailed(tag):
					// it may have read more of the file than it needed
				case got.ok != j.want.ok:
					fail("file-vs-reader", "%s model from a file: %v; the same bytes and failures from a reader: %v (plan %+v)", j.m.Kind, got, j.want, j.s)
				case got.ok && !j.want.f.eq(got.f):
					fail("file-vs-reader", "%s model from a file behaves differently: %s", j.m.Kind, j.want.f.diff(got.f))
				}
			} else {
				g, err := loadMatFile(j.op.K, j.name, lim, j.op.Skip, j.op.delim(), defValue)
				c.checkFiles(j.name, tag)
				consistent(j.op.K+" from file", g, err)
				got := matPrint(g, err)
				if j.mustE && err == nil {
					fail("no-error", "%s loader on %s reports success although the file cannot be opened", j.op.K, j.name)
				}
				if err != nil && c.diskFailed(tag) {
					continue
				}
				if !j.mustE && got != j.wantM {
					fail("file-vs-reader", "%s from a file: %s; the same bytes and failures from a reader: %s (plan %+v)", j.op.K, got, j.wantM, j.s)
				}
			}
		}
	})
	d := c.disk.Counts
	if d.OpenErr+d.ReadErr+d.ShortRead > 0 {
		c.hit()
	}
	rt.Sleep(1e12)
	if n := c.disk.OpenHandles(-1); n > 0 {
		fail("file-leak", "%d files still open after all loads", n)
	}
}

// diskFailed: some read of the call with this tag was answered by an error.
func (c *ctx) diskFailed(tag int) bool {
	for i := range c.disk.Log {
		if o := &c.disk.Log[i]; o.Tag == tag && o.Op == "read" && o.Err != nil {
			return true
		}
	}
	return false
}

// checkFiles: everything the call with this tag opened was the named file, for
// reading only, and is closed.
func (c *ctx) checkFiles(name string, tag int) {
	if n := c.disk.OpenHandles(tag); n > 0 {
		fail("file-leak", "loading %s: %d files still open when the loader returned", name, n)
	}
	opened, ok := false, false
	for i := range c.disk.Log {
		o := &c.disk.Log[i]
		if o.Tag != tag {
			continue
		}
		switch o.Op {
		case "open":
			opened = true
			if o.Err == nil {
				ok = true
			}
			if o.Path != simfs.Abs(name) {
				fail("wrong-file", "loading %s opened %s", name, o.Path)
			}
			if o.Flag&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC|syscall.O_APPEND) != 0 {
				fail("opened-for-writing", "loading %s opened it with flags %#x", name, o.Flag)
			}
		case "write", "remove", "rename":
			fail("disk-modified", "loading %s: %s of %s", name, o.Op, o.Path)
		}
	}
	_, _ = opened, ok
}

// ---- C13: matrix loaders under faults ----

func init() {
	props["C13"] = &prop{
		byDigest: true, quick: 54000, thorough: 1440000,
		rule: "a run reads one to six generated matrix files, each through a delivery with a cut or a read error at a seeded offset, and compares with a reference parser of the delivered bytes; non-trivial if a cut or error fell inside the file; distinct by file, limit and fault",
		gen: func(r *rt.Rand, sc *Scenario) {
			var ops []Op
			for i := 0; i < 1+r.Intn(6); i++ {
				op := genMat(r)
				op.Limit = []int{genMatLimit(r, op.Rows)}
				op.Src = genDelivery(r)
				switch r.Intn(5) {
				case 0:
				case 1, 2:
					op.Src.Cut = 1 + r.Intn(5000000)
					op.T = r.Intn(3)
				default:
					addReadError(r, op.Src, 5000000)
					op.T = r.Intn(3)
				}
				op.Src.File = r.Chance(20)
				if op.Src.File {
					op.Src.ErrData = false
				}
				ops = append(ops, op)
			}
			sc.Clients = [][]Op{ops}
		},
		run: runC13,
	}
}

func runC13(c *ctx) {
	rt.Quiet(false)
	for _, ops := range c.sc.Clients {
		for _, op := range ops {
			data := matBytes(op)
			s := Src{}
			if op.Src != nil {
				s = *op.Src
			}
			n := len(data)
			place := func(k int) int {
				switch op.T {
				case 0:
					return k % (n + 1)
				case 1:
					ts := linesOf(data)
					return clamp(ts[k%len(ts)].b-(k/100)%3, 0, n)
				default:
					return n - k%(min(n, 12)+1)
				}
			}
			failing := false
			given := data
			if s.Cut > 0 {
				s.Cut = 1 + place(s.Cut-1)
				given = data[:s.Cut-1]
				c.hit()
			}
			if s.ErrAt > 0 {
				s.ErrAt = 1 + place(s.ErrAt-1)
				if s.ErrAt-1 <= len(given) {
					given = given[:s.ErrAt-1]
					failing = true
					c.hit()
				}
			}
			lim := 0
			if len(op.Limit) > 0 {
				lim = op.Limit[0]
			}
			w := reference(op.K, given, failing, lim, op.Skip, op.delim())
			what := fmt.Sprintf("%s of %d bytes (limit %d, skip %v, delimiter %q, cut %d, read error %d)", op.K, n, lim, op.Skip, op.delim(), s.Cut-1, s.ErrAt-1)
			if s.File {
				c.place("/m", data, &s)
				g, err := loadMatFile(op.K, "/m", lim, op.Skip, op.delim(), defValue)
				if failing && err != nil {
					// it may have read more of the file than it needed
					consistent(what, g, err)
					continue
				}
				compareMat(what, op.K, g, err, w)
			} else {
				src := newSource(data, &s)
				g, err := loadMat(op.K, src.buffered(), lim, op.Skip, op.delim(), defValue)
				compareMat(what, op.K, g, err, w)
			}
		}
	}
}

// ---- C14: limited pieces ----

func init() {
	props["C14"] = &prop{
		byDigest: true, quick: 75000, thorough: 2000000,
		rule: "a run reads one or two streams piece by piece with seeded limits (loader kinds mixed on one libsvm stream), with irregular deliveries, cuts and a read error after some piece, then drains the rest; non-trivial if at least two pieces were read; distinct by stream, limits and delivery",
		gen: func(r *rt.Rand, sc *Scenario) {
			for i := 0; i < 1+r.Intn(2); i++ {
				op := genMat(r)
				if op.Rows < 4 {
					op.Rows += 4
				}
				left := op.Rows
				for left > 0 {
					l := 1 + r.Intn(min(left, max(6, left/3)))
					if r.Chance(10) {
						l = left + r.Intn(3)
					}
					if r.Chance(3) {
						l = pick(r, 1<<32+1, 1<<31, math.MaxInt64)
					}
					if r.Chance(5) {
						l = 0
					}
					op.Limit = append(op.Limit, l)
					if l == 0 {
						break
					}
					left -= l
					if r.Chance(8) {
						break
					}
				}
				op.Src = genDelivery(r)
				if r.Chance(35) {
					addReadError(r, op.Src, 5000000)
					op.Src.After = 0
				}
				op.N = r.Intn(3) // mix loader kinds
				sc.Clients = append(sc.Clients, []Op{op})
			}
		},
		run: runC14,
	}
}

func runC14(c *ctx) {
	c.parallel(func(i int) {
		for _, op := range c.sc.Clients[i] {
			c.pieces(op)
		}
	})
}

func (c *ctx) pieces(op Op) {
	data := matBytes(op)
	s := Src{}
	if op.Src != nil {
		s = *op.Src
	}
	s.File = false
	failing := false
	given := data
	if s.ErrAt > 0 {
		s.ErrAt = 1 + (s.ErrAt-1)%(len(data)+1)
		given = data[:s.ErrAt-1]
		failing = true
	}
	b := newSource(data, &s).buffered()
	r := rt.NewRand(op.Seed ^ 5)
	at := 0
	rows := 0
	for k, l := range op.Limit {
		kind := op.K
		if op.N > 0 && kind != "csv" && r.Chance(50) {
			kind = pick(&r, "svmdense", "svmcsr")
		}
		w := reference(kind, given[at:], failing, l, op.Skip, op.delim())
		what := fmt.Sprintf("piece %d (%s, limit %d) of a stream of %d bytes after %d bytes and %d rows", k, kind, l, len(data), at, rows)
		g, err := loadMat(kind, b, l, op.Skip, op.delim(), defValue)
		compareMat(what, kind, g, err, w)
		if err != nil {
			return
		}
		at += w.offset
		rows += w.rows
		if k > 0 {
			c.hit()
		}
	}
	rest, err := io.ReadAll(b)
	if (err != nil) != failing {
		if failing {
			fail("lost-error", "after all pieces the stream's failure has disappeared")
		}
		fail("stream", "draining the rest: %v", err)
	}
	if !bytes.Equal(rest, given[at:]) {
		fail("consumption", "after %d pieces (%d rows) the reader is left with %d bytes, %d are unread by rights", len(op.Limit), rows, len(rest), len(given)-at)
	}
}

// ---- C15: matrix writes ----

func init() {
	props["C15"] = &prop{
		byDigest: true, quick: 36000, thorough: 960000,
		rule: "a run writes one to five matrices to writers and simulated files that fail at create, after a seeded number of bytes, at sync or at close, then reads the file back; non-trivial if an injected fault fired or the output exceeded one buffer; distinct by matrix and fault",
		gen: func(r *rt.Rand, sc *Scenario) {
			for i := 0; i < 1+r.Intn(2); i++ {
				var ops []Op
				for j := 0; j < 1+r.Intn(3); j++ {
					op := Op{K: "write", Seed: r.U64() >> 20, Rows: r.Intn(12), Extra: r.Intn(8), Delim: pick(r, ",", ";", "\t", "||", " ", "|")}
					if r.Chance(40) {
						op.Rows, op.Extra = 1+r.Intn(60), 1+r.Intn(30)
					}
					if r.Chance(5) {
						op.Rows, op.Extra = 100+r.Intn(200), 10+r.Intn(40)
					}
					switch r.Intn(600) {
					case 0:
						op.Rows, op.Extra = pick(r, 1100, 33000, 66000), 1+r.Intn(2)
					case 1:
						op.Rows, op.Extra = 1+r.Intn(3), pick(r, 1500, 8000, 20000)
					}
					if r.Chance(10) {
						op.Rows = 1
					}
					op.Flag = pick(r, 0, 0, mSpecial)
					w := &Wr{File: r.Chance(70), Err: r.Intn(len(writeErrors)), Once: r.Chance(30)}
					switch r.Intn(7) {
					case 0, 1, 2:
						w.Cap = 1 + r.Intn(1<<17)
					case 3:
						w.Open = 1 + r.Intn(len(openErrors))
					case 4:
						w.Close = 1 + r.Intn(len(writeErrors))
					case 5:
						w.Ren = r.Intn(len(writeErrors))
					}
					if r.Chance(40) {
						w.Old = 1 + r.Intn(5000)
					}
					if r.Chance(20) {
						w.Delay = 1000000
					}
					op.T = r.Intn(4)
					op.Wr = w
					ops = append(ops, op)
				}
				sc.Clients = append(sc.Clients, ops)
			}
		},
		run: runC15,
	}
}

// failingWriter accepts cap bytes.
type failingWriter struct {
	data  []byte
	cap   int
	err   error
	once  bool
	calls int
	fails int
}

func (w *failingWriter) Write(p []byte) (int, error) {
	rt.Point()
	w.calls++
	if w.cap >= 0 && len(w.data)+len(p) > w.cap && !(w.once && w.fails > 0) {
		n := max(0, w.cap-len(w.data))
		w.data = append(w.data, p[:n]...)
		w.fails++
		count(cWriterErr)
		return n, w.err
	}
	w.data = append(w.data, p...)
	return len(p), nil
}

func genMatrix(op Op) *mat.DenseMat {
	r := rt.NewRand(op.Seed ^ 0xA1)
	rows, cols := clamp(op.Rows, 0, 70000), clamp(op.Extra, 0, 20000)
	m := &mat.DenseMat{Rows: rows, Cols: cols}
	for i := 0; i < rows*cols; i++ {
		x := norm(&r) * 3
		switch r.Intn(8) {
		case 0:
			x = float64(r.Intn(20))
		case 1:
			x = math.Float64frombits(r.U64())
			if math.IsNaN(x) || math.IsInf(x, 0) {
				x = 0
			}
		case 2:
			x = 0.1 + float64(r.Intn(10))
		case 3:
			if op.Flag&mSpecial != 0 {
				x = pick(&r, math.Copysign(0, -1), math.MaxFloat64, math.SmallestNonzeroFloat64, -math.MaxFloat64, 1e-310, math.Inf(1), math.NaN(), 1<<53+2, 123456789012345678)
			}
		}
		m.Values = append(m.Values, x)
	}
	return m
}

// writeFaults makes the faults of a file that is written; cap is the number of
// bytes the disk accepts, or -1.
func writeFaults(w *Wr, cap int) *simfs.Faults {
	f := simfs.NoFaults()
	f.WriteErr = errOf(writeErrors, w.Err)
	f.WriteCap = int64(cap)
	f.Delay = w.Delay
	if w.Open > 0 {
		f.OpenErr = errOf(openErrors, w.Open)
	}
	if w.Close > 0 {
		f.CloseErr = errOf(writeErrors, w.Close)
	}
	if w.Ren > 0 {
		f.RenameErr = errOf(writeErrors, w.Ren)
	}
	f.SyncErr = f.CloseErr
	return f
}

// wfault: some operation of the call with this tag was answered by an injected
// error.
func (c *ctx) wfault(tag int) bool {
	for i := range c.disk.Log {
		if o := &c.disk.Log[i]; o.Tag == tag && o.Fault {
			return true
		}
	}
	return false
}

func runC15(c *ctx) {
	type job struct {
		op   Op
		m    *mat.DenseMat
		full []byte
		cap  int
		name string
	}
	all := make([][]*job, len(c.sc.Clients))
	for i, ops := range c.sc.Clients {
		for k, op := range ops {
			if op.Wr == nil {
				op.Wr = &Wr{}
			}
			j := &job{op: op, m: genMatrix(op), cap: -1, name: op.file("/out", fmt.Sprintf("%d_%d", i, k), ".csv")}
			// what a successful write contains
			w := &failingWriter{cap: -1}
			if err := j.m.WriteStr(w, op.delim()); err != nil {
				fail("refused", "WriteStr of a consistent %dx%d matrix to a healthy writer fails: %v", j.m.Rows, j.m.Cols, err)
			}
			j.full = w.data
			if op.Wr.Cap > 0 {
				k := op.Wr.Cap - 1
				switch n := len(j.full); op.T {
				case 0, 1:
					j.cap = k % (n + 1)
				case 2:
					j.cap = n - k%(min(n, 10)+1)
				default:
					j.cap = k % (min(n, 8) + 1)
				}
			}
			all[i] = append(all[i], j)
		}
	}
	dir := c.disk.Put("/out", nil)
	dir.Node.Dir = true
	// the faults belong to whatever file the call writes to
	plans := map[int]*simfs.Faults{}
	for i, js := range all {
		for k, j := range js {
			if !j.op.Wr.File {
				continue
			}
			plans[1000*(i+1)+k] = writeFaults(j.op.Wr, j.cap)
			if j.op.Wr.Old > 0 {
				c.disk.Put(j.name, bytes.Repeat([]byte("9,9\n"), (j.op.Wr.Old+3)/4))
			}
		}
	}
	c.disk.WFault = func(tag int) *simfs.Faults { return plans[tag] }
	c.parallel(func(i int) {
		for k, j := range all[i] {
			tag := 1000*(i+1) + k
			rt.SetTag(tag)
			count(cWrites)
			if len(j.full) > 4096 {
				c.hit()
			}
			golden := append([]float64{}, j.m.Values...)
			if !j.op.Wr.File {
				w := &failingWriter{cap: j.cap, err: errOf(writeErrors, j.op.Wr.Err), once: j.op.Wr.Once}
				err := j.m.WriteStr(w, j.op.delim())
				switch {
				case w.fails > 0 && err == nil:
					fail("write-lost", "WriteStr reports success although the writer failed after %d of %d bytes", j.cap, len(j.full))
				case err == nil && !bytes.Equal(w.data, j.full):
					fail("write-lost", "WriteStr reports success but the writer got %d bytes instead of %d, or different ones", len(w.data), len(j.full))
				case err != nil && w.fails == 0:
					fail("refused", "WriteStr reports %v although the writer accepted everything", err)
				}
				if err != nil {
					count(cWriteFails)
					c.hit()
				}
			} else {
				err := j.m.ToCsvFile(j.name, j.op.delim())
				if n := c.disk.OpenHandles(tag); n > 0 {
					fail("file-leak", "ToCsvFile left %d files open", n)
				}
				failed := c.wfault(tag)
				got, _ := c.disk.Get(j.name)
				switch {
				case failed && err == nil && !bytes.Equal(got, j.full):
					fail("write-lost", "ToCsvFile reports success although the disk failed (%d bytes accepted of %d, open %d, close %d)", j.cap, len(j.full), j.op.Wr.Open, j.op.Wr.Close)
				case !failed && err != nil:
					fail("refused", "ToCsvFile reports %v on a healthy disk", err)
				case err == nil && !bytes.Equal(got, j.full):
					fail("write-lost", "ToCsvFile reports success but the file has %d bytes instead of %d, or different ones", len(got), len(j.full))
				}
				if err != nil {
					count(cWriteFails)
					c.hit()
				} else if len(j.m.Values) > 0 {
					b, err := mat.DenseMatFromCsvFile(j.name, 0, false, j.op.delim(), defValue)
					if err != nil {
						fail("round-trip", "reading back a written %dx%d matrix: %v", j.m.Rows, j.m.Cols, err)
					}
					if b.Rows != j.m.Rows || b.Cols != j.m.Cols || len(b.Values) != len(j.m.Values) {
						fail("round-trip", "a %dx%d matrix comes back as %dx%d", j.m.Rows, j.m.Cols, b.Rows, b.Cols)
					}
					for q, v := range b.Values {
						if !same(v, j.m.Values[q]) {
							fail("round-trip", "value %d: %v comes back as %v", q, j.m.Values[q], v)
						}
					}
				}
			}
			for q := range golden {
				if math.Float64bits(golden[q]) != math.Float64bits(j.m.Values[q]) {
					fail("input-modified", "writing the matrix changed its value %d", q)
				}
			}
		}
	})
	if n := c.disk.OpenHandles(-1); n > 0 {
		fail("file-leak", "%d files still open", n)
	}
}

// ---- C16: concurrent loads ----

func init() {
	props["C16"] = &prop{
		quick: 4800, thorough: 128000, race: true,
		rule: "a run has two to five clients that load models and matrices from intact, slow, stalled, cut, damaged or failing sources while others predict; every outcome is compared with the same step alone, every memory access is under happens-before analysis; non-trivial if two clients overlapped and at least one loaded; distinct by the sequence of goroutines scheduled",
		gen: func(r *rt.Rand, sc *Scenario) {
			genModels(r, sc, 1+r.Intn(3), kinds)
			for i := range sc.Models {
				if r.Chance(60) {
					sc.Models[i].Iters = 1 + r.Intn(3)
				}
			}
			nc := 2 + r.Intn(4)
			shared := -1
			if r.Chance(30) {
				shared = r.Intn(len(sc.Models))
			}
			stall := -1
			if r.Chance(35) {
				stall = r.Intn(nc)
			}
			if r.Chance(5) {
				manyStalls(r, sc)
				return
			}
			for i := 0; i < nc; i++ {
				var ops []Op
				for j := 0; j < 1+r.Intn(3); j++ {
					var op Op
					switch {
					case r.Chance(30) && i != stall:
						op = genPredict(r, sc.Models, false)
						if op.Rows > 60 {
							op.Rows = 17 + r.Intn(40)
						}
					case r.Chance(25):
						op = genMat(r)
						op.Rows, op.Extra = min(op.Rows, 300), min(op.Extra, 400)
						if op.Rows > 20 {
							op.Extra = min(op.Extra, 20)
						}
						op.Limit = []int{genMatLimit(r, op.Rows)}
						op.Src = genDelivery(r)
					default:
						op = Op{K: "load", M: r.Intn(len(sc.Models)), Src: genDelivery(r)}
						if r.Chance(40) {
							op.Src.Chunk, op.Src.Empty = 0, 0
						}
						op.Src.File = r.Chance(30)
						if r.Chance(25) {
							addReadError(r, op.Src, 30000)
							op.T = r.Intn(4)
							if op.Src.File {
								op.Src.ErrData, op.Src.After = false, 0
							}
						} else if r.Chance(15) {
							op.Mut = genDamage(r)
						}
					}
					if op.Src != nil {
						op.Src.Delay = min(op.Src.Delay, 1000000)
						if op.K == "load" && shared >= 0 && r.Chance(70) {
							// several clients load this one file
							op.M, op.Mut, op.Src.Cut = shared, nil, 0
							op.Src.File, op.Src.Shared = true, true
							op.Src.ErrData, op.Src.After = false, 0
							if r.Chance(10) && stall < 0 {
								op.Src.StallAt = 1 + r.Intn(2000)
								op.Src.Stall = hugeStall
							}
						}
						if i == stall && j == 0 {
							op.Src.File, op.Src.Shared = false, false
							op.Src.StallAt = 1 + r.Intn(2000)
							op.Src.Stall = hugeStall
						}
					}
					ops = append(ops, op)
				}
				sc.Clients = append(sc.Clients, ops)
			}
		},
		run:        runC16,
		allocLimit: loadAlloc,
	}
}

const hugeStall = int64(1e16)

// manyStalls makes most of many sources stall; the loads of the others go on.
func manyStalls(r *rt.Rand, sc *Scenario) {
	for i := range sc.Models {
		s := &sc.Models[i]
		s.Feat, s.Iters, s.Leaves, s.Groups = min(s.Feat, 6), 1, min(s.Leaves, 4), min(s.Groups, 3)
	}
	nc := pick(r, 6, 10, 18, 20, 34, 40, 70)
	for i := 0; i < nc; i++ {
		op := Op{K: "load", M: r.Intn(len(sc.Models)), Src: &Src{}}
		if r.Chance(30) {
			op = genMat(r)
			op.Rows, op.Extra = min(op.Rows, 8), min(op.Extra, 8)
			op.Limit = []int{0}
			op.Src = &Src{}
		}
		op.Src.File = op.K == "load" && r.Chance(40)
		if i >= 1+nc%2 {
			op.Src.StallAt = 1
			if r.Chance(40) {
				op.Src.StallAt, op.Src.Chunk = 1+r.Intn(100), 1+r.Intn(50)
			}
			op.Src.Stall = hugeStall
		}
		sc.Clients = append(sc.Clients, []Op{op})
	}
	sc.Sched.MaxSteps *= 3
}

func runC16(c *ctx) {
	shared := make([]*leaves.Ensemble, len(c.models))
	ref := make([]*leaves.Ensemble, len(c.models))
	for i, m := range c.models {
		shared[i] = clean(m)
		ref[i] = clean(m)
	}
	type job struct {
		op   Op
		m    *Model
		data []byte
		s    Src
		name string
		p    *pair
		want loaded
		txt  string
	}
	load := func(j *job, s Src) loaded {
		if s.File && hasFileLoader(j.m.Kind) {
			e, err := loadFile(j.m.Kind, j.m.Trans, j.name)
			return observe(e, err, j.m, 4)
		}
		e, err := loadReader(j.m.Kind, j.m.Trans, newSource(j.data, &s))
		return observe(e, err, j.m, 4)
	}
	matrix := func(j *job, s Src) string {
		lim := 0
		if len(j.op.Limit) > 0 {
			lim = j.op.Limit[0]
		}
		g, err := loadMat(j.op.K, newSource(j.data, &s).buffered(), lim, j.op.Skip, j.op.delim(), defValue)
		return matPrint(g, err)
	}
	all := make([][]*job, len(c.sc.Clients))
	loads := 0
	// files loaded by several clients: what the intact file gives, and the
	// faults of the single openings, whoever makes them
	intact := map[*simfs.Entry]loaded{}
	plans := map[*simfs.Entry][]*simfs.Faults{}
	refused := make([][]string, len(c.sc.Clients))
	late := make([]bool, len(c.sc.Clients))
	for i, ops := range c.sc.Clients {
		for k, op := range ops {
			op.M = clamp(op.M, 0, len(c.models)-1)
			j := &job{op: op, m: c.model(op), name: op.file("", fmt.Sprintf("model%d_%d", i, k), "")}
			if op.Src != nil {
				j.s = *op.Src
			}
			alone := j.s
			alone.StallAt, alone.Delay = 0, 0
			switch op.K {
			case "load":
				loads++
				j.data = damage(j.m.bytes, op.Mut)
				op.Src = &j.s
				j.s = placeErr(op, j.data)
				alone = j.s
				alone.StallAt, alone.Delay = 0, 0
				if j.s.Shared && (!j.s.File || op.Mut != nil || !hasFileLoader(j.m.Kind) || j.s.Cut > 0 || j.s.OpenErr > 0) {
					j.s.Shared = false
				}
				if j.s.Shared {
					j.name = fmt.Sprintf("/shared%d", op.M)
					e := c.disk.Entry(j.name)
					if e == nil {
						e = c.place(j.name, j.data, &Src{})
						j.want = load(j, alone)
						intact[e] = j.want
					}
					j.want = intact[e]
					f := faultsOf(&j.s)
					if j.s.StallAt > 0 {
						f.StallAt, f.Stall = int64(j.s.StallAt-1), j.s.Stall
					}
					plans[e] = append(plans[e], f)
					break
				}
				if j.s.File {
					e := c.place(j.name, j.data, &j.s)
					j.want = load(j, alone)
					if j.s.StallAt > 0 {
						e.F.StallAt, e.F.Stall = int64(j.s.StallAt-1), j.s.Stall
					}
					break
				}
				j.want = load(j, alone)
			case "svmdense", "svmcsr", "csv":
				loads++
				j.data = matBytes(op)
				j.s.File = false
				j.txt = matrix(j, alone)
			default:
				p := &pair{op: op}
				v := view(ref[op.M], op.V)
				p.cl = prepare(op, j.m, v.NOutputGroups(), v.NFeatures())
				p.want = prepare(op, j.m, v.NOutputGroups(), v.NFeatures())
				p.want.invoke(v)
				j.p = p
			}
			all[i] = append(all[i], j)
		}
	}
	for e, p := range plans {
		e.Plans = p
	}
	if c.sc.Cold {
		// the first loads of a process
		c.restart()
		for i := range shared {
			shared[i] = nil
		}
		for _, js := range all {
			for _, j := range js {
				if j.p != nil && shared[j.op.M] == nil {
					shared[j.op.M] = clean(c.models[j.op.M])
				}
			}
		}
	}
	opened := len(c.disk.Handles)
	start := rt.Now()
	sw := rt.Switches()
	c.parallel(func(i int) {
		stalled := false
		for _, j := range all[i] {
			if j.s.StallAt > 0 && !j.s.Shared {
				stalled = true
			}
			switch {
			case j.p != nil:
				j.p.cl.invoke(view(shared[j.op.M], j.op.V))
				j.p.cl.compareCall(j.p.want)
			case j.op.K == "load":
				got := load(j, j.s)
				if j.s.Shared && !got.ok {
					refused[i] = append(refused[i], simfs.Abs(j.name))
					break
				}
				if got.ok != j.want.ok {
					fail("disturbed-load", "%s load: %v, alone: %v (plan %+v)", j.m.Kind, got, j.want, j.s)
				}
				if got.ok && !j.want.f.eq(got.f) {
					fail("disturbed-load", "%s model loaded concurrently behaves differently: %s", j.m.Kind, j.want.f.diff(got.f))
				}
			default:
				if got := matrix(j, j.s); got != j.txt {
					fail("disturbed-load", "%s: %s, alone %s", j.op.K, got, j.txt)
				}
			}
		}
		if d := rt.Now() - start; !stalled && d > hugeStall/2 {
			if len(plans) > 0 {
				// which client got the stalled file is a matter of order
				late[i] = true
				return
			}
			fail("delayed", "client %d, none of whose sources stalls, needed %.0f simulated seconds while another client's source was stalled", i, float64(d)/1e9)
		}
	})
	stalls := 0
	failed := map[string]int{}
	for _, h := range c.disk.Handles[opened:] {
		if h.Failed {
			failed[h.Path]++
		}
		if h.Stalled {
			stalls++
		}
	}
	for _, names := range refused {
		for _, name := range names {
			if failed[name]--; failed[name] < 0 {
				fail("disturbed-load", "more loads of %s failed than there were failures in reading it", name)
			}
		}
	}
	delayed := 0
	for _, l := range late {
		if l {
			delayed++
		}
	}
	if delayed > stalls {
		fail("delayed", "%d clients were delayed by %d stalled files", delayed, stalls)
	}
	if loads > 0 && rt.Switches()-sw > int64(2*len(all)) {
		c.hit()
	}
}
