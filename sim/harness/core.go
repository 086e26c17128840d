package main

import (
	"fmt"
	"math"
	"unsafe"

	"zsim/rt"
	ssync "zsim/shim/sync"
	"zsim/simfs"
)

// Sched is the scheduling side of a scenario.
type Sched struct {
	Seed     uint64        `json:"seed"`
	Strategy int           `json:"strategy"`
	Quantum  int           `json:"quantum"`
	Sync     int           `json:"sync"`
	Changes  int           `json:"changes,omitempty"`
	Horizon  int64         `json:"horizon,omitempty"`
	MaxSteps int64         `json:"maxsteps"`
	Procs    int           `json:"procs"`
	CPUs     int           `json:"cpus"`
	Was      int           `json:"was,omitempty"` // GOMAXPROCS in an earlier part of the run (C07)
	Freezes  []rt.Freeze   `json:"freezes,omitempty"`
	Script   []rt.Decision `json:"script,omitempty"`
}

// Src is a plan for the delivery of bytes.
type Src struct {
	File    bool   `json:"file,omitempty"`   // from a file of the simulated disk
	Shared  bool   `json:"shared,omitempty"` // from a file that others load, too
	Buf     int    `json:"buf,omitempty"`    // bufio size (0: default)
	Seed    uint64 `json:"seed,omitempty"`
	Chunk   int    `json:"chunk,omitempty"`    // largest delivery (0: any)
	Empty   int    `json:"empty,omitempty"`    // percentage of reads that deliver nothing
	DataEOF bool   `json:"data_eof,omitempty"` // last bytes arrive together with EOF
	Delay   int64  `json:"delay,omitempty"`    // longest delay of a read, ns
	StallAt int    `json:"stall_at,omitempty"` // offset (1-based) at which the source stalls
	Stall   int64  `json:"stall,omitempty"`    // for how long, ns
	ErrAt   int    `json:"err_at,omitempty"`   // offset (1-based; 0: none) of a read error
	Err     int    `json:"err,omitempty"`      // which error
	ErrData bool   `json:"err_data,omitempty"` // the error comes together with data
	After   int    `json:"after,omitempty"`    // after the error: 0 the same error for ever, 1 the rest of the data, 2 EOF
	Cut     int    `json:"cut,omitempty"`      // the source ends after Cut-1 bytes (0: whole)
	Pre     int    `json:"pre,omitempty"`      // bytes in front that the caller skips
	OpenErr int    `json:"open_err,omitempty"`
}

// Op is one step of a client.
type Op struct {
	K     string `json:"k"`
	M     int    `json:"m,omitempty"`
	V     string `json:"v,omitempty"` // view: letters r and l applied in order
	Seed  uint64 `json:"seed,omitempty"`
	Rows  int    `json:"rows,omitempty"`
	Extra int    `json:"extra,omitempty"` // columns or output elements beyond what is needed
	N     int    `json:"n,omitempty"`     // estimator limit
	T     int    `json:"t,omitempty"`     // threads
	Flag  int    `json:"flag,omitempty"`
	A     int    `json:"a,omitempty"`
	N2    int    `json:"n2,omitempty"`
	Src   *Src   `json:"src,omitempty"`
	Src2  *Src   `json:"src2,omitempty"`
	Mut   []Mut  `json:"mut,omitempty"`
	Limit []int  `json:"limit,omitempty"`
	Skip  bool   `json:"skip,omitempty"`
	Delim string `json:"delim,omitempty"`
	Wr    *Wr    `json:"wr,omitempty"`
	Name  int    `json:"name,omitempty"` // how its files are called
}

// Mut is one damage done to stored bytes.
type Mut struct {
	K string `json:"k"`
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	C int    `json:"c,omitempty"`
}

// Wr is a plan for a writer or output file.
type Wr struct {
	File  bool  `json:"file,omitempty"`
	Cap   int   `json:"cap,omitempty"` // fails after Cap-1 bytes (0: never)
	Err   int   `json:"err,omitempty"`
	Open  int   `json:"open,omitempty"`
	Close int   `json:"close,omitempty"`
	Sync  int   `json:"sync,omitempty"`
	Ren   int   `json:"ren,omitempty"` // moving it to its name fails
	Old   int   `json:"old,omitempty"` // size of a file that is already there
	Delay int64 `json:"delay,omitempty"`
	Once  bool  `json:"once,omitempty"` // the writer accepts again after having failed once
}

// Scenario is one simulated execution, completely.
type Scenario struct {
	Prop    string `json:"prop"`
	Index   int    `json:"index"`
	Sched   Sched  `json:"sched"`
	Models  []Spec `json:"models,omitempty"`
	Cold    bool   `json:"cold,omitempty"` // package state of a new process
	Prep    []Op   `json:"prep,omitempty"`
	Clients [][]Op `json:"clients"`
}

// Outcome of one scenario.
type Outcome struct {
	Class, Msg string
	Hash       uint64
	SchedHash  uint64
	Steps      int64
	Switches   int64
	Preempts   int64
	Stalls     int64
	SimTime    int64
	Spawned    int
	NonTrivial bool
	Decisions  []rt.Decision
}

// ---- counters ----

const (
	cShortRead = iota
	cEmptyRead
	cDataEOF
	cReadErr
	cReadErrData
	cTransient
	cErrThenEOF
	cDelay
	cStall
	cCut
	cDamage
	cOpenErr
	cDiskReadErr
	cDiskWriteErr
	cDiskCloseErr
	cDiskShort
	cDiskShortWrite
	cWriterErr
	cLoads
	cLoadErrs
	cPredictCalls
	cRefused
	cRowsChecked
	cMaxOverlap
	cParallel
	cMatReads
	cMatRows
	cMatErrs
	cWrites
	cWriteFails
	cCuts
	cCutRefused
	cCutSame
	cDamRefused
	cDamUsable
	cDamSame
	cViews
	cInspect
	cOverwrites
	cSwapped
	cSwapNew
	cCrashRead
	cCrashWrite
	cAttempts
	cCrashes
	cJobs
	cFreeze
	cCold
	nCounters
)

var counterNames = [nCounters]string{
	"fault: short read", "fault: empty read (0 bytes, no error)", "fault: data delivered together with EOF",
	"fault: read error", "fault: read error together with data", "fault: transient read error, data follows", "fault: read error followed by EOF",
	"fault: delayed read", "fault: source stalled", "fault: truncated source", "fault: damaged bytes",
	"fault: open fails", "fault: disk read error", "fault: disk write error (full disk, EIO)", "fault: close fails, data lost",
	"fault: short disk read", "fault: torn disk write", "fault: writer error",
	"loads", "loads refused", "prediction calls", "refused prediction calls", "rows checked", "largest overlap of workers",
	"calls with more than one worker", "matrix reads", "matrix rows checked", "matrix reads refused", "matrix writes", "matrix writes that reported failure",
	"cut points tried", "cut points refused", "cut points with unchanged model",
	"damaged files refused", "damaged files usable", "damaged files usable and unchanged",
	"views made", "inspections", "returned slices overwritten", "fault: file replaced by another while it was being loaded", "loads that saw the replacement",
	"fault: crash while reading", "fault: crash while writing (torn file) or closing", "attempts at scoring a data file", "attempts that crashed", "data files scored completely",
	"fault: goroutine taken off its processor for up to 5 minutes", "process restarted (package state initialised again)",
}

var counters [nCounters]int64

//go:norace
func count(c int) { counters[c]++ }

//go:norace
func countN(c int, n int) { counters[c] += int64(n) }

//go:norace
func countMax(c int, n int64) {
	if counters[c] < n {
		counters[c] = n
	}
}

// ---- a run ----

type ctx struct {
	sc         *Scenario
	models     []*Model
	disk       *simfs.Disk
	nontrivial bool
	onEvent    func(g *rt.G) (string, string)
	live       int // goroutines at the start of the run
	round      int // of a history in rounds
}

//go:norace
func (c *ctx) hit() { c.nontrivial = true }

func fail(class, f string, a ...any) { rt.Fail(class, fmt.Sprintf(f, a...)) }

// watcher is called by the kernel after every hand-back
var watcher func(g *rt.G) (string, string)

//go:norace
func onEvent(g *rt.G) (string, string) {
	if watcher != nil {
		return watcher(g)
	}
	return "", ""
}

// runScenario executes a scenario in this process.
func runScenario(sc *Scenario) *Outcome {
	p := props[sc.Prop]
	if p == nil {
		panic("unknown property " + sc.Prop)
	}
	ssync.ForgetPools()
	rt.Restart() // the scenarios of a worker know nothing of each other
	if p.rounds > 0 {
		return runRounds(p, sc)
	}
	return runOnce(p, sc, 0)
}

func runOnce(p *prop, sc *Scenario, round int) *Outcome {
	c := &ctx{sc: sc, disk: simfs.New(), round: round}
	simfs.Cur = c.disk
	watcher = nil
	for _, s := range sc.Models {
		c.models = append(c.models, Build(s))
	}
	cfg := rt.Config{
		Seed: sc.Sched.Seed, Strategy: sc.Sched.Strategy, Quantum: sc.Sched.Quantum, SyncPoint: sc.Sched.Sync,
		Changes: sc.Sched.Changes, Horizon: sc.Sched.Horizon, MaxSteps: sc.Sched.MaxSteps,
		MaxProcs: sc.Sched.Procs, NumCPU: sc.Sched.CPUs, OnEvent: onEvent, Freezes: sc.Sched.Freezes, Script: sc.Sched.Script,
	}
	if p.allocLimit != nil {
		cfg.AllocLimit = p.allocLimit(c)
	}
	races := rt.RaceCount()
	r := rt.Run(cfg, func() {
		rt.SetTag(-1)
		rt.Quiet(true)
		if rt.StartsWork {
			c.restart()
		}
		c.live = rt.Live()
		p.run(c)
	})
	watcher = nil
	d := c.disk.Counts
	countN(cOpenErr, int(d.OpenErr))
	countN(cDiskReadErr, int(d.ReadErr))
	countN(cDiskWriteErr, int(d.WriteErr))
	countN(cDiskCloseErr, int(d.CloseErr))
	countN(cDiskShort, int(d.ShortRead))
	countN(cDiskShortWrite, int(d.ShortWrite))
	countN(cDelay, int(d.Delays))
	countN(cFreeze, int(r.Freezes))
	o := &Outcome{Class: r.Class, Msg: r.Msg, Hash: r.Hash, SchedHash: r.SchedHash, Steps: r.Steps, Switches: r.Switches,
		Preempts: r.Preempts, Stalls: r.Stalls, SimTime: r.SimTime, Spawned: r.Spawned, NonTrivial: c.nontrivial, Decisions: r.Decisions}
	if n := rt.RaceCount() - races; n > 0 && o.Class == "" {
		o.Class, o.Msg = "race", fmt.Sprintf("%d data race(s) reported by the happens-before analysis", n)
	}
	return o
}

// restart gives a cold run the package state of a new process. Nothing loaded
// before may be used afterwards.
func (c *ctx) restart() {
	if c.sc.Cold || rt.StartsWork {
		c.newProcess()
	}
}

// newProcess gives the packages the state they have in a process that just started.
func (c *ctx) newProcess() {
	ssync.ForgetPools()
	rt.Sleep(1000000) // what the former process started gets to where it waits
	rt.Restart()
	count(cCold)
}

// parallel runs one goroutine per client with the search on and waits for all.
func (c *ctx) parallel(f func(client int)) {
	var wg ssync.WaitGroup
	wg.Add(len(c.sc.Clients))
	rt.Quiet(false)
	for i := range c.sc.Clients {
		i := i
		rt.Go(func() {
			rt.SetTag(i)
			f(i)
			wg.Done()
		})
	}
	wg.Wait()
	rt.SetTag(-1)
	rt.Quiet(true)
}

// ---- small helpers ----

// same compares two results bit for bit, all NaNs being equal.
//
//go:norace
func same(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || (a != a && b != b)
}

func mix(a uint64, b uint64) uint64 {
	r := rt.NewRand(a ^ (b+1)*0x9E3779B97F4A7C15)
	return r.U64()
}

func hashF(h uint64, xs ...float64) uint64 {
	for _, x := range xs {
		b := math.Float64bits(x)
		if x != x {
			b = 1
		}
		h = (h ^ b) * 1099511628211
	}
	return h
}

func clamp(x, lo, hi int) int {
	if x < lo {
		return lo
	}
	if x > hi {
		return hi
	}
	return x
}

func pick[T any](r *rt.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

// gbuf is a slice cut out of a larger array with a known pattern around it.
type gbuf struct {
	full   []float64
	lo, hi int
}

const guard = 11

//go:norace
func guardValue(i int) float64 {
	return math.Float64frombits(0x7ff8dead00000000 | uint64(i&0xffff))
}

func newGbuf(n int, r *rt.Rand, prefill int) *gbuf {
	b := &gbuf{full: make([]float64, n+2*guard), lo: guard, hi: guard + n}
	for i := range b.full {
		b.full[i] = guardValue(i)
	}
	w := b.win()
	for i := range w {
		switch prefill {
		case 0:
			w[i] = math.NaN()
		case 1:
			w[i] = 1e300 * (r.F() - 0.5)
		case 2:
			w[i] = float64(r.Intn(5))
		case 3:
			w[i] = math.Inf(1)
		}
	}
	return b
}

// win is the window handed out; its capacity reaches into the guard behind it.
func (b *gbuf) win() []float64 { return b.full[b.lo:b.hi] }

// intact reports the first damaged guard element, or -1.
//
//go:norace
func (b *gbuf) intact() int {
	for i := 0; i < b.lo; i++ {
		if math.Float64bits(b.full[i]) != math.Float64bits(guardValue(i)) {
			return i
		}
	}
	for i := b.hi; i < len(b.full); i++ {
		if math.Float64bits(b.full[i]) != math.Float64bits(guardValue(i)) {
			return i
		}
	}
	return -1
}

// keep is memory that must not change, with a private copy.
type keep struct {
	name string
	f    []float64
	fc   []float64
	i    []int
	ic   []int
}

func keepF(name string, x []float64) *keep {
	return &keep{name: name, f: x, fc: append([]float64{}, x...)}
}
func keepI(name string, x []int) *keep { return &keep{name: name, i: x, ic: append([]int{}, x...)} }

//go:norace
func (k *keep) changed() int {
	for j := range k.f {
		if math.Float64bits(k.f[j]) != math.Float64bits(k.fc[j]) {
			return j
		}
	}
	for j := range k.i {
		if k.i[j] != k.ic[j] {
			return j
		}
	}
	return -1
}

var _ = unsafe.Pointer(nil)
