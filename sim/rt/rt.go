// Package rt is the runtime of the simulator: a kernel goroutine that owns the
// choice of which simulated goroutine runs, the simulated clock, and the state
// behind simulated channels and locks.
//
// Exactly one simulated goroutine executes at a time. It runs until it posts a
// request to the kernel (a scheduling point at which the PRNG or the replay
// script decided to preempt it, or an operation that blocks) and then parks.
// All hand-over between goroutines is hidden from the race detector, so that in
// a -race build only the synchronisation the simulated program itself performs
// creates happens-before edges.
package rt

import (
	"fmt"
	"runtime/debug"
	"sort"
	"unsafe"
)

// Decision is one scheduling decision that differs from the default policy
// (keep running; when blocked, the next runnable goroutine by number).
type Decision struct {
	Step int64 `json:"step"`
	G    int   `json:"g"`
	B    bool  `json:"b,omitempty"` // the running goroutine could not continue
	F    int64 `json:"f,omitempty"` // G is taken off its processor for so many ns instead
}

// Freeze takes the goroutine that is running after At statements of the
// search off its processor for For nanoseconds.
type Freeze struct {
	At  int64 `json:"at"`
	For int64 `json:"for"`
}

// Strategy names.
const (
	StratRandom     = iota // uniform choice, geometric quantum
	StratPCT               // priorities with few change points
	StratRR                // round robin with fixed quantum
	StratStall             // random, but one goroutine is frozen for long stretches
	StratScript            // replay of recorded decisions
	NumSearchStrats = StratScript
)

// Config of one run.
type Config struct {
	Seed       uint64
	Strategy   int
	Quantum    int   // mean quantum in statements
	SyncPoint  int   // percentage of synchronisation operations that may preempt
	Changes    int   // PCT: number of priority change points
	Horizon    int64 // PCT: expected length in statements
	Freezes    []Freeze
	MaxSteps   int64
	MaxProcs   int
	NumCPU     int
	AllocLimit int64 // largest single make([]T, n), in bytes
	Script     []Decision
	// OnEvent runs in the kernel after every hand-back of a goroutine; a
	// non-empty result is a violation "class: text".
	OnEvent func(g *G) (class, msg string)
}

// Result of one run.
type Result struct {
	Class, Msg string // violation, if any
	Steps      int64
	Switches   int64
	Spawned    int
	SimTime    int64 // nanoseconds of simulated time covered
	Preempts   int64
	Blocks     int64
	Stalls     int64
	Freezes    int64
	Hash       uint64
	SchedHash  uint64 // hash of the sequence of (goroutine, kind of event), steps left out
	Decisions  []Decision
}

const (
	opYield = iota
	opPark
	opWake
	opSleep
	opSpawn
	opExit
	opFail
	opChan
	opRegChan
	opRand
	opTag
)

const (
	stRunnable = iota
	stRunning
	stParked
	stSleeping
	stDone
)

// G is a simulated goroutine.
type G struct {
	ID     int
	Tag    int // set by the harness per API call, inherited by children
	Parent int
	Daemon bool
	At     int  // the statement before which it was preempted, 0 if it stopped elsewhere
	gone   bool // belongs to a crashed process
	status int
	wake   chan struct{}
	key    unsafe.Pointer
	until  int64
	prio   int64
	woken  bool

	// request to the kernel
	op         int
	argP       unsafe.Pointer
	argI       int64
	argS       string
	argS2      string
	argF       func()
	retP       unsafe.Pointer
	retI       int64
	stalledTil int64
}

type kernel struct {
	cfg      Config
	gs       []*G
	cur      *G
	toKernel chan struct{}
	rng      Rand
	aux      Rand
	now      int64
	base     int64 // steps before the current quantum
	quantum  int64
	res      Result
	chans    map[unsafe.Pointer]*chanState
	pins     []any
	script   []Decision
	changes  []int64
	lowPrio  int64
	victim   int
	victimTo int64
	over     bool
	quiet    bool
	loud     int64 // statements executed with the search on
	freezes  []Freeze
	streak   int64 // statements since the last change of goroutine or fairness point
}

// the single active simulation of this process
var (
	k      *kernel
	budget int64 = 1 << 62
)

var globalChans = map[unsafe.Pointer]*chanState{}
var globalPins []any

// Rand is a small deterministic PRNG (splitmix64).
type Rand struct{ s uint64 }

// NewRand seeds a PRNG.
func NewRand(seed uint64) Rand { return Rand{seed*0x9E3779B97F4A7C15 + 0x1234567} }

// U64 returns the next value.
//
//go:norace
func (r *Rand) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Intn returns a value in [0,n).
//
//go:norace
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// F returns a value in [0,1).
//
//go:norace
func (r *Rand) F() float64 { return float64(r.U64()>>11) / (1 << 53) }

// Chance is true with probability pct percent.
//
//go:norace
func (r *Rand) Chance(pct int) bool { return r.Intn(100) < pct }

// Active reports whether a simulation is running.
//
//go:norace
func Active() bool { return k != nil }

//go:norace
func steps() int64 { return k.base + (k.quantum - budget) }

// Steps is the number of statements executed so far in this run.
//
//go:norace
func Steps() int64 {
	if k == nil {
		return 0
	}
	return steps()
}

// Y is called before statement id of the instrumented code.
//
//go:norace
func Y(id int) {
	if profile != nil {
		profile[id]++
	}
	budget--
	if budget <= 0 {
		slowAt(id)
	}
}

var profile map[int]int

// Profile counts the executions of every statement while f runs.
func Profile(f func()) map[int]int {
	old := profile
	p := map[int]int{}
	profile = p
	defer func() { profile = old }()
	f()
	return p
}

//go:norace
func slowAt(id int) {
	if k == nil {
		budget = 1 << 62
		return
	}
	g := k.cur
	g.At = id
	g.op = opYield
	post(g)
	g.At = 0
}

//go:norace
func slow() {
	if k == nil {
		budget = 1 << 62
		return
	}
	g := k.cur
	g.op = opYield
	post(g)
}

// Point is a scheduling point at a synchronisation operation. It counts as a
// step; whether it preempts is the kernel's decision.
//
//go:norace
func Point() {
	if k == nil {
		return
	}
	budget--
	if budget <= 0 {
		slow()
		return
	}
	if k.quiet || k.cfg.Strategy == StratScript {
		return
	}
	if k.cfg.SyncPoint > 0 && k.rng.Chance(k.cfg.SyncPoint) {
		slow()
	}
}

// Yield is a scheduling point at which the goroutine asks to be preempted.
//
//go:norace
func Yield() {
	if k == nil {
		return
	}
	budget--
	if budget <= 0 || k.quiet || k.cfg.Strategy != StratScript {
		slow()
	}
}

//go:norace
func post(g *G) {
	kk := k
	if StartsWork {
		ReleaseMerge(unsafe.Pointer(&endToken))
	}
	raceOff()
	kk.toKernel <- struct{}{}
	<-g.wake
	raceOn()
}

// Quiet switches the search off (default policy only, no decisions taken or
// recorded) or on; the harness prepares and inspects a run in quiet phases.
//
//go:norace
func Quiet(v bool) {
	if k == nil || k.quiet == v {
		return
	}
	k.quiet = v
	if !v {
		for i := range k.changes {
			k.changes[i] += steps()
		}
	}
	slow()
}

// Cur is the running simulated goroutine.
//
//go:norace
func Cur() *G {
	if k == nil {
		return nil
	}
	return k.cur
}

// Goroutines calls f for every simulated goroutine that has not ended.
//
//go:norace
func Goroutines(f func(g *G)) {
	for _, g := range k.gs {
		f(g)
	}
}

// SetTag labels the current goroutine and those it will spawn.
//
//go:norace
func SetTag(t int) { k.cur.Tag = t }

// Park blocks the current goroutine until Wake(key).
//
//go:norace
func Park(key unsafe.Pointer) {
	if k == nil {
		panic("simulator: blocking operation outside a run")
	}
	g := k.cur
	g.op = opPark
	g.argP = key
	post(g)
}

// Wake makes every goroutine parked on key runnable.
//
//go:norace
func Wake(key unsafe.Pointer) {
	if k == nil {
		return
	}
	g := k.cur
	g.op = opWake
	g.argP = key
	post(g)
}

// Sleep blocks for d nanoseconds of simulated time.
//
//go:norace
func Sleep(d int64) {
	if k == nil {
		return
	}
	g := k.cur
	g.op = opSleep
	g.argI = d
	post(g)
}

// Abandon stops the current goroutine for ever; no goroutine whose tag is
// chosen is missed if it never ends.
//
//go:norace
func Abandon(tag func(t int) bool) {
	for _, g := range k.gs {
		if g.ID == k.cur.ID || tag(g.Tag) {
			g.Daemon, g.gone = true, true
		}
	}
	Park(unsafe.Pointer(k.cur))
	select {}
}

// Now is the simulated time in nanoseconds since the start of the run.
//
//go:norace
func Now() int64 {
	if k == nil {
		return 0
	}
	return k.now
}

// Fail reports a violation and ends the run; it does not return.
//
//go:norace
func Fail(class, msg string) {
	if k == nil {
		panic("violation outside a run: " + class + ": " + msg)
	}
	g := k.cur
	g.op = opFail
	g.argS = class
	g.argS2 = msg
	post(g)
	select {}
}

// AuxIntn draws from the run's auxiliary PRNG (map order, pool, select).
//
//go:norace
func AuxIntn(n int) int {
	if k == nil {
		return 0
	}
	return k.aux.Intn(n)
}

// AuxU64 draws from the run's auxiliary PRNG.
//
//go:norace
func AuxU64() uint64 {
	if k == nil {
		return 0
	}
	return k.aux.U64()
}

// MaxProcs is the simulated GOMAXPROCS; a positive argument changes it.
//
//go:norace
func MaxProcs(n int) int {
	if k == nil {
		// while packages are initialised; what the program sets comes later
		return 8
	}
	old := k.cfg.MaxProcs
	if n > 0 {
		k.cfg.MaxProcs = n
	}
	return old
}

// NumCPU is the simulated processor count.
//
//go:norace
func NumCPU() int {
	if k == nil || k.cfg.NumCPU < 1 {
		return 8
	}
	return k.cfg.NumCPU
}

// Live counts simulated goroutines that have not ended.
//
//go:norace
func Live() int {
	if k == nil {
		return 1
	}
	n := 0
	for _, g := range k.gs {
		if g.status != stDone {
			n++
		}
	}
	return n
}

// Go starts f as a simulated goroutine.
//
//go:norace
func Go(f func()) { spawn(f, false) }

// GoDaemon starts a goroutine whose being blocked for ever is no leak.
//
//go:norace
func GoDaemon(f func()) { spawn(f, true) }

// PanicText, if set, decides how a panic value of a simulated goroutine is
// reported.
var PanicClass = "panic"

//go:norace
func spawn(f func(), daemon bool) {
	if k == nil {
		// while packages are initialised: every run does it again
		StartsWork = true
		return
	}
	Point()
	me := k.cur
	g := &G{wake: make(chan struct{}, 1), Tag: me.Tag, Parent: me.ID, Daemon: daemon || me.gone || starting, gone: me.gone}
	me.op = opSpawn
	me.argP = unsafe.Pointer(g)
	post(me)
	go gmain(g, f)
	Point()
}

//go:norace
func gmain(g *G, f func()) {
	raceOff()
	<-g.wake
	raceOn()
	defer gexit(g)
	f()
}

//go:norace
func gexit(g *G) {
	if r := recover(); r != nil {
		g.argS = PanicClass
		g.argS2 = fmt.Sprintf("goroutine %d: panic: %v\n%s", g.ID, r, debug.Stack())
		g.op = opFail
	} else {
		g.op = opExit
	}
	// what a goroutine did happens before whatever follows the run
	ReleaseMerge(unsafe.Pointer(&endToken))
	raceOff()
	k.toKernel <- struct{}{}
	raceOn()
}

var endToken int

// N checks the size of an allocation before it is made.
func N[I ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n I, size int64) I {
	allocCheck(float64(n), size)
	return n
}

// AllocBytes counts bytes requested through make in this process.
var AllocBytes int64

//go:norace
func allocCheck(n float64, size int64) {
	b := n * float64(size)
	if b > 0 && b < 1<<50 {
		AllocBytes += int64(b)
	}
	if k != nil && k.cfg.AllocLimit > 0 && b > float64(k.cfg.AllocLimit) {
		Fail("alloc", fmt.Sprintf("make of %.0f elements of %d bytes", n, size))
	}
}

type starter struct {
	pkg   string
	order int
	f     func()
}

var (
	starters []starter
	// Processes counts the simulated processes of this run that ended.
	Processes int
	starting  bool
	// StartsWork is set if initialising the packages starts goroutines.
	StartsWork bool
)

// OnRestart registers a part of the initialisation of a package. Packages
// register in the order in which they are initialised.
func OnRestart(pkg string, order int, f func()) {
	at := len(starters)
	for i := len(starters) - 1; i >= 0 && starters[i].pkg == pkg; i-- {
		if starters[i].order > order {
			at = i
		}
	}
	starters = append(starters, starter{})
	copy(starters[at+1:], starters[at:])
	starters[at] = starter{pkg, order, f}
}

// Restart initialises the packages under test again, as in a new process.
//
//go:norace
func Restart() {
	if k == nil {
		globalChans, globalPins = map[unsafe.Pointer]*chanState{}, nil
		StartsWork = false
	}
	// a process ends before the next one starts
	Acquire(unsafe.Pointer(&endToken))
	starting = true
	Processes++
	for _, s := range starters {
		s.f()
	}
	starting = false
}

// Run executes main as goroutine 0 of a fresh simulation.
func Run(cfg Config, main func()) *Result {
	if k != nil {
		panic("simulation already running")
	}
	Processes = 0
	kk := &kernel{cfg: cfg, toKernel: make(chan struct{}), rng: NewRand(cfg.Seed), aux: NewRand(cfg.Seed ^ 0xABCDEF0123), victim: -1}
	if kk.cfg.MaxProcs < 1 {
		kk.cfg.MaxProcs = 4
	}
	kk.chans = map[unsafe.Pointer]*chanState{}
	kk.script = cfg.Script
	if cfg.Strategy != StratScript {
		kk.freezes = append(kk.freezes, cfg.Freezes...)
		sort.Slice(kk.freezes, func(i, j int) bool { return kk.freezes[i].At < kk.freezes[j].At })
	}
	if cfg.Strategy == StratPCT {
		h := cfg.Horizon
		if h < 10 {
			h = 10
		}
		for i := 0; i < cfg.Changes; i++ {
			kk.changes = append(kk.changes, int64(kk.rng.U64()%uint64(h)))
		}
		sort.Slice(kk.changes, func(i, j int) bool { return kk.changes[i] < kk.changes[j] })
	}
	g := &G{wake: make(chan struct{}, 1), ID: 0}
	g.prio = int64(kk.rng.U64() >> 2)
	kk.gs = append(kk.gs, g)
	kk.res.Hash = 14695981039346656037
	kk.res.SchedHash = 14695981039346656037
	k = kk
	go gmain(g, main)
	done := make(chan struct{})
	go func() { // the kernel
		raceOff()
		kk.loop()
		raceOn()
		close(done)
	}()
	<-done
	kk.res.Steps = kk.base
	kk.res.SimTime = kk.now
	kk.res.Spawned = len(kk.gs)
	k = nil
	budget = 1 << 62
	Acquire(unsafe.Pointer(&endToken))
	return &kk.res
}

func (s *kernel) mix(a, b uint64) {
	s.res.Hash = (s.res.Hash ^ a) * 1099511628211
	s.res.Hash = (s.res.Hash ^ b) * 1099511628211
}

// Mix folds an observation into the run's digest.
//
//go:norace
func Mix(v uint64) {
	if k != nil {
		k.res.Hash = (k.res.Hash ^ v) * 1099511628211
	}
}

func (s *kernel) runnable() []*G {
	var r []*G
	for _, g := range s.gs {
		if g.status == stSleeping && g.until <= s.now {
			g.status = stRunnable
		}
		if g.status == stRunnable {
			r = append(r, g)
		}
	}
	return r
}

// fairness bounds how long the default policy runs one goroutine without
// offering the processor to the next.
const fairness = 20000

// default policy: keep running; when blocked, or after `fairness` statements,
// the next runnable goroutine by number
func (s *kernel) defaultChoice(r []*G, last int) *G {
	if s.streak < fairness {
		for _, g := range r {
			if g.ID == last {
				return g
			}
		}
	}
	for _, g := range r {
		if g.ID > last {
			return g
		}
	}
	return r[0]
}

func (s *kernel) geometric(mean int) int64 {
	if mean <= 1 {
		return 1
	}
	// 1..~4*mean, roughly geometric
	u := s.rng.F()
	n := int64(1)
	for u < 0.63 && n < 8 {
		n++
		u = s.rng.F()
	}
	return 1 + int64(s.rng.U64()%uint64(int64(mean)*n))
}

func (s *kernel) choose(r []*G, last int) (g *G, q int64) {
	def := s.defaultChoice(r, last)
	blocked := true
	for _, x := range r {
		if x.ID == last {
			blocked = false
		}
	}
	fair := s.streak >= fairness
	strategy := s.cfg.Strategy
	if s.quiet {
		strategy = -1
	}
	switch strategy {
	case -1:
		g = def
		q = fairness
	case StratScript:
		for len(s.script) > 0 && (s.script[0].Step < s.base || s.script[0].Step == s.base && s.script[0].F > 0) {
			s.script = s.script[1:]
		}
		g = def
		if len(r) > 1 && len(s.script) > 0 && s.script[0].Step == s.base && s.script[0].B == blocked {
			want := s.script[0].G
			s.script = s.script[1:]
			for _, x := range r {
				if x.ID == want {
					g = x
				}
			}
		}
		q = 1 << 40
		for _, d := range s.script {
			if !d.B && d.Step > s.base {
				q = d.Step - s.base
				break
			}
		}
	case StratPCT:
		for len(s.changes) > 0 && s.changes[0] <= s.base {
			s.changes = s.changes[1:]
			s.demote(last)
		}
		if fair {
			s.demote(last)
		}
		g = r[0]
		for _, x := range r {
			if x.prio > g.prio {
				g = x
			}
		}
		q = 1 << 30
		if len(s.changes) > 0 {
			q = s.changes[0] - s.base
		}
	case StratRR:
		g = r[0]
		for _, x := range r {
			if x.ID > last {
				g = x
				break
			}
		}
		q = int64(s.cfg.Quantum)
	case StratStall:
		if s.victim >= 0 && s.base >= s.victimTo {
			s.victim = -1
		}
		if s.victim < 0 && s.rng.Chance(10) {
			s.victim = r[s.rng.Intn(len(r))].ID
			s.victimTo = s.base + 1 + int64(s.rng.Intn(s.cfg.Quantum*200+10))
			s.res.Stalls++
		}
		c := r
		if s.victim >= 0 && len(r) > 1 {
			c = nil
			for _, x := range r {
				if x.ID != s.victim {
					c = append(c, x)
				}
			}
		}
		g = c[s.rng.Intn(len(c))]
		q = s.geometric(s.cfg.Quantum)
	default:
		g = r[s.rng.Intn(len(r))]
		q = s.geometric(s.cfg.Quantum)
	}
	if !s.quiet && (g != def || (blocked && len(r) > 1)) {
		s.res.Decisions = append(s.res.Decisions, Decision{Step: s.base, G: g.ID, B: blocked})
	}
	if fair || g.ID != last {
		s.streak = 0
	}
	if !s.quiet && len(s.freezes) > 0 && q > s.freezes[0].At-s.loud {
		q = s.freezes[0].At - s.loud
	}
	if q > fairness-s.streak {
		q = fairness - s.streak
	}
	if s.cfg.MaxSteps > 0 && q > s.cfg.MaxSteps-s.base+1 {
		q = s.cfg.MaxSteps - s.base + 1
	}
	if q < 1 {
		q = 1
	}
	return g, q
}

func (s *kernel) demote(id int) {
	s.lowPrio--
	for _, x := range s.gs {
		if x.ID == id {
			x.prio = s.lowPrio
		}
	}
}

func (s *kernel) fail(class, msg string) {
	if s.res.Class == "" {
		s.res.Class, s.res.Msg = class, msg
	}
	s.over = true
}

func (s *kernel) describeBlocked() string {
	t := ""
	for _, g := range s.gs {
		if g.status != stDone {
			t += fmt.Sprintf(" g%d(parent g%d, call %d)", g.ID, g.Parent, g.Tag)
		}
	}
	return t
}

// freeze takes the goroutine that was running off its processor for a while if
// the plan, or the script, says so.
func (s *kernel) freeze(last int) bool {
	var d int64
	switch {
	case s.quiet:
		return false
	case s.cfg.Strategy == StratScript:
		for len(s.script) > 0 && s.script[0].Step < s.base {
			s.script = s.script[1:]
		}
		if len(s.script) == 0 || s.script[0].Step != s.base || s.script[0].F == 0 {
			return false
		}
		last, d = s.script[0].G, s.script[0].F
	case len(s.freezes) > 0 && s.loud >= s.freezes[0].At:
		d = s.freezes[0].For
	default:
		return false
	}
	for _, g := range s.gs {
		if g.ID == last && g.status == stRunnable {
			if s.cfg.Strategy == StratScript {
				s.script = s.script[1:]
			} else {
				s.freezes = s.freezes[1:]
			}
			g.status = stSleeping
			g.until = s.now + d
			s.res.Freezes++
			s.res.Decisions = append(s.res.Decisions, Decision{Step: s.base, G: last, F: d})
			return true
		}
	}
	return false
}

func (s *kernel) loop() {
	last := 0
	for !s.over {
		if s.cfg.MaxSteps > 0 && s.base > s.cfg.MaxSteps {
			s.fail("no-progress", fmt.Sprintf("still running after %d statements; goroutines alive:%s", s.base, s.describeBlocked()))
			return
		}
		r := s.runnable()
		if len(r) == 0 {
			// advance the clock to the next sleeper
			var next *G
			for _, g := range s.gs {
				if g.status == stSleeping && (next == nil || g.until < next.until) {
					next = g
				}
			}
			if next == nil {
				live, blocked := 0, false
				for _, g := range s.gs {
					if g.status != stDone && !g.Daemon {
						live++
						if g.ID == 0 {
							blocked = true
						}
					}
				}
				if live == 0 {
					return
				}
				if blocked {
					s.fail("deadlock", "every goroutine is blocked:"+s.describeBlocked())
				} else {
					s.fail("leak", "goroutines blocked for ever after every caller has finished:"+s.describeBlocked())
				}
				return
			}
			if s.allDaemonSleep() {
				return
			}
			s.now = next.until
			continue
		}
		if s.freeze(last) {
			continue
		}
		g, q := s.choose(r, last)
		if g.ID != last {
			s.res.Switches++
			s.res.SchedHash = (s.res.SchedHash ^ uint64(g.ID+1)) * 1099511628211
		}
		last = g.ID
		s.mix(uint64(g.ID), uint64(s.base))
		s.dispatch(g, q)
	}
}

func (s *kernel) allDaemonSleep() bool {
	for _, g := range s.gs {
		if g.status != stDone && !g.Daemon {
			return false
		}
	}
	return true
}

// dispatch runs g until it posts a request that needs a new scheduling choice.
func (s *kernel) dispatch(g *G, q int64) {
	s.cur = g
	g.status = stRunning
	s.quantum = q
	budget = q
	for {
		g.wake <- struct{}{}
		<-s.toKernel
		used := s.quantum - budget
		s.base += used
		s.streak += used
		if !s.quiet {
			s.loud += used
		}
		s.quantum = budget
		s.now += used * 100 // a statement takes 100 ns of simulated time
		if s.cfg.OnEvent != nil {
			if c, m := s.cfg.OnEvent(g); c != "" {
				s.fail(c, m)
				return
			}
		}
		s.mix(uint64(g.op), uint64(used))
		switch g.op {
		case opYield:
			s.res.Preempts++
			g.status = stRunnable
			return
		case opPark:
			s.res.Blocks++
			g.status = stParked
			g.key = g.argP
			return
		case opWake:
			for _, x := range s.gs {
				if x.status == stParked && x.key == g.argP {
					x.status = stRunnable
				}
			}
		case opSleep:
			g.status = stSleeping
			g.until = s.now + g.argI
			return
		case opSpawn:
			ng := (*G)(g.argP)
			ng.ID = len(s.gs)
			ng.prio = int64(s.rng.U64() >> 2)
			s.gs = append(s.gs, ng)
			s.res.SchedHash = (s.res.SchedHash ^ 0x5157) * 1099511628211
		case opChan:
			st := s.chans[g.argP]
			if st == nil {
				st = globalChans[g.argP]
			}
			g.retP = unsafe.Pointer(st)
		case opRegChan:
			st := (*chanState)(g.retP)
			s.chans[g.argP] = st
			s.pins = append(s.pins, st)
		case opExit:
			g.status = stDone
			return
		case opFail:
			s.fail(g.argS, g.argS2)
			return
		}
		if budget <= 0 {
			// the quantum ran out together with a non-blocking request
			g.status = stRunnable
			return
		}
	}
}

// Spawned is the number of goroutines started so far in this run.
//
//go:norace
func Spawned() int {
	if k == nil {
		return 0
	}
	return len(k.gs)
}

// SpawnedBy is the number of goroutines started so far that carry tag t.
//
//go:norace
func SpawnedBy(t int) int {
	n := 0
	if k != nil {
		for _, g := range k.gs {
			if g.Tag == t {
				n++
			}
		}
	}
	return n
}

// Switches is the number of changes of the running goroutine so far.
//
//go:norace
func Switches() int64 {
	if k == nil {
		return 0
	}
	return k.res.Switches
}
