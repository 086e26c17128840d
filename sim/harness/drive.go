package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"zsim/rt"
)

const (
	batchSize   = 50
	runWatchdog = 180 * time.Second // wall clock for one run that normally takes milliseconds, seconds at most
)

type options struct {
	prop, tier string
	seed       uint64
	verif, out string
	wall       time.Duration
	jobs       int
	runs       int
}

// violation is a failing run as first observed.
type violation struct {
	v        verdict
	from     int // first index of the batch it was seen in
	detail   string
	observed string
}

func drive(args []string) {
	var o options
	fs := flag.NewFlagSet("drive", flag.ExitOnError)
	fs.StringVar(&o.prop, "prop", "", "")
	fs.StringVar(&o.tier, "tier", "quick", "")
	fs.Uint64Var(&o.seed, "seed", 1, "")
	fs.StringVar(&o.verif, "verif", "/verif", "")
	fs.StringVar(&o.out, "out", "/verif", "")
	fs.DurationVar(&o.wall, "wall", 0, "")
	fs.IntVar(&o.jobs, "jobs", 0, "")
	fs.IntVar(&o.runs, "runs", 0, "")
	fs.Parse(args)
	p := props[o.prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", o.prop)
		os.Exit(2)
	}
	if o.jobs == 0 {
		o.jobs = runtime.NumCPU()
		if o.jobs > 8 {
			o.jobs = 8
		}
	}
	if o.runs == 0 {
		o.runs = p.quick
		if o.tier == "thorough" {
			o.runs = p.thorough
		}
	}
	if o.wall == 0 {
		o.wall = 90 * time.Second
		if o.tier == "thorough" {
			o.wall = 720 * time.Second
		}
	}
	d := &driver{o: o, p: p, start: time.Now(), sched: map[uint64]bool{}, digest: map[uint64]bool{}, nontriv: map[uint64]bool{}}
	os.Exit(d.run())
}

type driver struct {
	o     options
	p     *prop
	start time.Time

	mu         sync.Mutex
	next       int
	stop       bool
	found      []*violation
	known      map[string]int
	notes      []string
	runs       int
	nontrivial int
	sched      map[uint64]bool
	digest     map[uint64]bool
	nontriv    map[uint64]bool
	rec        record // sums
	counters   [nCounters]int64
	hashes     map[int]uint64
	samples    []int
	searchWall time.Duration
	rerun      int
	rerunDiff  int
	goodBatch  int
	infra      error
}

// proc runs one child process and feeds its lines; it is killed when it stays
// silent for too long.
type procResult struct {
	lines  []string
	stderr string
	err    error
	hung   bool
}

func runProc(limit time.Duration, onLine func(string), args ...string) procResult {
	var res procResult
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=3", "GOTRACEBACK=single")
	var errb bytes.Buffer
	cmd.Stderr = &limited{b: &errb, n: 256 << 10}
	out, err := cmd.StdoutPipe()
	if err != nil {
		res.err = err
		return res
	}
	if err := cmd.Start(); err != nil {
		res.err = err
		return res
	}
	var hung sync.Once
	t := time.AfterFunc(limit, func() {
		hung.Do(func() { res.hung = true })
		cmd.Process.Kill()
	})
	rd := bufio.NewReaderSize(out, 1<<16)
	for {
		line, err := rd.ReadString('\n')
		if strings.HasSuffix(line, "\n") {
			t.Reset(limit)
			line = strings.TrimSuffix(line, "\n")
			if onLine != nil {
				onLine(line)
			} else {
				res.lines = append(res.lines, line)
			}
		}
		if err != nil {
			break
		}
	}
	res.err = cmd.Wait()
	t.Stop()
	hung.Do(func() {})
	res.stderr = errb.String()
	return res
}

type limited struct {
	b *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if r := l.n - l.b.Len(); r > 0 {
		l.b.Write(p[:min(r, len(p))])
	}
	return len(p), nil
}

// batch runs one batch of scenarios in a fresh process.
func (d *driver) batch(from, to int) {
	var recs []record
	var cnt []int64
	var v *violation
	cur := -1
	r := runProc(runWatchdog, func(line string) {
		if len(line) < 2 {
			return
		}
		body := []byte(line[2:])
		switch line[0] {
		case 'R':
			json.Unmarshal(body, &cur)
		case 'D':
			var x record
			if json.Unmarshal(body, &x) == nil {
				recs = append(recs, x)
			}
		case 'V':
			x := &violation{from: from}
			if json.Unmarshal(body, &x.v) == nil {
				v = x
			}
		case 'C':
			json.Unmarshal(body, &cnt)
		}
	}, "worker", d.o.prop, fmt.Sprint(d.o.seed), fmt.Sprint(from), fmt.Sprint(to))
	if v == nil && (r.err != nil || cnt == nil) {
		v = &violation{from: from}
		v.v.I = cur
		if r.hung {
			v.v.Class, v.v.Msg = "hang", fmt.Sprintf("run made no progress for %v of wall-clock time", runWatchdog)
		} else {
			v.v.Class, v.v.Msg = "crash", crashText(r)
		}
		if cur < 0 {
			d.mu.Lock()
			d.infra = fmt.Errorf("worker did not start: %v %s", r.err, r.stderr)
			d.stop = true
			d.mu.Unlock()
			return
		}
	}
	if v != nil {
		v.detail = r.stderr
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	for _, x := range recs {
		d.runs++
		d.rec.Steps += x.Steps
		d.rec.Switches += x.Switches
		d.rec.Preempts += x.Preempts
		d.rec.Stalls += x.Stalls
		d.rec.SimTime += x.SimTime
		d.rec.Spawned += x.Spawned
		d.sched[x.SchedHash] = true
		d.digest[x.Hash] = true
		if x.NonTrivial {
			d.nontrivial++
			if d.p.byDigest {
				d.nontriv[x.Hash] = true
			} else {
				d.nontriv[x.SchedHash] = true
			}
			if x.I < 400 {
				d.samples = append(d.samples, x.I)
			}
		}
		if d.hashes == nil {
			d.hashes = map[int]uint64{}
		}
		if x.I < batchSize {
			d.hashes[x.I] = x.Hash
		}
	}
	for i, x := range cnt {
		if i == cMaxOverlap {
			d.counters[i] = max(d.counters[i], x)
		} else if i < nCounters {
			d.counters[i] += x
		}
	}
	if v != nil {
		d.found = append(d.found, v)
		d.stop = true
	}
}

func crashText(r procResult) string {
	s := r.stderr
	if i := strings.Index(s, "fatal error:"); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	return fmt.Sprintf("process died (%v): %s", r.err, s)
}

func (d *driver) search() {
	var wg sync.WaitGroup
	deadline := d.start.Add(d.o.wall)
	for j := 0; j < d.o.jobs; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				d.mu.Lock()
				if d.stop || d.next >= d.o.runs || time.Now().After(deadline) {
					d.mu.Unlock()
					return
				}
				from := d.next
				to := min(from+batchSize, d.o.runs)
				d.next = to
				d.mu.Unlock()
				d.batch(from, to)
			}
		}()
	}
	wg.Wait()
	d.searchWall = time.Since(d.start)
}

func (d *driver) run() int {
	known := loadKnown(filepath.Join(d.o.verif, "known-findings.txt"), d.o.prop)
	var confirmed *Replay
	for {
		d.search()
		if d.infra != nil {
			fmt.Fprintln(os.Stderr, d.infra)
			return 2
		}
		if len(d.found) == 0 {
			break
		}
		sort.Slice(d.found, func(i, j int) bool { return d.found[i].v.I < d.found[j].v.I })
		pending := d.found
		d.found, d.stop = nil, false
		for _, v := range pending {
			rp := d.confirm(v)
			if rp == nil {
				d.notes = append(d.notes, fmt.Sprintf("run %d ended as %q once and did not do so again: treated as trouble of the machine (%.200s)", v.v.I, v.v.Class, v.v.Msg))
				continue
			}
			if k := known.match(rp); k != nil {
				k.seen++
				continue
			}
			confirmed = rp
			break
		}
		if confirmed != nil || len(d.notes) > 20 {
			break
		}
	}
	path := ""
	if confirmed != nil {
		d.shrink(confirmed)
		os.MkdirAll(filepath.Join(d.o.out, "replays"), 0755)
		path = filepath.Join(d.o.out, "replays", fmt.Sprintf("%s-seed%d-run%d.json", d.o.prop, d.o.seed, confirmed.Index))
		b, _ := json.MarshalIndent(confirmed, "", " ")
		if err := os.WriteFile(path, b, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	} else {
		d.selfCheck()
	}
	if err := d.evidence(confirmed, path); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.o.prop, k.what)
	}
	for _, n := range d.notes {
		fmt.Println("note:", n)
	}
	fmt.Printf("%s %s: %d runs, %d non-trivial, %d distinct schedules, %d distinct executions, %.1fs\n", d.o.prop, d.o.tier, d.runs, d.nontrivial, len(d.sched), len(d.digest), time.Since(d.start).Seconds())
	if confirmed != nil {
		fmt.Printf("class: %s\n%s\n", confirmed.Class, clip(confirmed.Message, 2500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.o.prop, path)
		return 1
	}
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// selfCheck repeats the first runs in a fresh process: every digest must agree.
func (d *driver) selfCheck() {
	n := min(20, d.o.runs)
	runProc(runWatchdog, func(line string) {
		var x record
		if strings.HasPrefix(line, "D ") && json.Unmarshal([]byte(line[2:]), &x) == nil {
			if h, ok := d.hashes[x.I]; ok {
				d.rerun++
				if h != x.Hash {
					d.rerunDiff++
				}
			}
		}
	}, "worker", d.o.prop, fmt.Sprint(d.o.seed), "0", fmt.Sprint(n))
}

// ---- confirming and shrinking ----

var scratchSeq struct {
	sync.Mutex
	n int
}

func scratchDir() string { return filepath.Dir(os.Args[0]) }

// try executes scenarios in a fresh process.
func try(rp *Replay, scs []*Scenario, limit time.Duration) (verdict, string, bool) {
	scratchSeq.Lock()
	scratchSeq.n++
	f := filepath.Join(scratchDir(), fmt.Sprintf("cand-%d-%d.json", os.Getpid(), scratchSeq.n))
	scratchSeq.Unlock()
	c := *rp
	c.Scenarios = scs
	b, err := json.Marshal(&c)
	if err != nil {
		return verdict{}, "", false
	}
	os.WriteFile(f, b, 0644)
	defer os.Remove(f)
	r := runProc(limit, nil, "exec", f)
	var v verdict
	for _, l := range r.lines {
		if strings.HasPrefix(l, "V ") && json.Unmarshal([]byte(l[2:]), &v) == nil {
			return v, r.stderr, true
		}
	}
	if r.hung {
		return verdict{Class: "hang", Msg: "no progress"}, r.stderr, true
	}
	return verdict{Class: "crash", Msg: crashText(r)}, r.stderr, true
}

var digits = regexp.MustCompile(`[0-9]+`)

// signature says when two failures count as the same while shrinking.
func signature(class, msg string) string {
	switch class {
	case "panic":
		lines := strings.Split(msg, "\n")
		first := lines[0]
		if i := strings.Index(first, "panic: "); i >= 0 {
			first = first[i:]
		}
		s := class + " " + digits.ReplaceAllString(first, "#")
		for _, l := range lines[1:] {
			if i := strings.Index(l, "/leaves@"); i >= 0 && strings.Contains(l, ".go:") {
				l = l[i:]
				if j := strings.Index(l, " +"); j > 0 {
					l = l[:j]
				}
				return s + " " + l
			}
		}
		return s
	case "crash":
		if i := strings.Index(msg, "fatal error:"); i >= 0 {
			l, _, _ := strings.Cut(msg[i:], "\n")
			return class + " " + digits.ReplaceAllString(l, "#")
		}
		return class
	}
	return class
}

func (d *driver) build() string {
	if rt.RaceBuild {
		return "race"
	}
	return "plain"
}

// confirm reproduces a violation in a fresh process.
func (d *driver) confirm(v *violation) *Replay {
	rp := &Replay{Property: d.o.prop, Class: v.v.Class, Message: v.v.Msg, Seed: d.o.seed, Tier: d.o.tier, Index: v.v.I, Build: d.build(), Hash: v.v.Hash}
	sig := signature(v.v.Class, v.v.Msg)
	one := []*Scenario{genScenario(d.o.prop, d.o.seed, v.v.I)}
	got, stderr, _ := try(rp, one, runWatchdog)
	if signature(got.Class, got.Msg) == sig {
		rp.Scenarios, rp.Message, rp.Hash, rp.Detail = one, got.Msg, got.Hash, clip(stderr, 6000)
		return rp
	}
	// it may depend on what earlier runs left behind in package-level state
	var all []*Scenario
	for i := v.from; i <= v.v.I; i++ {
		all = append(all, genScenario(d.o.prop, d.o.seed, i))
	}
	got, stderr, _ = try(rp, all, runWatchdog)
	if signature(got.Class, got.Msg) == sig {
		rp.Scenarios, rp.Message, rp.Hash, rp.Detail = all, got.Msg, got.Hash, clip(stderr, 6000)
		rp.Note = "needs state that earlier executions of the same process leave behind"
		return rp
	}
	if v.v.Class == "hang" || v.v.Class == "crash" {
		return nil
	}
	// the oracle was violated, but by something the simulator does not control
	rp.Scenarios, rp.Detail = all, clip(v.detail, 6000)
	rp.Note = "observed once, not reproduced: the code under test depends on nondeterminism outside the simulator"
	return rp
}

func (d *driver) shrink(rp *Replay) {
	if strings.HasPrefix(rp.Note, "observed once") {
		return
	}
	sig := signature(rp.Class, rp.Message)
	end := time.Now().Add(25 * time.Second)
	limit := 10 * time.Second
	if rp.Class == "hang" {
		return
	}
	// fewer executions before the failing one
	last := rp.Scenarios[len(rp.Scenarios)-1]
	pre := rp.Scenarios[:len(rp.Scenarios)-1]
	for size := len(pre); size > 0 && len(pre) > 0 && time.Now().Before(end); {
		cut := false
		for at := 0; at < len(pre) && time.Now().Before(end); {
			cand := append(append([]*Scenario{}, pre[:at]...), pre[min(at+size, len(pre)):]...)
			if got, _, _ := try(rp, append(append([]*Scenario{}, cand...), last), limit); signature(got.Class, got.Msg) == sig {
				pre, cut = cand, true
			} else {
				at += size
			}
		}
		if !cut {
			size /= 2
		} else if size > len(pre) {
			size = len(pre)
		}
	}
	// a smaller workload
	s := newShrinker(rp, pre, last, sig, end.Add(-7*time.Second), limit)
	last = s.workload()
	// a smaller schedule: from the strategy to an explicit list of decisions
	scs := append(append([]*Scenario{}, pre...), last)
	got, stderr, _ := try(rp, scs, limit)
	if signature(got.Class, got.Msg) == sig && got.Class != "crash" {
		script := *last
		script.Sched.Strategy = rt.StratScript
		script.Sched.Script = got.Decisions
		scs2 := append(append([]*Scenario{}, pre...), &script)
		if g2, e2, _ := try(rp, scs2, limit); signature(g2.Class, g2.Msg) == sig {
			s.sc, s.end = &script, end
			last = s.schedule()
			scs = append(append([]*Scenario{}, pre...), last)
			got, stderr = g2, e2
		}
	}
	a, stderr, _ := try(rp, scs, runWatchdog)
	b, _, _ := try(rp, scs, runWatchdog)
	if signature(a.Class, a.Msg) == sig && a.Class == b.Class && a.Hash == b.Hash {
		rp.Scenarios, rp.Class, rp.Message, rp.Hash, rp.Detail = scs, a.Class, a.Msg, a.Hash, clip(stderr, 6000)
	} else if signature(a.Class, a.Msg) == sig {
		rp.Scenarios, rp.Message, rp.Hash, rp.Detail = scs, a.Msg, a.Hash, clip(stderr, 6000)
		rp.Note += " two replays differ in their digest"
	}
	_ = got
}

// replayFile executes a replay file twice and compares.
func replayFile(file string) int {
	rp, err := readReplay(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	a, stderr, _ := try(rp, rp.Scenarios, runWatchdog)
	b, _, _ := try(rp, rp.Scenarios, runWatchdog)
	fmt.Printf("recorded: class=%q digest=%x\nreplayed: class=%q digest=%x\nagain:    class=%q digest=%x\n", rp.Class, rp.Hash, a.Class, a.Hash, b.Class, b.Hash)
	if a.Class == "" {
		fmt.Println("no violation on this tree")
		return 0
	}
	fmt.Println(clip(a.Msg, 6000))
	if stderr != "" {
		fmt.Println(clip(stderr, 6000))
	}
	if signature(a.Class, a.Msg) == signature(rp.Class, rp.Message) && a.Hash == rp.Hash && b.Hash == a.Hash {
		fmt.Println("reproduced exactly")
	} else {
		fmt.Println("a violation, but not exactly the recorded one (the tree differs, or see the file's note)")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, file)
	return 1
}
