package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"
)

// knownFinding is an open finding: "finding: property=ID class=CLASS match=REGEX what...".
// Lines that start with "fixed:" are history and suppress nothing.
type knownFinding struct {
	class string
	re    *regexp.Regexp
	what  string
	seen  int
}

type knownFindings []*knownFinding

func loadKnown(file, prop string) knownFindings {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var ks knownFindings
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: property="+prop+" class=")
		if !ok {
			continue
		}
		class, rest, _ := strings.Cut(rest, " match=")
		re, what, _ := strings.Cut(rest, " ")
		ks = append(ks, &knownFinding{class: class, re: regexp.MustCompile(re), what: what})
	}
	return ks
}

func (ks knownFindings) match(r *Replay) *knownFinding {
	for _, k := range ks {
		if k.class == r.Class && k.re.MatchString(r.Message) {
			return k
		}
	}
	return nil
}

func (d *driver) evidence(v *Replay, path string) error {
	wall := time.Since(d.start).Seconds()
	faults, work := map[string]int64{}, map[string]int64{}
	for i, n := range d.counters {
		if n == 0 {
			continue
		}
		if name, ok := strings.CutPrefix(counterNames[i], "fault: "); ok {
			faults[name] = n
		} else {
			work[counterNames[i]] = n
		}
	}
	if d.rec.Stalls > 0 {
		faults["goroutine frozen by the scheduler"] = d.rec.Stalls
	}
	if d.rec.Preempts > 0 {
		faults["goroutine preempted between two statements"] = d.rec.Preempts
	}
	var samples []any
	budget := 120 << 10
	for _, i := range d.samples {
		sc := genScenario(d.o.prop, d.o.seed, i)
		b, err := json.Marshal(sc)
		if err != nil || len(b) > 12<<10 || len(b) > budget {
			continue
		}
		budget -= len(b)
		samples = append(samples, json.RawMessage(b))
		if len(samples) == 4 {
			break
		}
	}
	if len(samples) == 0 {
		b, _ := json.Marshal(genScenario(d.o.prop, d.o.seed, 0))
		samples = append(samples, clip(string(b), 100<<10))
	}
	measure := "sequence of goroutines scheduled and kinds of scheduling event"
	if d.p.byDigest {
		measure = "digest of the execution: schedule, sizes and errors delivered by readers, writers and the disk"
	}
	sw := d.searchWall.Seconds()
	if sw <= 0 {
		sw = wall
	}
	cov := map[string]any{
		"evaluations":         d.runs,
		"distinct_nontrivial": len(d.nontriv),
		"rule":                d.p.rule,
		"distinctness":        measure,
		"samples":             samples,

		"non_trivial_runs":           d.nontrivial,
		"distinct_schedules":         len(d.sched),
		"distinct_executions":        len(d.digest),
		"seeds_per_hour":             int64(float64(d.runs) / sw * 3600),
		"search_wall_s":              round(sw),
		"simulated_time_s":           round(float64(d.rec.SimTime) / 1e9),
		"statements_executed":        d.rec.Steps,
		"goroutine_switches":         d.rec.Switches,
		"goroutines_started":         d.rec.Spawned,
		"faults_injected":            faults,
		"work":                       work,
		"build":                      d.build(),
		"determinism_runs_repeated":  d.rerun,
		"determinism_digests_differ": d.rerunDiff,
		"real_components":            "all non-test packages of /repo (leaves, mat, transformation, util, internal/...), compiled from the working tree after source rewriting; Go standard library bufio, bytes, encoding/json, fmt, math, strconv",
		"stubbed_components":         "goroutine scheduler, channels, sync, sync/atomic, time, math/rand, runtime.GOMAXPROCS, os and io/ioutil files, readers and writers handed to the library",
	}
	if len(d.notes) > 0 {
		cov["notes"] = d.notes
	}
	ev := map[string]any{
		"property": d.o.prop, "tier": d.o.tier, "seed": d.o.seed, "level": "exploration",
		"coverage": cov, "wall_s": round(wall),
		"assumptions": []string{
			"preemption happens between statements, not inside one (a data race inside a statement is left to the happens-before build of C05 and C16)",
			"the simulated disk, readers and writers stand for what an operating system may do within the io and os contracts",
		},
	}
	if v != nil {
		ev["violations"] = 1
		cov["violation"] = map[string]any{"class": v.Class, "message": clip(v.Message, 4000), "run": v.Index, "replay": path}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(d.o.out, "evidence")
	if err := os.MkdirAll(dir, 0755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, d.o.prop+".json"), append(b, '\n'), 0644)
}

func round(x float64) float64 { return float64(int64(x*1000+0.5)) / 1000 }
