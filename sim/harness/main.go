package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"syscall"

	"zsim/rt"
)

// Modes:
//
//	worker PROP SEED FROM TO   run scenarios FROM..TO-1, stop at the first violation
//	exec FILE                  run the scenarios of a replay file in order, report the last
//	drive ...                  search, shrink, report, write evidence (see drive.go)
//	replay FILE                exec twice in fresh processes and compare with the file
//	gen PROP SEED I            print scenario I
func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: worker|exec|drive|replay|gen ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		guardProcess()
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		from, _ := strconv.Atoi(os.Args[4])
		to, _ := strconv.Atoi(os.Args[5])
		worker(os.Args[2], seed, from, to)
	case "exec":
		guardProcess()
		execFile(os.Args[2])
	case "drive":
		drive(os.Args[2:])
	case "replay":
		os.Exit(replayFile(os.Args[2]))
	case "gen":
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		i, _ := strconv.Atoi(os.Args[4])
		b, _ := json.MarshalIndent(genScenario(os.Args[2], seed, i), "", " ")
		fmt.Println(string(b))
	default:
		fmt.Fprintln(os.Stderr, "unknown mode", os.Args[1])
		os.Exit(2)
	}
}

// guardProcess bounds what a run may take from the machine.
func guardProcess() {
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(128 << 20)
	if !rt.RaceBuild {
		lim := syscall.Rlimit{Cur: 4 << 30, Max: 4 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	nocore := syscall.Rlimit{}
	syscall.Setrlimit(syscall.RLIMIT_CORE, &nocore)
}

// record is what a worker says about one finished run.
type record struct {
	I                                 int
	Hash, SchedHash                   uint64
	Steps, Switches, Preempts, Stalls int64
	SimTime                           int64
	Spawned                           int
	NonTrivial                        bool
}

// verdict is what a worker says about a violation.
type verdict struct {
	I         int
	Class     string
	Msg       string
	Hash      uint64
	SchedHash uint64
	Decisions []rt.Decision `json:",omitempty"`
}

func recordOf(i int, o *Outcome) record {
	return record{i, o.Hash, o.SchedHash, o.Steps, o.Switches, o.Preempts, o.Stalls, o.SimTime, o.Spawned, o.NonTrivial}
}

func worker(id string, seed uint64, from, to int) {
	w := bufio.NewWriter(os.Stdout)
	say := func(tag string, v any) {
		b, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		w.WriteString(tag)
		w.WriteByte(' ')
		w.Write(b)
		w.WriteByte('\n')
	}
	for i := from; i < to; i++ {
		say("R", i)
		w.Flush()
		o := runScenario(genScenario(id, seed, i))
		if o.Class != "" {
			say("V", verdict{i, o.Class, o.Msg, o.Hash, o.SchedHash, o.Decisions})
			break
		}
		say("D", recordOf(i, o))
	}
	say("C", counters[:])
	w.Flush()
	os.Exit(0)
}

// Replay is a replay file.
type Replay struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Message  string `json:"message"`
	Seed     uint64 `json:"seed"`
	Tier     string `json:"tier"`
	Index    int    `json:"index"`
	Build    string `json:"build"`
	Hash     uint64 `json:"hash"`
	Note     string `json:"note,omitempty"`
	Detail   string `json:"detail,omitempty"`
	// scenarios to execute in order in one process; the last one violates
	Scenarios []*Scenario `json:"scenarios"`
}

func readReplay(file string) (*Replay, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	r := &Replay{}
	if err := json.Unmarshal(b, r); err != nil {
		return nil, err
	}
	if len(r.Scenarios) == 0 {
		return nil, fmt.Errorf("no scenarios in %s", file)
	}
	for _, s := range r.Scenarios {
		if props[s.Prop] == nil {
			return nil, fmt.Errorf("unknown property %q", s.Prop)
		}
	}
	return r, nil
}

func execFile(file string) {
	r, err := readReplay(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var o *Outcome
	for _, s := range r.Scenarios {
		o = runScenario(s)
	}
	b, _ := json.Marshal(verdict{r.Index, o.Class, o.Msg, o.Hash, o.SchedHash, o.Decisions})
	fmt.Printf("V %s\n", b)
	os.Exit(0)
}
