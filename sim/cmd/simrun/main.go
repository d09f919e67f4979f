//go:build go1.21

// simrun searches seeded simulated runs for violations of a property, minimises what it finds, and
// replays replay files.
//
//	simrun check  -prop C01 [-seed N] [-tier quick|thorough] [-runs N] [-secs N] [-evidence FILE] [-replays DIR]
//	simrun worker ...           (internal)
//	simrun replay FILE [-trace] (exit 1: the violation is reproduced, 0: it is not)
//	simrun show   -prop C01 -idx N [-seed N] [-trace]
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"time"

	"github.com/kitex-contrib/xds/verifsim/det"
	"github.com/kitex-contrib/xds/verifsim/world"
)

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	debug.SetGCPercent(400)
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "needsrace":
		fs := flag.NewFlagSet("needsrace", flag.ExitOnError)
		prop := fs.String("prop", "", "")
		fs.Parse(os.Args[2:])
		if budgets[*prop].quickRace == 0 {
			os.Exit(1)
		}
	case "worker":
		runtime.GOMAXPROCS(1)
		worker(os.Args[2:])
	case "replay":
		runtime.GOMAXPROCS(1)
		replay(os.Args[2:])
	case "show":
		runtime.GOMAXPROCS(1)
		show(os.Args[2:])
	case "survey":
		runtime.GOMAXPROCS(1)
		survey(os.Args[2:])
	case "hashes":
		runtime.GOMAXPROCS(1)
		hashes(os.Args[2:])
	default:
		usage()
	}
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: simrun check|replay|show ...")
	os.Exit(2)
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simrun: "+f+"\n", a...)
	os.Exit(2)
}

// Replay is a replay file: the plan with its recorded schedule, and what it shows.
type Replay struct {
	Property  string      `json:"property"`
	Violation world.Viol  `json:"violation"`
	Seed      int64       `json:"seed"` // of the search
	Index     int64       `json:"index"`
	Hash      string      `json:"trace_hash,omitempty"`
	Race      bool        `json:"race_build,omitempty"`
	Plan      *world.Plan `json:"plan"`
	History   []string    `json:"history,omitempty"`
}

func readReplay(path string) *Replay {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	r := &Replay{}
	if err := json.Unmarshal(b, r); err != nil {
		fatal("%s: %v", path, err)
	}
	return r
}

func replay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	trace := fs.Bool("trace", false, "print every scheduling step")
	quiet := fs.Bool("q", false, "print only the verdict")
	if len(args) == 0 {
		usage()
	}
	fs.Parse(args[1:])
	r := readReplay(args[0])
	watchdog(150*time.Second, func() {
		if r.Violation.Class == "hang" {
			fmt.Printf("REPRODUCED property=%s class=hang\n", r.Property)
			os.Exit(1)
		}
		fmt.Println("NOT REPRODUCED: the run does not end")
		os.Exit(2)
	})
	o := runPlan(r.Plan, *trace)
	if !*quiet {
		for _, l := range o.Res.Trace {
			fmt.Println(l)
		}
		printHistory(o)
	}
	for _, v := range o.Viols {
		if v.Prop == r.Property && v.Class == r.Violation.Class {
			h := fmt.Sprintf("%016x", o.Res.Hash)
			if r.Hash != "" && h != r.Hash && r.Violation.Class != "data-race" {
				fmt.Printf("DIFFERENT EXECUTION: trace hash %s, recorded %s\n", h, r.Hash)
			}
			fmt.Printf("REPRODUCED property=%s class=%s trace_hash=%s: %s\n", v.Prop, v.Class, h, v.Msg)
			os.Exit(1)
		}
	}
	fmt.Printf("NOT REPRODUCED: %d other violations\n", len(o.Viols))
}

func printHistory(o *world.Outcome) {
	for _, e := range o.H.Evs {
		fmt.Println(e)
	}
}

func show(args []string) {
	fs := flag.NewFlagSet("show", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Int64("seed", 1, "")
	idx := fs.Int64("idx", 0, "")
	trace := fs.Bool("trace", false, "")
	fs.Parse(args)
	p := world.Gen(*prop, *seed, *idx)
	b, _ := json.MarshalIndent(p, "", " ")
	fmt.Println(string(b))
	o := runPlan(p, *trace)
	for _, l := range o.Res.Trace {
		fmt.Println(l)
	}
	printHistory(o)
	fmt.Printf("steps=%d simtime=%v lag=%v tasks=%d switches=%d hash=%x fired=%v incon=%q\n", o.Res.Steps, o.Res.SimTime, o.Res.Lag, o.Res.Tasks, o.Res.Switches, o.Res.Hash, o.Fired, o.Incon)
	for _, v := range o.Viols {
		fmt.Printf("VIOL %s %s: %s\n", v.Prop, v.Class, v.Msg)
	}
}

// hashes prints the trace hash of a range of runs (determinism self-test).
func hashes(args []string) {
	fs := flag.NewFlagSet("hashes", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Int64("seed", 1, "")
	from := fs.Int64("from", 0, "")
	step := fs.Int64("step", 1, "")
	n := fs.Int64("n", 100, "")
	again := fs.Bool("again", false, "print the hash of the replay of each run")
	fs.Parse(args)
	for i := *from; i < *n; i += *step {
		p := world.Gen(*prop, *seed, i)
		full := &Replay{Plan: p.Clone()}
		o := runPlan(p, false)
		if *again { // through the replay file, with the recorded schedule
			recordSchedule(full, o)
			o = runPlan(full.Plan.Clone(), false)
		}
		fmt.Printf("%s %d %016x %d %d\n", *prop, i, o.Res.Hash, len(o.H.Evs), o.Res.SimTime)
	}
}

func watchdog(d time.Duration, fn func()) (stop func()) {
	t := time.AfterFunc(d, fn)
	return func() { t.Stop() }
}

func runPlan(p *world.Plan, trace bool) *world.Outcome {
	before := det.RaceErrors()
	o := world.Run(p, trace)
	if n := det.RaceErrors() - before; n > 0 {
		o.Viols = append([]world.Viol{{Prop: p.Prop, Class: "data-race", Msg: fmt.Sprintf("%d data races", n)}}, o.Viols...)
	}
	return o
}
