//go:build go1.21

package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"time"

	"github.com/kitex-contrib/xds/verifsim/world"
)

// msg is one line from a worker to its parent.
type msg struct {
	K       string         `json:"k"` // start | stat | found | done
	Idx     int64          `json:"i"`
	Runs    int            `json:"runs,omitempty"`
	Steps   int64          `json:"steps,omitempty"`
	Sim     int64          `json:"sim,omitempty"`
	Evs     int64          `json:"evs,omitempty"`
	Looks   int64          `json:"looks,omitempty"`
	Incon   int            `json:"incon,omitempty"`
	Switch  int64          `json:"sw,omitempty"`
	Fired   map[string]int `json:"fired,omitempty"`
	Probes  map[string]int `json:"probes,omitempty"`
	Hashes  []uint64       `json:"hashes,omitempty"`
	Replay  *Replay        `json:"replay,omitempty"`
	Full    *Replay        `json:"full,omitempty"` // not minimised
	Sample  string         `json:"sample,omitempty"`
	Trivial int            `json:"trivial,omitempty"`
}

// grown: the Kitex parts under test keep something of every run, a worker is replaced before it gets large.
func grown() bool {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	lim := uint64(1200 << 20)
	if s := os.Getenv("VERIF_WORKER_MB"); s != "" { // to try it out
		n, _ := strconv.Atoi(s)
		lim = uint64(n) << 20
	}
	return ms.Sys > lim
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Int64("seed", 1, "")
	from := fs.Int64("from", 0, "")
	step := fs.Int64("step", 1, "")
	to := fs.Int64("to", 100, "")
	secs := fs.Int("secs", 60, "")
	race := fs.Bool("race", false, "")
	known := fs.String("known", "", "")
	keep := fs.Bool("keep", false, "go on after a violation")
	shrinkS := fs.Int("shrink", 60, "")
	fs.Parse(args)
	kn := loadKnown(*known)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	send := func(m *msg) {
		enc.Encode(m)
		out.Flush()
	}
	deadline := time.Now().Add(time.Duration(*secs) * time.Second)
	st := &msg{K: "stat", Fired: map[string]int{}, Probes: map[string]int{}}
	flush := func() {
		send(st)
		st = &msg{K: "stat", Fired: map[string]int{}, Probes: map[string]int{}}
	}
	lastBeat := time.Now()
	for i := *from; i < *to; i += *step {
		if time.Now().After(deadline) {
			break
		}
		if n := (i - *from) / *step; n > 0 && n%500 == 0 && grown() {
			flush()
			send(&msg{K: "more", Idx: i})
			return
		}
		if time.Since(lastBeat) > 200*time.Millisecond || *race {
			send(&msg{K: "start", Idx: i})
			lastBeat = time.Now()
		}
		p := world.Gen(*prop, *seed, i)
		idx := i
		stop := watchdog(120*time.Second, func() {
			fmt.Fprintf(os.Stderr, "run %d does not end\n", idx)
			b, _ := json.Marshal(&msg{K: "found", Idx: idx, Replay: &Replay{Property: *prop, Seed: *seed, Index: idx, Plan: p,
				Violation: world.Viol{Prop: *prop, Class: "hang", Msg: "the run does not end: the code under test spins without ever waiting"}}})
			os.Stdout.Write(append(b, '\n'))
			os.Exit(0)
		})
		q := p
		if *race {
			q = p.Clone()
		}
		o := runPlan(q, false)
		stop()
		st.Idx = i
		st.Runs++
		st.Steps += int64(o.Res.Steps)
		st.Sim += int64(o.Res.SimTime)
		st.Evs += int64(len(o.H.Evs))
		st.Looks += int64(len(o.H.Lookups))
		st.Switch += int64(o.Res.Switches)
		if o.Incon != "" {
			st.Incon++
		}
		if o.Trivial {
			st.Trivial++
		} else {
			st.Hashes = append(st.Hashes, o.Res.Hash)
		}
		for f, n := range o.Fired {
			st.Fired[f] += n
		}
		for f, n := range o.H.Probes {
			st.Probes[f] += n
		}
		if i < 3 {
			st.Sample = sampleOf(p, o)
		}
		v := o.Viols
		for len(v) > 0 && kn.match(v[0]) != "" {
			st.Probes["known:"+kn.match(v[0])]++
			v = v[1:]
		}
		if len(v) > 0 {
			flush()
			full := &Replay{Property: *prop, Seed: *seed, Index: i, Plan: p.Clone(), Violation: v[0], Race: *race}
			recordSchedule(full, o)
			m := &msg{K: "found", Idx: i, Full: full}
			if !*race {
				m.Replay = minimise(full, time.Duration(*shrinkS)*time.Second)
			} else {
				m.Replay = full
			}
			send(m)
			if !*keep {
				return
			}
		}
		if st.Runs >= 200 {
			flush()
		}
	}
	flush()
	send(&msg{K: "done"})
}

func sampleOf(p *world.Plan, o *world.Outcome) string {
	b, _ := json.Marshal(p)
	s := string(b)
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return fmt.Sprintf("plan %s => %d steps, %d history events, %s simulated, %d violations", s, o.Res.Steps, len(o.H.Evs), o.Res.SimTime, len(o.Viols))
}

func recordSchedule(r *Replay, o *world.Outcome) {
	r.Plan.Replay = append([]int32{}, o.Res.Choices...)
	r.Plan.Replayed = true
	r.Hash = fmt.Sprintf("%016x", o.Res.Hash)
}
