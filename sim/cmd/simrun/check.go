//go:build go1.21

package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/kitex-contrib/xds/verifsim/world"
)

// budget of a check: runs of the plain build, runs of the race-detector build.
type budget struct {
	quick, thorough         int64
	quickRace, thoroughRace int64
}

type totals struct {
	mu       sync.Mutex
	runs     int
	steps    int64
	sim      int64
	evs      int64
	looks    int64
	sw       int64
	incon    int
	trivial  int
	fired    map[string]int
	probes   map[string]int
	hashes   map[uint64]struct{}
	samples  []string
	found    []*msg
	raceRuns int
	errs     []string
}

func (t *totals) add(m *msg, race bool) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if race {
		t.raceRuns += m.Runs
	}
	t.runs += m.Runs
	t.steps += m.Steps
	t.sim += m.Sim
	t.evs += m.Evs
	t.looks += m.Looks
	t.sw += m.Switch
	t.incon += m.Incon
	t.trivial += m.Trivial
	for k, n := range m.Fired {
		t.fired[k] += n
	}
	for k, n := range m.Probes {
		t.probes[k] += n
	}
	for _, h := range m.Hashes {
		t.hashes[h] = struct{}{}
	}
	if m.Sample != "" && len(t.samples) < 2 {
		t.samples = append(t.samples, m.Sample)
	}
}

type checkArgs struct {
	prop, tier, out, replays, known, raceBin string
	seed, runs, raceRuns                     int64
	secs, workers                            int
}

func check(args []string) {
	var a checkArgs
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	fs.StringVar(&a.prop, "prop", "", "property")
	fs.StringVar(&a.tier, "tier", "quick", "quick or thorough")
	fs.Int64Var(&a.seed, "seed", 1, "seed of the search")
	fs.Int64Var(&a.runs, "runs", -1, "simulated runs (default: by tier)")
	fs.Int64Var(&a.raceRuns, "raceruns", -1, "simulated runs under the race detector")
	fs.IntVar(&a.secs, "secs", 0, "stop searching after this many seconds")
	fs.IntVar(&a.workers, "workers", 8, "")
	fs.StringVar(&a.out, "evidence", "", "evidence file to write")
	fs.StringVar(&a.replays, "replays", "/tmp", "directory for replay files")
	fs.StringVar(&a.known, "known", "", "known-findings file")
	fs.StringVar(&a.raceBin, "racebin", "", "simrun built with -race")
	fs.Parse(args)
	if world.Gen(a.prop, a.seed, 0) == nil {
		fatal("no check for property %q", a.prop)
	}
	start := time.Now()
	b := budgets[a.prop]
	if a.runs < 0 {
		a.runs = b.quick
		if a.tier == "thorough" {
			a.runs = b.thorough
		}
	}
	if a.raceRuns < 0 {
		a.raceRuns = b.quickRace
		if a.tier == "thorough" {
			a.raceRuns = b.thoroughRace
		}
	}
	if a.secs == 0 {
		a.secs = 200
		if a.tier == "thorough" {
			a.secs = 7200
		}
	}
	self, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	t := &totals{fired: map[string]int{}, probes: map[string]int{}, hashes: map[uint64]struct{}{}}
	det, detBad := selfTest(self, &a)
	if detBad != "" {
		t.errs = append(t.errs, detBad)
	}
	search(t, self, &a, a.runs, false)
	if len(t.found) == 0 && a.raceRuns > 0 && a.raceBin != "" {
		search(t, a.raceBin, &a, a.raceRuns, true)
	}
	violations := report(t, &a, self)
	writeEvidence(t, &a, start, violations, det)
	if violations > 0 {
		os.Exit(1)
	}
	if len(t.errs) > 0 {
		for _, e := range t.errs {
			fmt.Fprintln(os.Stderr, "simrun:", e)
		}
		os.Exit(2)
	}
	if t.runs == 0 || t.incon*2 > t.runs {
		fatal("%d of %d runs decided nothing", t.incon, t.runs)
	}
	for _, k := range loadKnown(a.known) {
		if k.prop == a.prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.prop, k.text)
		}
	}
	fmt.Printf("property=%s held on %d simulated runs (%d distinct interleavings, %s of simulated time, %d under the race detector) in %s\n",
		a.prop, t.runs, len(t.hashes), time.Duration(t.sim).Round(time.Second), t.raceRuns, time.Since(start).Round(time.Second))
}

// selfTest repeats some runs in two fresh processes: the same seed must be the same execution.
func selfTest(self string, a *checkArgs) (int, string) {
	n := "24"
	if a.tier == "thorough" {
		n = "200"
	}
	args := []string{"hashes", "-prop", a.prop, "-seed", fmt.Sprint(a.seed), "-n", n}
	type res struct {
		b   []byte
		err error
	}
	ch := make([]chan res, 2)
	for i := range ch {
		ch[i] = make(chan res, 1)
		i := i
		go func() {
			c := exec.Command(self, args...)
			if i == 1 { // there, the replays of the runs
				c.Args = append(c.Args, "-again")
				c.Env = append(os.Environ(), "GOGC=20")
			}
			b, err := c.Output()
			ch[i] <- res{b, err}
		}()
	}
	x, y := <-ch[0], <-ch[1]
	if x.err != nil || y.err != nil {
		return 0, "" // a crash: the search meets it again and reports it
	}
	if !bytes.Equal(x.b, y.b) {
		return 0, "the same seeds gave different executions in two processes"
	}
	return bytes.Count(x.b, []byte("\n")), ""
}

func search(t *totals, bin string, a *checkArgs, runs int64, race bool) {
	var wg sync.WaitGroup
	stop := make(chan struct{})
	var once sync.Once
	n := int64(a.workers)
	began := time.Now()
	for w := int64(0); w < n; w++ {
		wg.Add(1)
		go func(w int64) {
			defer wg.Done()
			from := w
			for {
				left := a.secs - int(time.Since(began).Seconds())
				if left <= 0 {
					return
				}
				next, again := runWorker(t, bin, a, left, from, n, runs, race, stop, func() { once.Do(func() { close(stop) }) })
				if !again {
					return
				}
				from = next
			}
		}(w)
	}
	wg.Wait()
}

// runWorker runs one worker process to its end. If it dies, the run it died in is repeated alone.
func runWorker(t *totals, bin string, a *checkArgs, secs int, from, step, to int64, race bool, stop chan struct{}, found func()) (int64, bool) {
	c := exec.Command(bin, "worker", "-prop", a.prop, "-seed", fmt.Sprint(a.seed), "-from", fmt.Sprint(from), "-step", fmt.Sprint(step),
		"-to", fmt.Sprint(to), "-secs", fmt.Sprint(secs), "-known", a.known, "-race="+strconv.FormatBool(race))
	var errb tail
	c.Stderr = &errb
	if race {
		c.Env = append(os.Environ(), "GORACE=exitcode=0 atexit_sleep_ms=0 history_size=3")
	}
	out, err := c.StdoutPipe()
	if err != nil {
		fatal("%v", err)
	}
	if err := c.Start(); err != nil {
		fatal("%v", err)
	}
	over := make(chan struct{})
	finding := false
	var mu sync.Mutex
	go func() {
		select {
		case <-stop:
			mu.Lock()
			f := finding
			mu.Unlock()
			if !f {
				c.Process.Kill()
			}
		case <-over:
		}
	}()
	last, done, more := from, false, int64(-1)
	sc := bufio.NewScanner(out)
	sc.Buffer(make([]byte, 1<<20), 1<<29)
	for sc.Scan() {
		m := &msg{}
		if json.Unmarshal(sc.Bytes(), m) != nil {
			continue
		}
		switch m.K {
		case "start":
			last = m.Idx
		case "stat":
			t.add(m, race)
			if m.Idx > last {
				last = m.Idx
			}
		case "found":
			if race {
				m.Replay.Violation.Msg += raceText(errb.String())
			}
			t.mu.Lock()
			t.found = append(t.found, m)
			t.mu.Unlock()
			mu.Lock()
			finding, done = true, true
			mu.Unlock()
			found()
		case "done":
			done = true
		case "more": // it has grown large
			more = m.Idx
		}
	}
	err = c.Wait()
	close(over)
	if done {
		return 0, false
	}
	if more >= 0 {
		return more, true
	}
	select {
	case <-stop:
		return 0, false
	default:
	}
	// the process died: find the run it died in
	for i := last; i <= last+40*step && i < to; i += step {
		if crash, text := crashes(bin, a, i, race); crash {
			p := world.Gen(a.prop, a.seed, i)
			r := &Replay{Property: a.prop, Seed: a.seed, Index: i, Plan: p, Race: race,
				Violation: world.Viol{Prop: a.prop, Class: "crash", Msg: "the process running the client dies: " + text}}
			t.mu.Lock()
			t.found = append(t.found, &msg{K: "found", Idx: i, Replay: r})
			t.mu.Unlock()
			found()
			return 0, false
		}
	}
	t.mu.Lock()
	t.errs = append(t.errs, fmt.Sprintf("worker died after run %d (%v): %s", last, err, errb.String()))
	t.mu.Unlock()
	return last + step, false
}

func crashes(bin string, a *checkArgs, i int64, race bool) (bool, string) {
	c := exec.Command(bin, "worker", "-prop", a.prop, "-seed", fmt.Sprint(a.seed), "-from", fmt.Sprint(i), "-step", "1", "-to", fmt.Sprint(i+1), "-shrink", "0")
	var errb tail
	c.Stderr = &errb
	out, err := c.Output()
	return err != nil && !bytes.Contains(out, []byte(`"k":"done"`)), errb.String()
}

// tail keeps the first and last part of a stream.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 60000 {
		t.b = append(append([]byte{}, t.b[:30000]...), t.b[len(t.b)-30000:]...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := string(t.b)
	if len(s) > 4000 {
		s = s[:2000] + "\n...\n" + s[len(s)-2000:]
	}
	return s
}

func raceText(s string) string {
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
		if j := strings.Index(s[10:], "=================="); j >= 0 {
			s = s[:j+10]
		}
		if len(s) > 3500 {
			s = s[:3500]
		}
		return "\n" + s
	}
	return ""
}

// report writes and verifies the replay files, and returns the number of violations.
func report(t *totals, a *checkArgs, self string) int {
	if len(t.found) == 0 {
		return 0
	}
	sort.Slice(t.found, func(i, j int) bool { return t.found[i].Idx < t.found[j].Idx })
	seen := map[string]bool{}
	n := 0
	for _, m := range t.found {
		r := m.Replay
		if r == nil {
			r = m.Full
		}
		if seen[r.Violation.Class] {
			continue
		}
		path := filepath.Join(a.replays, fmt.Sprintf("%s-%s-%d.json", a.prop, r.Violation.Class, r.Index))
		bin := self
		if r.Race {
			bin = a.raceBin
		}
		ok := writeReplay(path, r) && reproduces(bin, path, r)
		if ok && r.Race {
			shrinkRace(bin, path, r)
		}
		if !ok && m.Full != nil && m.Full != r {
			r = m.Full
			ok = writeReplay(path, r) && reproduces(bin, path, r)
		}
		if !ok {
			t.errs = append(t.errs, fmt.Sprintf("violation %s %s of run %d was not reproduced by its replay file %s: %s", a.prop, r.Violation.Class, r.Index, path, r.Violation.Msg))
			continue
		}
		n++
		seen[r.Violation.Class] = true
		fmt.Printf("VIOLATION property=%s replay=%s\n", a.prop, path)
		fmt.Printf("  class=%s seed=%d run=%d ops=%d schedule=%d\n  %s\n", r.Violation.Class, r.Seed, r.Index, len(r.Plan.Ops), len(r.Plan.Replay), strings.ReplaceAll(r.Violation.Msg, "\n", "\n  "))
	}
	return n
}

func writeReplay(path string, r *Replay) bool {
	os.MkdirAll(filepath.Dir(path), 0o755)
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		return false
	}
	return os.WriteFile(path, b, 0o644) == nil
}

func reproduces(bin, path string, r *Replay) bool {
	c := exec.Command(bin, "replay", path, "-q")
	if r.Race {
		c.Env = append(os.Environ(), "GORACE=exitcode=0 atexit_sleep_ms=0 history_size=3")
	}
	out, err := c.CombinedOutput()
	if r.Violation.Class == "crash" {
		return err != nil && !bytes.Contains(out, []byte("REPRODUCED"))
	}
	return bytes.Contains(out, []byte("\nREPRODUCED")) || bytes.HasPrefix(out, []byte("REPRODUCED"))
}

// shrinkRace minimises the operations of a data race, one process per attempt (the race detector
// reports a race once per process).
func shrinkRace(bin, path string, full *Replay) {
	until := time.Now().Add(60 * time.Second)
	best := *full
	tmp := path + ".tmp"
	defer os.Remove(tmp)
	try := func(p *world.Plan) bool {
		r := best
		r.Plan = p
		r.Hash = ""
		if writeReplay(tmp, &r) && reproduces(bin, tmp, &r) {
			best = r
			return true
		}
		return false
	}
	p := full.Plan.Clone()
	p.Replay, p.Replayed = nil, false
	if !try(p) {
		return
	}
	for chunk := len(best.Plan.Ops) / 2; chunk >= 1; chunk /= 2 {
		for at := 0; at < len(best.Plan.Ops) && time.Now().Before(until); {
			q := best.Plan.Clone()
			end := at + chunk
			if end > len(q.Ops) {
				end = len(q.Ops)
			}
			q.Ops = append(append([]world.Op{}, q.Ops[:at]...), q.Ops[end:]...)
			if !try(q) {
				at += chunk
			}
		}
	}
	writeReplay(path, &best)
	*full = best
}

func writeEvidence(t *totals, a *checkArgs, start time.Time, violations int, det int) {
	if a.out == "" {
		return
	}
	wall := time.Since(start).Seconds()
	per := func(n int) float64 { return float64(int64(float64(n)/wall*36000)) / 10 }
	info := infos[a.prop]
	cov := map[string]any{
		"evaluations": t.runs, "distinct_nontrivial": len(t.hashes),
		"rule":                                 "One evaluation is one simulated run of a plan generated from (property, seed, index): configuration, workload, control-plane script, faults and scheduling policy. Distinct: the hash over every scheduling step (task, operation, chosen case) of the run is new. Non-trivial: " + info.nontrivial,
		"samples":                              t.samples,
		"runs_and_seeds_per_hour":              per(t.runs),
		"simulated_time_s":                     float64(t.sim) / 1e9,
		"scheduling_steps":                     t.steps,
		"task_switches":                        t.sw,
		"history_events":                       t.evs,
		"lookups":                              t.looks,
		"faults_injected":                      t.fired,
		"inconclusive_runs":                    t.incon,
		"runs_under_race_detector":             t.raceRuns,
		"reached":                              t.probes,
		"determinism_recheck_runs":             det,
		"real_code":                            info.real,
		"stubs":                                info.stubs,
		"search_seed_range":                    fmt.Sprintf("index 0..%d of seed %d", a.runs-1, a.seed),
		"trivial_runs_not_counted_in_distinct": t.trivial,
	}
	ev := map[string]any{
		"property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": cov,
		"assumptions": info.assume, "wall_s": wall, "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(a.out), 0o755)
	if err := os.WriteFile(a.out, append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}
