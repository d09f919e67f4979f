//go:build go1.21

package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"sort"
	"time"

	"github.com/kitex-contrib/xds/verifsim/world"
)

// survey runs a range of plans and counts violations by class (development aid).
func survey(args []string) {
	fs := flag.NewFlagSet("survey", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Int64("seed", 1, "")
	from := fs.Int64("from", 0, "")
	n := fs.Int64("n", 1000, "")
	secs := fs.Int("secs", 60, "")
	prof := fs.String("prof", "", "")
	mprof := fs.String("memprof", "", "heap profile")
	fs.Parse(args)
	if *mprof != "" {
		defer func() {
			runtime.GC()
			f, _ := os.Create(*mprof)
			pprof.WriteHeapProfile(f)
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			fmt.Printf("goroutines=%d heap=%dM sys=%dM heapsys=%dM stack=%dM other=%dM\n", runtime.NumGoroutine(), ms.HeapInuse>>20, ms.Sys>>20, ms.HeapSys>>20, ms.StackSys>>20, ms.OtherSys>>20)
			f.Close()
		}()
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	type cl struct {
		n     int
		first int64
		msg   string
	}
	cs := map[string]*cl{}
	start := time.Now()
	runs, steps, incon, triv := 0, 0, 0, 0
	probes, fired := map[string]int{}, map[string]int{}
	hs := map[uint64]bool{}
	var worst time.Duration
	var worstI int64
	for i := *from; i < *from+*n && time.Since(start) < time.Duration(*secs)*time.Second; i++ {
		t0 := time.Now()
		o := runPlan(world.Gen(*prop, *seed, i), false)
		if d := time.Since(t0); d > worst {
			worst, worstI = d, i
		}
		runs++
		steps += o.Res.Steps
		hs[o.Res.Hash] = true
		if o.Incon != "" {
			incon++
		}
		if o.Trivial {
			triv++
		}
		for k, v := range o.H.Probes {
			probes[k] += v
		}
		for k, v := range o.Fired {
			fired[k] += v
		}
		seen := map[string]bool{}
		for _, v := range o.Viols {
			if seen[v.Class] {
				continue
			}
			seen[v.Class] = true
			c := cs[v.Class]
			if c == nil {
				c = &cl{first: i, msg: v.Msg}
				cs[v.Class] = c
			}
			c.n++
		}
	}
	el := time.Since(start)
	fmt.Printf("%s: %d runs %.0f/s steps/run=%d distinct=%d incon=%d trivial=%d worst=%v@%d probes=%v fired=%v\n", *prop, runs, float64(runs)/el.Seconds(), steps/max(runs, 1), len(hs), incon, triv, worst, worstI, probes, fired)
	var ks []string
	for k := range cs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c := cs[k]
		m := c.msg
		if len(m) > 400 {
			m = m[:400]
		}
		fmt.Printf("  %-22s %6d first=%d %s\n", k, c.n, c.first, m)
	}
}
