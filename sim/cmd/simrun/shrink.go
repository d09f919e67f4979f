//go:build go1.21

package main

import (
	"fmt"
	"time"

	"github.com/kitex-contrib/xds/verifsim/world"
)

type shrinker struct {
	prop, class string
	until       time.Time
	best        *world.Plan
	viol        world.Viol
	out         *world.Outcome
	runs        int
}

// try runs a plan; if it shows a violation of the same class, it becomes the best one.
func (s *shrinker) try(p *world.Plan) bool {
	if time.Now().After(s.until) {
		return false
	}
	s.runs++
	o := runPlan(p.Clone(), false)
	for _, v := range o.Viols {
		if v.Prop == s.prop && v.Class == s.class {
			s.best, s.viol, s.out = p, v, o
			return true
		}
	}
	return false
}

// tries runs a plan under its own schedule and some others.
func (s *shrinker) tries(p *world.Plan) bool {
	for k := int64(0); k < 4; k++ {
		q := p.Clone()
		q.Seed += k
		if s.try(q) {
			return true
		}
	}
	return false
}

func minimise(full *Replay, limit time.Duration) *Replay {
	s := &shrinker{prop: full.Property, class: full.Violation.Class, until: time.Now().Add(limit)}
	p := full.Plan.Clone()
	p.Replayed, p.Replay = false, nil
	if !s.try(p) {
		// the schedule is drawn from the seed: this cannot happen unless the run is not deterministic
		return full
	}
	// operations
	s.list(func(p *world.Plan) *[]world.Op { return &p.Ops })
	s.list(func(p *world.Plan) *[]world.Op { return &p.Boot })
	s.config()
	s.list(func(p *world.Plan) *[]world.Op { return &p.Ops })
	s.list(func(p *world.Plan) *[]world.Op { return &p.Boot })
	// schedule: fall back to "no switch" wherever possible
	q := s.best.Clone()
	q.Replayed, q.Replay = true, append([]int32{}, s.out.Res.Choices...)
	if s.try(q) {
		s.schedule()
	}
	r := &Replay{Property: full.Property, Seed: full.Seed, Index: full.Index, Plan: s.best, Violation: s.viol}
	o := runPlan(s.best.Clone(), false)
	r.Hash = fmt.Sprintf("%016x", o.Res.Hash)
	if !r.Plan.Replayed {
		recordSchedule(r, o)
	}
	for _, e := range o.H.Evs {
		r.History = append(r.History, e.String())
	}
	return r
}

// list removes elements of a list of operations, in chunks of falling size.
func (s *shrinker) list(of func(*world.Plan) *[]world.Op) {
	for chunk := len(*of(s.best)) / 2; chunk >= 1; chunk /= 2 {
		for at := 0; at < len(*of(s.best)); {
			q := s.best.Clone()
			l := of(q)
			end := at + chunk
			if end > len(*l) {
				end = len(*l)
			}
			*l = append(append([]world.Op{}, (*l)[:at]...), (*l)[end:]...)
			if !s.tries(q) {
				at += chunk
			}
			if time.Now().After(s.until) {
				return
			}
		}
	}
}

func (s *shrinker) config() {
	edits := []func(*world.Plan){
		func(p *world.Plan) { p.Cfg.Handlers = 0 },
		func(p *world.Plan) { p.Pol.Lag, p.Pol.LagMax, p.Pol.LagCap = 0, 0, 0 },
		func(p *world.Plan) { p.Cfg.ProcMax = 0 },
		func(p *world.Plan) { p.Cfg.NetMax = 0 },
		func(p *world.Plan) { p.Cfg.Tail = 0 },
		func(p *world.Plan) { p.Cfg.Strict = false },
		func(p *world.Plan) { p.Cfg.DropInbox = false },
		func(p *world.Plan) { p.Cfg.NoFinal = true },
		func(p *world.Plan) { p.Pol.Kind, p.Pol.Stick = "sticky", 0.97 },
	}
	for _, e := range edits {
		q := s.best.Clone()
		e(q)
		if s.eq(q) {
			continue
		}
		if !q.Cfg.Conc && q.Cfg.ProcMax == 0 && s.best.Cfg.ProcMax != 0 || !q.Cfg.Conc && q.Cfg.NetMax == 0 && s.best.Cfg.NetMax != 0 {
			continue
		}
		s.tries(q)
	}
}

func (s *shrinker) eq(q *world.Plan) bool {
	return fmt.Sprint(q.Cfg, q.Pol) == fmt.Sprint(s.best.Cfg, s.best.Pol)
}

// schedule zeroes recorded choices in chunks.
func (s *shrinker) schedule() {
	n := len(s.best.Replay)
	// tail first
	for k := 0; k < n; {
		q := s.best.Clone()
		m := len(q.Replay) / 2
		q.Replay = q.Replay[:m]
		if m == len(s.best.Replay) || !s.try(q) {
			break
		}
		k++
	}
	for chunk := len(s.best.Replay) / 2; chunk >= 1; chunk /= 2 {
		for at := 0; at < len(s.best.Replay); at += chunk {
			q := s.best.Clone()
			some := false
			for i := at; i < at+chunk && i < len(q.Replay); i++ {
				if q.Replay[i] != 0 {
					q.Replay[i], some = 0, true
				}
			}
			if some {
				s.try(q)
			}
			if time.Now().After(s.until) {
				return
			}
		}
	}
	q := s.best.Clone()
	for len(q.Replay) > 0 && q.Replay[len(q.Replay)-1] == 0 {
		q.Replay = q.Replay[:len(q.Replay)-1]
	}
	s.try(q)
}
