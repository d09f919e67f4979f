//go:build go1.21

// Package dtime stands in for package time in instrumented code: clock, timers and tickers are
// virtual. The rest of the package is re-exported (see the generated file).
package dtime

import (
	real "time"

	"github.com/kitex-contrib/xds/verifsim/det"
)

func Now() real.Time                         { return det.Now() }
func Since(t real.Time) real.Duration        { return det.Now().Sub(t) }
func Until(t real.Time) real.Duration        { return t.Sub(det.Now()) }
func Sleep(d real.Duration)                  { det.Sleep(d) }
func After(d real.Duration) <-chan real.Time { return NewTimer(d).C }
func Tick(d real.Duration) <-chan real.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// Timer is a virtual time.Timer.
type Timer struct {
	C <-chan real.Time
	c chan real.Time
	f func()
	h *det.TimerHandle
}

//go:norace
func (t *Timer) fire() {
	if t.f != nil {
		det.Go(t.f)
		return
	}
	select {
	case t.c <- det.Now():
	default:
	}
}

//go:norace
func NewTimer(d real.Duration) *Timer {
	c := make(chan real.Time, 1)
	t := &Timer{C: c, c: c}
	t.h = det.AddUserTimer(d, t.fire)
	return t
}

//go:norace
func AfterFunc(d real.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.h = det.AddUserTimer(d, t.fire)
	return t
}

//go:norace
func (t *Timer) Stop() bool {
	det.Yield()
	return t.h.Stop()
}

//go:norace
func (t *Timer) Reset(d real.Duration) bool {
	det.Yield()
	was := t.h.Stop()
	t.h = det.AddUserTimer(d, t.fire)
	return was
}

// Ticker is a virtual time.Ticker.
type Ticker struct {
	C <-chan real.Time
	c chan real.Time
	d real.Duration
	h *det.TimerHandle
}

//go:norace
func NewTicker(d real.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan real.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.h = det.AddUserTimer(d, t.fire)
	return t
}

//go:norace
func (t *Ticker) fire() {
	select {
	case t.c <- det.Now():
	default:
	}
	t.h = det.AddUserTimer(t.d, t.fire)
}

//go:norace
func (t *Ticker) Stop() { t.h.Stop() }

//go:norace
func (t *Ticker) Reset(d real.Duration) {
	t.h.Stop()
	t.d = d
	t.h = det.AddUserTimer(d, t.fire)
}
