//go:build go1.21

// Package dcontext stands in for package context in instrumented code: deadlines are virtual and
// cancelling is a scheduling point.
package dcontext

import (
	real "context"
	"sync"
	"time"

	"github.com/kitex-contrib/xds/verifsim/det"
)

func WithCancel(parent real.Context) (real.Context, real.CancelFunc) {
	c, f := real.WithCancel(parent)
	return c, func() { det.Yield(); f() }
}

func WithCancelCause(parent real.Context) (real.Context, real.CancelCauseFunc) {
	c, f := real.WithCancelCause(parent)
	return c, func(e error) { det.Yield(); f(e) }
}

func WithTimeout(parent real.Context, d time.Duration) (real.Context, real.CancelFunc) {
	return WithDeadline(parent, det.Now().Add(d))
}

func WithTimeoutCause(parent real.Context, d time.Duration, cause error) (real.Context, real.CancelFunc) {
	return WithDeadlineCause(parent, det.Now().Add(d), cause)
}

func WithDeadline(parent real.Context, t time.Time) (real.Context, real.CancelFunc) {
	return WithDeadlineCause(parent, t, nil)
}

// deadlineCtx is a cancel context whose deadline is virtual.
type deadlineCtx struct {
	real.Context
	t       time.Time
	mu      sync.Mutex
	expired bool
}

func (c *deadlineCtx) Deadline() (time.Time, bool) { return c.t, true }

func (c *deadlineCtx) Err() error {
	err := c.Context.Err()
	if err == nil {
		return nil
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.expired {
		return real.DeadlineExceeded
	}
	return err
}

func WithDeadlineCause(parent real.Context, t time.Time, cause error) (real.Context, real.CancelFunc) {
	if pt, ok := parent.Deadline(); ok && pt.Before(t) {
		return WithCancel(parent)
	}
	in, cancel := real.WithCancelCause(parent)
	c := &deadlineCtx{Context: in, t: t}
	if cause == nil {
		cause = real.DeadlineExceeded
	}
	expire := func() {
		c.mu.Lock()
		if in.Err() == nil {
			c.expired = true
		}
		c.mu.Unlock()
		cancel(cause)
	}
	d := t.Sub(det.Now())
	if d <= 0 {
		expire()
		return c, func() {}
	}
	h := det.AddUserTimer(d, expire)
	return c, func() {
		det.Yield()
		h.Stop()
		cancel(real.Canceled)
	}
}

func AfterFunc(ctx real.Context, f func()) func() bool {
	var mu sync.Mutex
	state := 0 // 1 started, 2 stopped
	stopCh := make(chan struct{})
	det.Go(func() {
		x := det.Select(false, det.RecvCase(ctx.Done()), det.RecvCase((<-chan struct{})(stopCh)))
		x.Done()
		mu.Lock()
		if x.I != 0 || state != 0 {
			mu.Unlock()
			return
		}
		state = 1
		mu.Unlock()
		f()
	})
	return func() bool {
		det.Yield()
		mu.Lock()
		defer mu.Unlock()
		if state != 0 {
			return false
		}
		state = 2
		close(stopCh)
		return true
	}
}
