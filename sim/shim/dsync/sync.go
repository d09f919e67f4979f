//go:build go1.21

// Package dsync stands in for package sync in instrumented code.
package dsync

import (
	real "sync"

	"github.com/kitex-contrib/xds/verifsim/det"
)

type Locker = real.Locker

// Mutex is a sync.Mutex whose acquisition is a scheduling decision.
type Mutex struct {
	mu real.Mutex
	st det.LockState
}

//go:norace
func (m *Mutex) Lock() {
	if t := det.Cur(); t != nil {
		if !t.Op(det.OpLock, &m.st) {
			return
		}
	} else {
		m.st.Writer = true
	}
	m.mu.Lock()
}

//go:norace
func (m *Mutex) TryLock() bool {
	t := det.Cur()
	if t != nil {
		if t.Unwinding() {
			return true
		}
		det.Yield()
	}
	if m.st.Writer {
		return false
	}
	m.st.Writer = true
	m.mu.Lock()
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	t := det.Cur()
	if t != nil && t.Unwinding() {
		return
	}
	if !m.st.Writer {
		panic("sync: unlock of unlocked mutex")
	}
	m.mu.Unlock()
	m.st.Writer = false
	if t != nil {
		t.Op(det.OpUnlocked, nil)
	}
}

// RWMutex is a sync.RWMutex whose acquisition is a scheduling decision. As in package sync, an
// announced writer keeps new readers out.
type RWMutex struct {
	mu real.RWMutex
	st det.LockState
}

//go:norace
func (m *RWMutex) Lock() {
	if t := det.Cur(); t != nil {
		if !t.Op(det.OpWAnnounce, &m.st) || !t.Op(det.OpWLock, &m.st) {
			return
		}
	} else {
		m.st.Writer, m.st.Pending = true, true
	}
	m.mu.Lock()
}

//go:norace
func (m *RWMutex) TryLock() bool {
	t := det.Cur()
	if t != nil {
		if t.Unwinding() {
			return true
		}
		det.Yield()
	}
	if m.st.Writer || m.st.Pending || m.st.Readers > 0 {
		return false
	}
	m.st.Writer, m.st.Pending = true, true
	m.mu.Lock()
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	t := det.Cur()
	if t != nil && t.Unwinding() {
		return
	}
	if !m.st.Writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.mu.Unlock()
	m.st.Writer, m.st.Pending = false, false
	if t != nil {
		t.Op(det.OpUnlocked, nil)
	}
}

//go:norace
func (m *RWMutex) RLock() {
	if t := det.Cur(); t != nil {
		if !t.Op(det.OpRLock, &m.st) {
			return
		}
	} else {
		m.st.Readers++
	}
	m.mu.RLock()
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	t := det.Cur()
	if t != nil {
		if t.Unwinding() {
			return true
		}
		det.Yield()
	}
	if m.st.Writer || m.st.Pending {
		return false
	}
	m.st.Readers++
	m.mu.RLock()
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	t := det.Cur()
	if t != nil && t.Unwinding() {
		return
	}
	if m.st.Readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.mu.RUnlock()
	m.st.Readers--
	if t != nil {
		t.Op(det.OpUnlocked, nil)
	}
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once is a sync.Once over the simulated mutex.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// WaitGroup is a sync.WaitGroup; Wait is a scheduling decision.
type WaitGroup struct {
	wg real.WaitGroup
	n  int
}

//go:norace
func (w *WaitGroup) Add(d int) {
	t := det.Cur()
	if t != nil && t.Unwinding() {
		return
	}
	w.n += d
	w.wg.Add(d)
	if t != nil {
		det.Yield()
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Ready() bool { return w.n <= 0 }

func (w *WaitGroup) Wait() {
	if t := det.Cur(); t != nil {
		if t.Unwinding() {
			return
		}
		det.Block(w)
	}
	w.wg.Wait()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	det.Go(func() {
		defer w.Done()
		f()
	})
}

type condWait struct{ set bool }

//go:norace
func (c *condWait) Ready() bool { return c.set }

// Cond is a sync.Cond under the scheduler.
type Cond struct {
	L  Locker
	q  []*condWait
	mu real.Mutex
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	w := &condWait{}
	c.mu.Lock()
	c.q = append(c.q, w)
	c.mu.Unlock()
	c.L.Unlock()
	det.Block(w)
	c.mu.Lock()
	c.mu.Unlock()
	c.L.Lock()
}

func (c *Cond) Signal() {
	c.mu.Lock()
	if len(c.q) > 0 {
		c.q[0].raise()
		c.q = c.q[1:]
	}
	c.mu.Unlock()
	det.Yield()
}

func (c *Cond) Broadcast() {
	c.mu.Lock()
	for _, w := range c.q {
		w.raise()
	}
	c.q = nil
	c.mu.Unlock()
	det.Yield()
}

//go:norace
func (c *condWait) raise() { c.set = true }

// Pool is a deterministic sync.Pool: last in, first out.
type Pool struct {
	New func() any
	mu  real.Mutex
	q   []any
}

func (p *Pool) Get() any {
	det.Yield()
	p.mu.Lock()
	if n := len(p.q); n > 0 {
		x := p.q[n-1]
		p.q = p.q[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	p.mu.Lock()
	p.q = append(p.q, x)
	p.mu.Unlock()
	det.Yield()
}

// Map is a sync.Map with a scheduling point in front of every operation and a simulated order of
// iteration.
type Map struct{ m real.Map }

func (m *Map) Load(k any) (any, bool)           { det.AtomicPoint(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { det.AtomicPoint(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { det.AtomicPoint(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { det.AtomicPoint(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { det.AtomicPoint(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { det.AtomicPoint(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { det.AtomicPoint(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { det.AtomicPoint(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Clear() {
	det.AtomicPoint()
	m.m.Range(func(k, _ any) bool { m.m.Delete(k); return true })
}

func (m *Map) Range(f func(k, v any) bool) {
	det.AtomicPoint()
	snap := map[any]struct{}{}
	m.m.Range(func(k, v any) bool { snap[k] = struct{}{}; return true })
	for _, k := range det.Keys(snap) {
		det.AtomicPoint()
		if v, ok := m.m.Load(k); ok {
			if !f(k, v) {
				return
			}
		}
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}
