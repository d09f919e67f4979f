//go:build go1.21

// Package det is a deterministic scheduler for instrumented Go code.
//
// Every goroutine of the code under test is a task. One scheduler goroutine (the caller of Run,
// "G0") resumes exactly one task at a time; a task runs until its next synchronisation operation,
// where it posts the operation and parks. G0 then decides, from a seeded source, which enabled
// task goes on, or that a timer fires. Virtual time only moves by that decision.
//
// The hand-off between G0 and the tasks is hidden from the race detector (raceDisable around it,
// go:norace on the functions that touch shared bookkeeping), so that the happens-before relation
// the detector sees is only that of the code under test.
package det

import (
	"fmt"
	"math/rand"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

// OpKind is the kind of operation a task is parked at.
type OpKind uint8

const (
	OpStart OpKind = iota
	OpYield
	OpLock
	OpWAnnounce // RWMutex: writer announces itself
	OpWLock     // RWMutex: writer waits for the readers to leave
	OpRLock
	OpUnlocked
	OpAtomic
	OpSelect
	OpClose
	OpSpawn
	OpCond // harness: wait until Waiter.Ready
	OpIdle // harness: wait until nothing else can run at this instant
	OpPaired
	OpCall // run t.call in G0
	OpExit
)

var opNames = [...]string{"start", "yield", "lock", "wannounce", "wlock", "rlock", "unlocked", "atomic", "select", "close", "spawn", "cond", "idle", "paired", "call", "exit"}

func (k OpKind) String() string { return opNames[k] }

// LockState is the scheduler's view of a mutex. The shims embed one per lock.
type LockState struct {
	Writer  bool // held exclusively
	Pending bool // a writer has announced itself
	Readers int32
}

// Waiter is a harness-side condition a task can block on; Ready runs in G0.
type Waiter interface{ Ready() bool }

// Probe lets the scheduler look at a channel of any type.
type Probe interface {
	ptr() unsafe.Pointer
	length() int
	capacity() int
	drained() bool // closed and empty
}

type probe[T any] struct{ ch chan T }

//go:norace
func (p probe[T]) ptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&p.ch)) }

//go:norace
func (p probe[T]) length() int { return len(p.ch) }

//go:norace
func (p probe[T]) capacity() int { return cap(p.ch) }

//go:norace
func (p probe[T]) drained() bool {
	if p.ch == nil || len(p.ch) > 0 {
		return false
	}
	raceDisable()
	defer raceEnable()
	select {
	case _, ok := <-p.ch:
		if ok {
			panic("det: value received by probe (a goroutine outside the simulation sends)")
		}
		return true
	default:
		return false
	}
}

// Case is one case of a select.
type Case struct {
	p    Probe
	send bool
}

// RecvCase and SendCase describe the cases of a rewritten select statement.
//
//go:norace
func RecvCase[T any](ch <-chan T) Case {
	return Case{p: probe[T]{*(*chan T)(unsafe.Pointer(&ch))}}
}

//go:norace
func SendCase[T any](ch chan<- T) Case {
	return Case{p: probe[T]{*(*chan T)(unsafe.Pointer(&ch))}, send: true}
}

// Task is a goroutine under the scheduler.
type Task struct {
	envs   int // environment draws made
	id     int
	name   string
	wake   chan struct{}
	kind   OpKind
	lk     *LockState
	cases  []Case
	dflt   bool
	usend  bool // one of cases sends on an unbuffered channel
	chosen int
	paired bool
	child  *Task
	call   func()
	wt     Waiter
	killed bool
	unwind bool
	exited bool
	prio   int64
	pan    string
	stack  string
	siteOf [12]uintptr
	nsite  int
	tag    any // harness-private
}

// ID is the task's number, Name its label.
func (t *Task) ID() int      { return t.id }
func (t *Task) Name() string { return t.name }

// Policy is a scheduling policy.
type Policy struct {
	Kind    string  `json:"kind"` // random | sticky | pct | starve
	Stick   float64 `json:"stick,omitempty"`
	Changes int     `json:"changes,omitempty"` // pct: number of priority changes
	Horizon int     `json:"horizon,omitempty"` // pct: steps over which the changes are spread
	Victim  int     `json:"victim,omitempty"`  // starve: task id modulo
	Lag     float64 `json:"lag,omitempty"`     // probability per step that time passes although tasks could run
	LagMax  int64   `json:"lag_max,omitempty"` // largest jump (ns) of such a step
	LagCap  int64   `json:"lag_cap,omitempty"` // total (ns) over the run
	Queue   int     `json:"queue,omitempty"`   // capacity of the long queues of the code (0: as written)
}

// Config of one run.
type Config struct {
	Seed     int64   // schedule source
	EnvSeed  int64   // map order, random draws
	Policy   Policy  //
	Replay   []int32 // recorded choices; nil: draw from Seed
	Replayed bool    // use Replay (even if empty)
	MaxSteps int
	Trace    bool
	Epoch    time.Time
}

// Result of one run.
type Result struct {
	Choices   []int32
	Steps     int
	Hash      uint64
	SimTime   time.Duration
	Lag       time.Duration
	Panics    []Panic
	StepLimit bool
	Deadlock  bool // root not finished, nothing can ever run again
	Blocked   []string
	Stuck     []string // tasks still waiting for a lock when the root task ended
	Trace     []string
	Tasks     int
	Switches  int
}

// Panic of a task that nothing recovered: in production it ends the process.
type Panic struct {
	Task, Value, Stack string
}

type timer struct {
	at    int64
	seq   int64
	fn    func()
	index int
	user  bool         // fn is code under test: run it outside G0, ordered after its creation
	rel   atomic.Int32 // carries that order
}

type sched struct {
	cfg      Config
	rng      *rand.Rand
	toSched  chan struct{}
	tasks    []*Task
	usends   bool // some task is about to send on an unbuffered channel
	nextID   int
	now      int64
	timers   []*timer
	tseq     int64
	closed   map[unsafe.Pointer]Probe
	last     *Task
	root     *Task
	res      Result
	pos      int
	changeAt map[int]bool
	lowest   int64
	timerPri int64
}

var (
	s   *sched
	cur *Task
	// nowNS is the virtual clock; written by G0 only while every task is parked.
	nowNS int64
	epoch time.Time
	seqNo int64
)

// Cur is the running task, or nil in G0 and outside a run.
//
//go:norace
func Cur() *Task { return cur }

// Active reports whether a simulation is running.
//
//go:norace
func Active() bool { return s != nil }

// Unwinding reports that the run is over and the task is being torn down: operations are no-ops.
//
//go:norace
func (t *Task) Unwinding() bool { return t.unwind }

// Now is the virtual time.
//
//go:norace
func Now() time.Time {
	if s == nil {
		return time.Now()
	}
	return epoch.Add(time.Duration(nowNS))
}

// Nanos is the virtual time since the start of the run.
//
//go:norace
func Nanos() int64 { return nowNS }

// LagNanos is the time that has passed in lag steps so far.
//
//go:norace
func LagNanos() int64 {
	if s == nil {
		return 0
	}
	return int64(s.res.Lag)
}

// Seq returns a number that increases over the run: one per call, in execution order.
//
//go:norace
func Seq() int64 { seqNo++; return seqNo }

// SeqNow is the last number given out.
//
//go:norace
func SeqNow() int64 { return seqNo }

// park hands the baton to G0 and waits to be resumed. It returns false when the task is unwinding.
//
//go:norace
func (t *Task) park() bool {
	if t.unwind {
		return false
	}
	if s.cfg.Trace {
		t.nsite = runtime.Callers(3, t.siteOf[:])
	}
	raceDisable()
	s.toSched <- struct{}{}
	<-t.wake
	raceEnable()
	if t.killed {
		t.unwind = true
		runtime.Goexit()
	}
	return true
}

// Op posts an operation on a lock (or a plain yield) and waits until the scheduler grants it.
//
//go:norace
func (t *Task) Op(k OpKind, lk *LockState) bool {
	if t.unwind {
		return false
	}
	t.kind, t.lk = k, lk
	return t.park()
}

// Yield is a scheduling point.
//
//go:norace
func Yield() {
	if t := cur; t != nil {
		t.Op(OpYield, nil)
	}
}

// AtomicPoint is the scheduling point in front of an atomic operation.
//
//go:norace
func AtomicPoint() {
	if t := cur; t != nil {
		t.Op(OpAtomic, nil)
	}
}

// Sel is the outcome of a rewritten select.
type Sel struct {
	I int
	t *Task
}

// Done ends a select: after a rendezvous on an unbuffered channel the two parties, which both ran
// to exchange the value, park again.
//
//go:norace
func (x Sel) Done() {
	if x.t != nil && x.t.paired {
		x.t.paired = false
		x.t.kind = OpPaired
		x.t.park()
	}
}

// Select blocks until one of the cases can proceed (or returns -1 if there is a default and none
// can). The caller performs the operation and calls Done.
//
//go:norace
func Select(dflt bool, cases ...Case) Sel {
	t := cur
	if t == nil {
		return Sel{I: directSelect(dflt, cases)}
	}
	if t.unwind {
		runtime.Goexit()
	}
	t.kind, t.cases, t.dflt, t.usend = OpSelect, cases, dflt, false
	for i := range cases {
		if cases[i].send && cases[i].p.capacity() == 0 {
			t.usend = true
		}
	}
	t.park()
	return Sel{I: t.chosen, t: t}
}

// directSelect serves code that runs outside a task (G0 or no simulation): it never blocks.
func directSelect(dflt bool, cases []Case) int {
	for i, c := range cases {
		if c.p.ptr() == nil {
			continue
		}
		if c.send {
			if c.p.length() < c.p.capacity() || c.p.drained() {
				return i
			}
		} else if c.p.length() > 0 || c.p.drained() {
			return i
		}
	}
	if dflt {
		return -1
	}
	panic("det: blocking channel operation outside a task")
}

// Recv, Recv2, Send and Close are the rewritten channel operations.
func Recv[T any](ch <-chan T) T {
	x := Select(false, RecvCase(ch))
	v := <-ch
	x.Done()
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	x := Select(false, RecvCase(ch))
	v, ok := <-ch
	x.Done()
	return v, ok
}

func Send[T any](ch chan<- T, v T) {
	x := Select(false, SendCase(ch))
	ch <- v
	x.Done()
}

//go:norace
func closePoint(p Probe) bool {
	t := cur
	if t == nil {
		return true
	}
	if t.unwind {
		return false
	}
	t.kind = OpClose
	t.cases = []Case{{p: p}}
	return t.park()
}

func Close[T any](ch chan<- T) {
	if closePoint(probe[T]{*(*chan T)(unsafe.Pointer(&ch))}) {
		close(ch)
	}
}

// Go starts a task (a plain goroutine outside a simulation).
//
//go:norace
func Go(fn func()) { GoNamed("", fn) }

//go:norace
func GoNamed(name string, fn func()) {
	t := cur
	if s == nil {
		go fn()
		return
	}
	if t != nil && t.unwind {
		return
	}
	if name == "" && s.cfg.Trace {
		name = callerName(3)
	}
	c := newTask(name)
	go taskMain(c, fn)
	if t == nil { // G0
		s.register(c)
		return
	}
	t.kind, t.child = OpSpawn, c
	t.park()
}

func callerName(skip int) string {
	_, f, l, ok := runtime.Caller(skip)
	if !ok {
		return "task"
	}
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, l)
}

//go:norace
func newTask(name string) *Task {
	return &Task{name: name, wake: make(chan struct{}, 1), kind: OpStart}
}

//go:norace
func taskMain(t *Task, fn func()) {
	raceDisable()
	<-t.wake
	raceEnable()
	defer taskExit(t)
	if t.killed {
		t.unwind = true
		return
	}
	fn()
}

//go:norace
func taskExit(t *Task) {
	if r := recover(); r != nil {
		t.pan = fmt.Sprint(r)
		t.stack = string(debug.Stack())
	}
	t.kind = OpExit
	t.exited = true
	endRelease()
	raceDisable()
	s.toSched <- struct{}{}
	raceEnable()
}

// Block parks the running task until w.Ready() holds.
//
//go:norace
func Block(w Waiter) {
	t := cur
	if t == nil {
		panic("det: Block outside a task")
	}
	if t.unwind {
		runtime.Goexit()
	}
	t.kind, t.wt = OpCond, w
	t.park()
	t.wt = nil
}

// WaitIdle parks the running task until no other task can run at the current instant.
//
//go:norace
func WaitIdle() {
	t := cur
	if t.unwind {
		runtime.Goexit()
	}
	t.kind = OpIdle
	t.park()
}

// Call runs fn in G0, as the scheduling step of the running task.
//
//go:norace
func Call(fn func()) {
	t := cur
	if t == nil {
		fn()
		return
	}
	if t.unwind {
		return
	}
	t.kind, t.call = OpCall, fn
	t.park()
}

type flag struct{ set bool }

//go:norace
func (f *flag) Ready() bool { return f.set }

//go:norace
func (f *flag) raise() { f.set = true }

// Sleep blocks the running task for d of virtual time.
func Sleep(d time.Duration) {
	if Cur() == nil {
		if s == nil {
			time.Sleep(d)
		}
		return
	}
	if d <= 0 {
		Yield()
		return
	}
	f := &flag{}
	AddTimer(d, f.raise)
	Block(f)
}

// TimerHandle identifies a pending virtual timer.
type TimerHandle struct{ t *timer }

// AddTimer runs fn in G0 after d of virtual time. It may be called by the running task or by G0.
//
//go:norace
func AddTimer(d time.Duration, fn func()) *TimerHandle {
	if d < 0 {
		d = 0
	}
	raceDisable()
	t := &timer{at: nowNS + int64(d), fn: fn}
	if t.at < nowNS {
		t.at = 1<<63 - 1
	}
	s.tseq++
	t.seq = s.tseq
	s.pushTimer(t)
	raceEnable()
	return &TimerHandle{t}
}

// AddUserTimer is AddTimer for a function of the code under test: like a runtime timer, its run is
// ordered after its creation, and G0 itself takes no part in that order.
//
//go:norace
func AddUserTimer(d time.Duration, fn func()) *TimerHandle {
	h := AddTimer(d, fn)
	h.t.user = true
	h.t.rel.Add(1)
	return h
}

// pushTimer and removeTimer keep the heap by hand, in functions the race detector ignores: any
// task may call them while it holds the baton.
//
//go:norace
func (s *sched) pushTimer(t *timer) {
	n := len(s.timers)
	if n == cap(s.timers) {
		nh := make([]*timer, n, 2*n+16)
		for i := 0; i < n; i++ {
			nh[i] = s.timers[i]
		}
		s.timers = nh
	}
	s.timers = s.timers[:n+1]
	s.timers[n] = t
	t.index = n
	s.up(n)
}

//go:norace
func (s *sched) less(i, j int) bool {
	a, b := s.timers[i], s.timers[j]
	if a.at != b.at {
		return a.at < b.at
	}
	return a.seq < b.seq
}

//go:norace
func (s *sched) swap(i, j int) {
	h := s.timers
	h[i], h[j] = h[j], h[i]
	h[i].index, h[j].index = i, j
}

//go:norace
func (s *sched) up(j int) {
	for j > 0 {
		i := (j - 1) / 2
		if !s.less(j, i) {
			break
		}
		s.swap(i, j)
		j = i
	}
}

//go:norace
func (s *sched) down(i int) {
	n := len(s.timers)
	for {
		l := 2*i + 1
		if l >= n {
			return
		}
		j := l
		if r := l + 1; r < n && s.less(r, l) {
			j = r
		}
		if !s.less(j, i) {
			return
		}
		s.swap(i, j)
		i = j
	}
}

//go:norace
func (s *sched) removeTimer(t *timer) {
	i := t.index
	n := len(s.timers) - 1
	if i < 0 || i > n {
		return
	}
	if i != n {
		s.swap(i, n)
	}
	s.timers[n] = nil
	s.timers = s.timers[:n]
	if i < n {
		s.down(i)
		s.up(i)
	}
	t.index = -1
}

// Stop cancels the timer; it reports whether it was still pending.
//
//go:norace
func (h *TimerHandle) Stop() bool {
	if h == nil || h.t == nil || h.t.index < 0 || s == nil {
		return false
	}
	s.removeTimer(h.t)
	return true
}

// ---- G0 ----

//go:norace
func (s *sched) register(t *Task) {
	t.id = s.nextID
	s.nextID++
	if t.name == "" {
		t.name = fmt.Sprintf("t%d", t.id)
	}
	if s.cfg.Policy.Kind == "pct" {
		t.prio = 1000 + s.rng.Int63n(1000000)
	}
	s.tasks = append(s.tasks, t)
	s.res.Tasks++
}

//go:norace
func (s *sched) ready(t *Task) bool {
	switch t.kind {
	case OpStart, OpYield, OpUnlocked, OpAtomic, OpClose, OpSpawn, OpPaired, OpCall:
		return true
	case OpLock:
		return !t.lk.Writer
	case OpWAnnounce:
		return !t.lk.Pending && !t.lk.Writer
	case OpWLock:
		return t.lk.Readers == 0
	case OpRLock:
		return !t.lk.Pending && !t.lk.Writer
	case OpCond:
		return t.wt.Ready()
	case OpSelect:
		if t.dflt {
			return true
		}
		for i := range t.cases {
			if s.caseReady(t, &t.cases[i]) {
				return true
			}
		}
		return false
	}
	return false
}

//go:norace
func (s *sched) isClosed(p Probe) bool {
	if _, ok := s.closed[p.ptr()]; ok {
		return true
	}
	return p.drained()
}

//go:norace
func (s *sched) caseReady(t *Task, c *Case) bool {
	q := c.p.ptr()
	if q == nil {
		return false
	}
	if c.send {
		if c.p.capacity() > 0 {
			return c.p.length() < c.p.capacity() || s.isClosed(c.p)
		}
		if s.isClosed(c.p) {
			return true
		}
	} else {
		if c.p.length() > 0 || s.isClosed(c.p) {
			return true
		}
		if c.p.capacity() > 0 || !s.usends {
			return false
		}
	}
	p, _ := s.partner(t, q, !c.send)
	return p != nil
}

// partner finds a task parked at the other side of an unbuffered channel.
//
//go:norace
func (s *sched) partner(t *Task, q unsafe.Pointer, send bool) (*Task, int) {
	for _, o := range s.tasks {
		if o == t || o.kind != OpSelect {
			continue
		}
		for i := range o.cases {
			if o.cases[i].send == send && o.cases[i].p.ptr() == q {
				return o, i
			}
		}
	}
	return nil, 0
}

// choose picks one of n alternatives; alternative 0 is the default.
func (s *sched) choose(n int, pick func() int) int {
	if n <= 1 {
		return 0
	}
	var c int
	if s.cfg.Replayed {
		if s.pos < len(s.cfg.Replay) {
			c = int(s.cfg.Replay[s.pos])
		}
		s.pos++
		if c < 0 || c >= n {
			c = 0
		}
	} else {
		c = pick()
	}
	s.res.Choices = append(s.res.Choices, int32(c))
	return c
}

func (s *sched) pickTask(en []*Task, timerDue bool) int {
	n := len(en)
	if timerDue {
		n++
	}
	return s.choose(n, func() int {
		p := &s.cfg.Policy
		switch p.Kind {
		case "sticky":
			if s.rng.Float64() < p.Stick {
				return 0
			}
			return s.rng.Intn(n)
		case "starve":
			if s.rng.Float64() < 0.02 {
				return s.rng.Intn(n)
			}
			var ok []int
			for i := 0; i < n; i++ {
				if i < len(en) && en[i].id == p.Victim {
					continue
				}
				ok = append(ok, i)
			}
			if len(ok) == 0 {
				return 0
			}
			return ok[s.rng.Intn(len(ok))]
		case "pct":
			if s.changeAt[s.res.Steps] && s.last != nil {
				s.lowest--
				s.last.prio = s.lowest
			}
			best, bi := int64(-1<<62), 0
			for i, t := range en {
				if t.prio > best {
					best, bi = t.prio, i
				}
			}
			if timerDue && s.timerPri > best {
				bi = n - 1
			}
			if timerDue {
				s.timerPri = 1000 + s.rng.Int63n(1000000)
			}
			return bi
		default:
			return s.rng.Intn(n)
		}
	})
}

func (s *sched) mix(a, b uint64) {
	h := s.res.Hash
	h ^= a*0x9E3779B97F4A7C15 + b
	h *= 0x100000001b3
	h ^= h >> 29
	s.res.Hash = h
}

//go:norace
func resume(t *Task) {
	cur = t
	raceDisable()
	t.wake <- struct{}{}
	<-s.toSched
	raceEnable()
	cur = nil
}

//go:norace
func resume2(a, b *Task) {
	// rendezvous: both run only to exchange the value; each then parks at Done.
	a.paired, b.paired = true, true
	cur = nil
	raceDisable()
	a.wake <- struct{}{}
	b.wake <- struct{}{}
	<-s.toSched
	<-s.toSched
	raceEnable()
}

func (s *sched) tracef(format string, a ...any) {
	if s.cfg.Trace {
		s.res.Trace = append(s.res.Trace, fmt.Sprintf("%6d %12s ", s.res.Steps, time.Duration(s.now))+fmt.Sprintf(format, a...))
	}
}

// Note adds a line to the trace (harness events).
func Note(format string, a ...any) {
	if s != nil && s.cfg.Trace && (cur == nil || !RaceBuild) {
		s.res.Trace = append(s.res.Trace, fmt.Sprintf("%6d %12s        -- ", s.res.Steps, time.Duration(nowNS))+fmt.Sprintf(format, a...))
	}
}

// Tracing reports whether a trace is being written.
func Tracing() bool { return s != nil && s.cfg.Trace }

func (t *Task) where() string {
	if t.nsite == 0 {
		return ""
	}
	fr := runtime.CallersFrames(t.siteOf[:t.nsite])
	for {
		f, more := fr.Next()
		if f.File != "" && !strings.Contains(f.File, "/verifsim/det/") && !strings.Contains(f.File, "/verifsim/shim/") && !strings.Contains(f.File, "/src/runtime/") {
			file := f.File
			if i := strings.LastIndexByte(file, '/'); i >= 0 {
				file = file[i+1:]
			}
			return fmt.Sprintf("%s:%d", file, f.Line)
		}
		if !more {
			return ""
		}
	}
}

func (s *sched) fireTimer() {
	tm := s.timers[0]
	s.removeTimer(tm)
	if tm.at > s.now {
		s.now = tm.at
		nowNS = tm.at
	}
	s.mix(0xfeed, uint64(tm.seq))
	s.tracef("timer #%d fires", tm.seq)
	if tm.user {
		runUser(tm)
	} else {
		tm.fn()
	}
}

//go:norace
func runUser(tm *timer) {
	go userTimer(tm)
	raceDisable()
	<-s.toSched
	raceEnable()
}

//go:norace
func userTimer(tm *timer) {
	tm.rel.Load()
	tm.fn()
	endRelease()
	raceDisable()
	s.toSched <- struct{}{}
	raceEnable()
}

// Run executes root as the first task and returns when it has finished (or the run got stuck).
func Run(cfg Config, root func()) *Result {
	Queue = cfg.Policy.Queue
	if s != nil {
		panic("det: nested Run")
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 400000
	}
	if cfg.Epoch.IsZero() {
		cfg.Epoch = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)
	}
	s = &sched{
		cfg: cfg, rng: rand.New(rand.NewSource(cfg.Seed)),
		toSched: make(chan struct{}, 2), closed: map[unsafe.Pointer]Probe{},
	}
	s.res.Hash = 1469598103934665603
	nowNS, epoch, seqNo = 0, cfg.Epoch, 0
	if cfg.Policy.Kind == "pct" {
		s.changeAt = map[int]bool{}
		h := cfg.Policy.Horizon
		if h < 1 {
			h = 1000
		}
		for i := 0; i < cfg.Policy.Changes; i++ {
			s.changeAt[s.rng.Intn(h)] = true
		}
	}
	r := newTask("root")
	go taskMain(r, root)
	s.register(r)
	s.root = r
	s.loop()
	s.stuck()
	s.teardown()
	endAcquire()
	s.res.SimTime = time.Duration(s.now)
	res := s.res
	s = nil
	cur = nil
	return &res
}

//go:norace
func (s *sched) loop() {
	en := make([]*Task, 0, 32)
	var idle []*Task
	for !s.root.exited {
		if s.res.Steps >= s.cfg.MaxSteps {
			s.res.StepLimit = true
			return
		}
		en = en[:0]
		idle = idle[:0]
		s.usends = false
		for _, t := range s.tasks {
			if t.usend && t.kind == OpSelect && !t.exited {
				s.usends = true
				break
			}
		}
		// the task that ran last comes first: alternative 0 means "go on without a switch"
		if s.last != nil && !s.last.exited && s.last.kind != OpIdle && s.ready(s.last) {
			en = append(en, s.last)
		}
		for _, t := range s.tasks {
			if t.exited || (t == s.last && len(en) > 0 && en[0] == t) {
				continue
			}
			if t.kind == OpIdle {
				idle = append(idle, t)
				continue
			}
			if t != s.last && s.ready(t) {
				en = append(en, t)
			}
		}
		due := len(s.timers) > 0 && s.timers[0].at <= s.now
		if len(en) == 0 && !due {
			if len(idle) > 0 {
				en = append(en, idle[0])
			} else if len(s.timers) > 0 {
				s.fireTimer()
				continue
			} else {
				s.res.Deadlock = true
				s.blocked()
				return
			}
		}
		if s.lagStep(en, due) {
			s.fireTimer()
			continue
		}
		i := s.pickTask(en, due)
		if i >= len(en) {
			s.res.Steps++
			s.fireTimer()
			continue
		}
		s.step(en[i])
		if len(s.res.Panics) > 0 {
			return
		}
	}
}

func (s *sched) lagStep(en []*Task, due bool) bool {
	p := &s.cfg.Policy
	if p.Lag <= 0 || due || len(en) == 0 || len(s.timers) == 0 {
		return false
	}
	d := s.timers[0].at - s.now
	if d > p.LagMax || int64(s.res.Lag)+d > p.LagCap {
		return false
	}
	c := s.choose(2, func() int {
		if s.rng.Float64() < p.Lag {
			return 1
		}
		return 0
	})
	if c == 0 {
		return false
	}
	s.res.Lag += time.Duration(d)
	s.tracef("lag of %s", time.Duration(d))
	return true
}

//go:norace
func (s *sched) step(t *Task) {
	s.res.Steps++
	if t != s.last {
		s.res.Switches++
	}
	s.last = t
	k := t.kind
	s.mix(uint64(t.id)<<8|uint64(k), uint64(len(s.tasks)))
	if s.cfg.Trace {
		s.tracef("%-28s %-9s %s", fmt.Sprintf("%d/%s", t.id, t.name), k, t.where())
	}
	switch k {
	case OpLock:
		t.lk.Writer = true
	case OpWAnnounce:
		t.lk.Pending = true
	case OpWLock:
		t.lk.Writer = true
	case OpRLock:
		t.lk.Readers++
	case OpClose:
		p := t.cases[0].p
		s.closed[p.ptr()] = p
	case OpSpawn:
		s.register(t.child)
		t.child = nil
	case OpCall:
		f := t.call
		t.call = nil
		f()
	case OpSelect:
		var rd []int
		for i := range t.cases {
			if s.caseReady(t, &t.cases[i]) {
				rd = append(rd, i)
			}
		}
		if len(rd) == 0 {
			t.chosen = -1
		} else {
			t.chosen = rd[s.choose(len(rd), func() int { return s.rng.Intn(len(rd)) })]
			s.mix(0xca5e, uint64(t.chosen))
			c := &t.cases[t.chosen]
			if c.p.capacity() == 0 && !s.isClosed(c.p) {
				o, oi := s.partner(t, c.p.ptr(), !c.send)
				o.chosen = oi
				resume2(t, o)
				return
			}
		}
	}
	resume(t)
	if t.exited {
		s.reap(t)
	}
}

//go:norace
func (s *sched) reap(t *Task) {
	for i, o := range s.tasks {
		if o == t {
			s.tasks = append(s.tasks[:i], s.tasks[i+1:]...)
			break
		}
	}
	if t.pan != "" {
		s.res.Panics = append(s.res.Panics, Panic{Task: t.name, Value: t.pan, Stack: t.stack})
	}
}

//go:norace
func (s *sched) blocked() {
	for _, t := range s.tasks {
		s.res.Blocked = append(s.res.Blocked, fmt.Sprintf("%d/%s at %s %s", t.id, t.name, t.kind, t.where()))
	}
	sort.Strings(s.res.Blocked)
}

//go:norace
func (s *sched) stuck() {
	for _, t := range s.tasks {
		switch t.kind {
		case OpLock, OpWAnnounce, OpWLock, OpRLock:
			if !t.exited && !s.ready(t) {
				s.res.Stuck = append(s.res.Stuck, fmt.Sprintf("%d/%s at %s %s", t.id, t.name, t.kind, t.where()))
			}
		}
	}
	sort.Strings(s.res.Stuck)
}

// BlockedTasks describes what every unfinished task waits for (call from G0 or the root task).
//
//go:norace
func BlockedTasks() []string {
	var out []string
	for _, t := range s.tasks {
		if !t.exited {
			out = append(out, fmt.Sprintf("%d/%s at %s", t.id, t.name, t.kind))
		}
	}
	return out
}

//go:norace
func (s *sched) teardown() {
	s.timers = s.timers[:0]
	for len(s.tasks) > 0 {
		t := s.tasks[len(s.tasks)-1]
		if t.kind == OpSpawn && t.child != nil {
			t.child.killed = true
			resume(t.child)
			t.child = nil
		}
		if !t.exited {
			t.killed = true
			resume(t)
		}
		s.tasks = s.tasks[:len(s.tasks)-1]
	}
}

// ---- randomness owned by the simulation ----

// EnvInt63n draws from the environment source (map orders, random draws of the code under test).
//
//go:norace
func EnvUint64() uint64 {
	if s == nil {
		return rand.Uint64()
	}
	raceDisable()
	v := envNext()
	countEnv()
	raceEnable()
	return v
}

//go:norace
func countEnv() {
	if cur != nil {
		cur.envs++
	}
}

// EnvCount is the number of environment draws the running task has made.
//
//go:norace
func EnvCount() int {
	if cur == nil {
		return 0
	}
	return cur.envs
}

// envNext is a splitmix64 step over scheduler-owned state.
//
//go:norace
func envNext() uint64 {
	s.cfg.EnvSeed += -7046029254386353131
	z := uint64(s.cfg.EnvSeed)
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// EnvIntn draws from [0,n).
//
//go:norace
func EnvIntn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(EnvUint64() % uint64(n))
}
