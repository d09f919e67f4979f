//go:build go1.21

package world

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"time"

	"github.com/cloudwego/kitex/client"
	"github.com/cloudwego/kitex/pkg/klog"

	ads "github.com/kitex-contrib/xds/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice"
	"github.com/kitex-contrib/xds/core/manager"
	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/verifsim/det"
	"github.com/kitex-contrib/xds/verifsim/shim/dcontext"
	"github.com/kitex-contrib/xds/verifsim/shim/dos"
)

func init() {
	klog.SetOutput(io.Discard)
	klog.SetLevel(klog.LevelFatal)
}

// Manager is what the harness uses of the code under test.
type Manager interface {
	Get(ctx context.Context, t xdsresource.ResourceType, n string) (interface{}, error)
	RegisterXDSUpdateHandler(t xdsresource.ResourceType, h xdsresource.XDSUpdateHandler)
	Dump()
}

// Viol is one violation.
type Viol struct {
	Prop  string `json:"prop"`
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Outcome of one run.
type Outcome struct {
	Viols []Viol
	Res   *det.Result
	H     *History
	Fired map[string]int
	Incon string // the run decided nothing (why)
	Races int
	// Trivial: the run reached nothing the property is about
	Trivial bool
}

func (o *Outcome) viol(prop, class, format string, a ...any) {
	if len(o.Viols) < 20 {
		o.Viols = append(o.Viols, Viol{prop, class, fmt.Sprintf(format, a...)})
	}
}

const (
	podIP   = "10.9.8.7"
	podName = "pod-0"
)

func setEnv(c *Cfg) {
	os.Setenv("POD_NAMESPACE", c.NS)
	os.Setenv("POD_NAME", podName)
	os.Setenv("INSTANCE_IP", podIP)
	os.Setenv("KITEX_XDS_DOMAIN", c.Domain)
	os.Setenv("ISTIO_VERSION", "1.13.5")
	if c.MetaNS != "" {
		b, _ := json.Marshal(map[string]string{"NAMESPACE": c.MetaNS, "LABEL": "x"})
		os.Setenv("KITEX_XDS_METAS", string(b))
	} else {
		os.Setenv("KITEX_XDS_METAS", "")
	}
}

// Core is the state of a run of the core world.
type Core struct {
	p         *Plan
	h         *History
	cp        *CP
	m         Manager
	mErr      error
	booted    flagW
	calmed    flagW // no more slow handlers
	lookID    int
	lkList    []lkKey
	ready     chan struct{} // orders the coordinator after the start-up
	dumpFault string
	dumps     int
	handN     int
	bootHang  bool
	su        *Suite
}

type lkKey struct {
	t RType
	n string
}

type flagW struct{ set bool }

//go:norace
func (f *flagW) Ready() bool { return f.set }

//go:norace
func (f *flagW) raise() { f.set = true }

// orW waits for a flag or until a time.
type orW struct {
	f  *flagW
	to *flagW
}

//go:norace
func (o *orW) Ready() bool { return o.f.set || o.to.set }

//go:norace
func waitFlag(f *flagW, d time.Duration) bool {
	to := &flagW{}
	det.AddTimer(d, to.raise)
	det.Block(&orW{f, to})
	return f.set
}

// cnt is a countdown of finished tasks.
type cntW struct{ n int }

//go:norace
func (c *cntW) Ready() bool { return c.n <= 0 }

//go:norace
func (c *cntW) done() { c.n-- }

type orCnt struct {
	c  *cntW
	to *flagW
}

//go:norace
func (o *orCnt) Ready() bool { return o.c.n <= 0 || o.to.set }

//go:norace
func waitCnt(c *cntW, d time.Duration) bool {
	to := &flagW{}
	det.AddTimer(d, to.raise)
	det.Block(&orCnt{c, to})
	return c.n <= 0
}

//go:norace
func readInt(p *int) int { return *p }

//go:norace
func cpLive(cp *CP) bool { return len(cp.streams) > 0 && !cp.streams[len(cp.streams)-1].broken }

func simConfig(p *Plan, trace bool) det.Config {
	return det.Config{Seed: p.Seed, EnvSeed: p.Env, Policy: p.Pol, Replay: p.Replay, Replayed: p.Replayed, Trace: trace, MaxSteps: 600000}
}

// RunCore executes one plan of the core world.
func RunCore(p *Plan, trace bool) *Outcome {
	h := &History{Probes: map[string]int{}}
	c := &Core{p: p, h: h}
	c.cp = newCP(h, &p.Cfg, p.Env)
	setEnv(&p.Cfg)
	det.Reset()
	for i := range p.Boot {
		o := &p.Boot[i]
		if atStart(o) {
			cpOp(c.cp, o)
		}
	}
	h.Evs = nil
	ads.SimClient = func(string, []client.Option) (ads.Client, error) { return &fakeClient{c.cp}, nil }
	c.ready = make(chan struct{})
	if p.World == "suite" {
		c.su = &Suite{c: c}
	}
	dos.WriteFileHook = c.diskWrite
	res := det.Run(simConfig(p, trace), c.root)
	dos.WriteFileHook = nil
	o := &Outcome{Res: res, H: h, Fired: c.cp.fired}
	if c.bootHang {
		o.Incon = "boot"
	}
	if c.su != nil {
		c.su.check(o)
		o.Trivial = o.Trivial || c.mErr != nil
		return o
	}
	checkCore(c, o)
	o.Trivial = c.mErr != nil || len(h.Lookups) == 0 || c.cp.nresp == 0
	return o
}

// atStart: the operation describes what the control plane has from the beginning.
func atStart(o *Op) bool {
	return o.K == "set" || o.K == "table" || o.K == "put" || (o.K == "down" && o.C == 1)
}

const bootLimit = 25 * time.Minute

func (c *Core) root() {
	det.GoNamed("boot", c.boot)
	det.GoNamed("bootfaults", c.bootFaults)
	if !waitFlag(&c.booted, bootLimit) {
		c.bootHang = true
		c.h.add(&Ev{K: "boothang"})
		return
	}
	<-c.ready
	c.h.add(&Ev{K: "ready", Err: fmt.Sprint(c.mErr)})
	if c.mErr != nil {
		return
	}
	if c.su != nil {
		c.su.start()
	}
	for i := 0; i < c.p.Cfg.Handlers; i++ {
		c.register([]RType{LDS, CDS, RDS, EDS}[i%4])
	}
	det.WaitIdle()
	// actors
	acts := map[int][]*Op{}
	max := 0
	for i := range c.p.Ops {
		o := &c.p.Ops[i]
		acts[o.A] = append(acts[o.A], o)
		if o.A > max {
			max = o.A
		}
	}
	cnt := &cntW{}
	for a := 1; a <= max; a++ {
		if len(acts[a]) == 0 {
			continue
		}
		cnt.n++
		ops := acts[a]
		det.GoNamed(fmt.Sprintf("actor%d", a), func() {
			for _, o := range ops {
				c.actorOp(o)
			}
			cnt.done()
		})
	}
	for _, o := range acts[0] {
		c.rootOp(o)
	}
	waitCnt(cnt, 10*time.Minute)
	c.closing()
}

func (c *Core) settle() {
	for i := 0; i < 2000; i++ {
		det.WaitIdle()
		if readInt(&c.cp.inflight) == 0 {
			return
		}
		det.Sleep(time.Millisecond)
	}
}

// closing ends all faults, lets the client reconnect, has the control plane state everything once
// more and reads back what the client serves.
func (c *Core) closing() {
	cfg := &c.p.Cfg
	if cfg.Tail > 0 {
		det.Sleep(time.Duration(cfg.Tail))
	}
	g0op(c.cp, bareOp("calm"), cpOp)
	c.calmed.raise()
	det.Sleep(time.Millisecond)
	if !c.auth() {
		for i := 0; i < 900 && !cpLive(c.cp); i++ {
			det.Sleep(time.Second)
		}
	}
	c.settle()
	if !cfg.NoFinal {
		g0op(c.cp, bareOp("final"), cpOp)
		c.settle()
	}
	// every lookup still waiting must be back after its time-out
	waits := time.Duration(1)
	if c.su != nil {
		waits = 8 // a call may wait several times
	}
	det.Sleep(waits*time.Duration(cfg.FetchMS)*time.Millisecond + time.Duration(c.p.Pol.LagCap) + time.Second)
	c.settle()
	c.h.add(&Ev{K: "closing"})
	if c.su != nil {
		c.su.snap()
		c.h.add(&Ev{K: "end"})
		return
	}
	c.probeAll(true)
	c.settle()
	det.Sleep(5 * time.Millisecond)
	c.dump("")
	det.WaitIdle()
	c.h.add(&Ev{K: "end"})
}

//go:norace
func (c *Core) auth() bool { return c.cp.authDead }

func (c *Core) boot() {
	cfg := &c.p.Cfg
	m, err := manager.NewXDSResourceManager(nil, manager.Option{F: func(o *manager.Options) {
		o.XDSSvrConfig = &manager.XDSServerConfig{
			SvrAddr: "cp:15010", SvrName: "cp", NDSNotRequired: cfg.NDSOff, LDSNotRequired: cfg.LDSOff,
			FetchXDSTimeout: time.Duration(cfg.FetchMS) * time.Millisecond,
		}
		if cfg.FetchDef {
			o.XDSSvrConfig.FetchXDSTimeout = 0
		}
		o.DumpPath = dumpPath()
	}})
	if err == nil {
		c.m = m
	}
	c.mErr = err
	close(c.ready)
	c.booted.raise()
}

func dumpPath() string { return fmt.Sprintf("%s/verif-dump-%d.json", os.TempDir(), os.Getpid()) }

func (c *Core) bootFaults() {
	for i := range c.p.Boot {
		o := &c.p.Boot[i]
		if atStart(o) {
			continue
		}
		if o.Gap > 0 {
			det.Sleep(time.Duration(o.Gap))
		}
		if c.booted.Ready() {
			return
		}
		g0op(c.cp, o, cpOp)
	}
}

func (c *Core) rootOp(o *Op) {
	if o.Gap > 0 {
		det.Sleep(time.Duration(o.Gap))
	}
	switch o.K {
	case "get":
		l := c.newLookup(o)
		det.GoNamed(fmt.Sprintf("get%d", l.ID), func() { c.get(l, o.Cn) })
	case "burst":
		n := o.C
		t := typeByName[o.T]
		for i := 0; i < n; i++ {
			l := &Lookup{T: t, N: fmt.Sprintf("%s%d", o.N, i), Deadline: o.Dl}
			c.addLookup(l, i < 8)
			det.GoNamed(fmt.Sprintf("get%d", l.ID), func() { c.get(l, 0) })
		}
	case "probe":
		c.probeAll(false)
	case "dump":
		c.dump(o.X)
	case "reg":
		c.register(typeByName[o.T])
	case "settle":
		c.settle()
	case "until":
		until(o.D)
	default:
		if c.su != nil && c.su.op(o, o.C == 1 || (o.K == "suite" || o.K == "server" || o.K == "up") && o.X != "beside" || o.K == "dist") {
			return
		}
		g0op(c.cp, o, cpOp)
	}
}

func until(at int64) {
	if d := at - det.Nanos(); d > 0 {
		det.Sleep(time.Duration(d))
	}
}

func (c *Core) actorOp(o *Op) {
	if o.Gap > 0 {
		det.Sleep(time.Duration(o.Gap))
	}
	switch o.K {
	case "get":
		l := c.newLookup(o)
		c.get(l, o.Cn)
	case "reg":
		c.regHandler(typeByName[o.T], o.D)
	case "dump":
		c.m.Dump()
	case "until":
		until(o.D)
	default:
		if c.su != nil && c.su.op(o, true) {
			return
		}
		g0op(c.cp, o, cpOp)
	}
}

func lookupType(o *Op) RType {
	if o.T == "bad" {
		return RType(o.V)
	}
	return typeByName[o.T]
}

// The list of lookups and the set of names ever looked up are appended to by whichever task runs;
// like the history they are kept out of the race detector's sight.
//
//go:norace
func (c *Core) addLookup(l *Lookup, seen bool) {
	l.ID = c.lookID
	c.lookID++
	h := c.h
	n := len(h.Lookups)
	if n == cap(h.Lookups) {
		nl := make([]*Lookup, n, 2*n+32)
		for i := 0; i < n; i++ {
			nl[i] = h.Lookups[i]
		}
		h.Lookups = nl
	}
	h.Lookups = h.Lookups[:n+1]
	h.Lookups[n] = l
	if !seen {
		return
	}
	for i := 0; i < len(c.lkList); i++ {
		if c.lkList[i].t == l.T && c.lkList[i].n == l.N {
			return
		}
	}
	n = len(c.lkList)
	if n == cap(c.lkList) {
		nk := make([]lkKey, n, 2*n+32)
		for i := 0; i < n; i++ {
			nk[i] = c.lkList[i]
		}
		c.lkList = nk
	}
	c.lkList = c.lkList[:n+1]
	c.lkList[n] = lkKey{l.T, l.N}
}

func (c *Core) newLookup(o *Op) *Lookup {
	l := &Lookup{T: lookupType(o), N: o.N, Deadline: o.Dl}
	c.addLookup(l, o.T != "bad")
	return l
}

//go:norace
func (c *Core) lookedKeys() []lkKey {
	ks := make([]lkKey, len(c.lkList))
	for i := 0; i < len(ks); i++ {
		ks[i] = c.lkList[i]
	}
	return ks
}

func (c *Core) get(l *Lookup, cancelAfter int64) {
	ctx := context.Context(context.Background())
	var cancel context.CancelFunc
	if l.Deadline > 0 {
		ctx, cancel = dcontext.WithTimeout(ctx, time.Duration(l.Deadline))
		defer cancel()
	}
	if cancelAfter > 0 || cancelAfter == -1 {
		var cf context.CancelFunc
		ctx, cf = context.WithCancel(ctx)
		doCancel := func() {
			c.h.add(&Ev{K: "cancel", L: l})
			markCancel(l)
			cf()
		}
		if cancelAfter == -1 {
			doCancel()
		} else {
			det.GoNamed(fmt.Sprintf("cancel%d", l.ID), func() {
				det.Sleep(time.Duration(cancelAfter))
				doCancel()
			})
		}
		defer cf()
	}
	e := c.h.add(&Ev{K: "inv", L: l, T: l.T})
	l.Inv, l.InvAt, l.InvLag = e.Seq, e.At, det.LagNanos()
	v, err := c.m.Get(ctx, l.T, l.N)
	if err != nil {
		l.Err = err.Error()
		if l.Err == "" {
			l.Err = "(empty)"
		}
		if v != nil {
			l.Sig = "BOTH:" + sigOf(l.T, v)
		}
	} else {
		l.Sig = sigOf(l.T, v)
	}
	e = c.h.add(&Ev{K: "ret", L: l, T: l.T})
	l.Ret, l.RetAt, l.RetLag = e.Seq, e.At, det.LagNanos()
	l.Done = true
}

//go:norace
func markCancel(l *Lookup) {
	if l.CancelAt == 0 {
		l.CancelAt, l.CancelSq = det.Nanos(), det.SeqNow()
		if l.CancelAt == 0 {
			l.CancelAt = 1
		}
	}
}

func (c *Core) probeAll(post bool) {
	c.h.add(&Ev{K: "probe"})
	for _, k := range c.lookedKeys() {
		l := &Lookup{T: k.t, N: k.n, Deadline: int64(time.Millisecond), Probe: true, Post: post}
		c.addLookup(l, false)
		det.GoNamed(fmt.Sprintf("probe%d", l.ID), func() { c.get(l, 0) })
	}
}

// dump has the manager write its cache out; the simulated disk takes the file, or fails.
func (c *Core) dump(fault string) {
	setFault(c, fault)
	det.GoNamed("dump", c.doDump)
}

//go:norace
func setFault(c *Core, f string) { c.dumpFault = f }

//go:norace
func getFault(c *Core) string { return c.dumpFault }

//go:norace
func (c *Core) dumped(d int) int { c.dumps += d; return c.dumps }

func (c *Core) doDump() {
	n := c.dumped(0)
	c.m.Dump()
	if c.dumped(0) == n { // written by other means
		if b, err := os.ReadFile(dumpPath()); err == nil {
			os.Remove(dumpPath())
			c.logDump(b)
		}
	}
}

func (c *Core) diskWrite(name string, data []byte, perm os.FileMode) error {
	c.dumped(1)
	switch getFault(c) {
	case "err":
		c.h.add(&Ev{K: "dump", Err: "no space left on device"})
		return fmt.Errorf("write %s: no space left on device", name)
	case "slow":
		det.Sleep(3 * time.Millisecond)
	}
	c.logDump(data)
	return nil
}

func (c *Core) logDump(data []byte) {
	e := &Ev{K: "dump"}
	raw := map[string]map[string]json.RawMessage{}
	if err := json.Unmarshal(data, &raw); err != nil {
		e.Err = "unreadable: " + err.Error()
	}
	e.Tables = map[string]map[string]string{}
	for t, m := range raw {
		e.Tables[t] = map[string]string{}
		for n, v := range m {
			e.Tables[t][n] = firstN(string(v), 200)
		}
	}
	c.h.add(e)
}

func (c *Core) register(t RType) {
	det.GoNamed("register", func() { c.regHandler(t, 0) })
}

func (c *Core) regHandler(t RType, slow int64) {
	id := nextHandler(c)
	h := c.h
	c.m.RegisterXDSUpdateHandler(t, func(m map[string]xdsresource.Resource) {
		sigs := map[string]string{}
		for n, v := range m {
			sigs[n] = sigOf(t, v)
		}
		h.add(&Ev{K: "hstart", H: id, T: t, Sigs: sigs})
		if slow > 0 && !c.calmed.Ready() {
			det.Sleep(time.Duration(slow))
		} else {
			det.Yield()
		}
		h.add(&Ev{K: "hend", H: id, T: t, Sigs: sigs})
	})
	h.add(&Ev{K: "registered", H: id, T: t})
}

//go:norace
func nextHandler(c *Core) int {
	c.handN++
	return c.handN
}
