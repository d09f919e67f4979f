//go:build go1.21

package world

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"sync/atomic"
	"time"

	"github.com/bytedance/gopkg/cloud/metainfo"
	kclient "github.com/cloudwego/kitex/client"
	"github.com/cloudwego/kitex/pkg/circuitbreak"
	"github.com/cloudwego/kitex/pkg/discovery"
	kendpoint "github.com/cloudwego/kitex/pkg/endpoint"
	"github.com/cloudwego/kitex/pkg/kerrors"
	"github.com/cloudwego/kitex/pkg/limit"
	"github.com/cloudwego/kitex/pkg/retry"
	"github.com/cloudwego/kitex/pkg/rpcinfo"
	"github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo"
	"github.com/cloudwego/kitex/pkg/utils"
	kserver "github.com/cloudwego/kitex/server"
	"github.com/cloudwego/kitex/transport"
	"google.golang.org/protobuf/types/known/anypb"

	"github.com/kitex-contrib/xds/core/xdsresource"
	"github.com/kitex-contrib/xds/verifsim/det"
	"github.com/kitex-contrib/xds/verifsim/shim/dcontext"
	"github.com/kitex-contrib/xds/xdssuite"
)

// Suite is the part of a run that uses the client and server suites.
type Suite struct {
	c     *Core
	objs  []*suiteObj
	srvs  []*srvObj
	calls []*Call
	pub   atomic.Int64
}

// suiteObj is one client suite.
type suiteObj struct {
	id, v    int
	inv, ret int64 // when it was created (sequence numbers)
	invAt    int64
	router   *xdssuite.XDSRouter
	mw       kendpoint.Middleware
	res      discovery.Resolver
	cb       *circuitbreak.CBSuite
	rc       *retry.Container
}

// srvObj is one server suite.
type srvObj struct {
	id       int
	port     uint32
	inv, ret int64
	invAt    int64
	lim      *limit.Option
	upInv    int64 // when the server handed over its limiter
	last     *limVal
	pushes   int
}

// transports other than gRPC.
var transports = []transport.Protocol{
	transport.TTHeader, transport.PurePayload, transport.Framed, transport.TTHeaderFramed, transport.HTTP, transport.HESSIAN2,
}

type limVal struct{ QPS, Conn int }

// CallSpec is one call of a service.
type CallSpec struct {
	Svc     string            `json:"svc,omitempty"`
	Pkg     string            `json:"pkg,omitempty"`
	ISvc    string            `json:"isvc,omitempty"`
	Method  string            `json:"method,omitempty"`
	MD      map[string]string `json:"md,omitempty"`
	Up      map[string]string `json:"up,omitempty"` // metadata handed on by the caller's caller
	Grpc    bool              `json:"grpc,omitempty"`
	Tp      int               `json:"tp,omitempty"` // which transport, unless gRPC
	V       int               `json:"v,omitempty"`  // which client suite
	Pre     string            `json:"pre,omitempty"`
	PreLock bool              `json:"pre_lock,omitempty"`
	TO      int64             `json:"to,omitempty"`
	Desc    string            `json:"desc,omitempty"`
	N       int               `json:"n,omitempty"`
}

// Call is what became of it.
type Call struct {
	ID       int
	K        string
	S        CallSpec
	Obj      *suiteObj
	Inv, Ret int64
	InvAt    int64
	RetAt    int64
	Dl, Cn   int64
	Done     bool
	Panic    string
	Err      string
	IsRoute  bool // the error is a routing error
	Cluster  string
	Timeout  int64
	Nexts    int
	// as the next step saw it, or after the call
	Tag     string
	HasTag  bool
	Locked  bool
	TO      int64
	AfterTO int64
	AfterTg string
	AfterHs bool
	// resolution
	Resolved bool
	Target   string
	RErr     string
	RPanic   string
	Insts    []string
	Empty    bool
	CacheKey string
	Cachable bool
	// lookup of a resource
	T   RType
	N   string
	Val any
	Dec *Decoded
	// weighted choice
	Dist  map[string]*big.Rat
	Count map[string]int
	Draws int
	Leafs int
}

// Decoded is a direct use of a decoder.
type Decoded struct {
	raw   *RawPush
	slots []*anypb.Any
	specs map[string]any
	table map[string][]string
	got   map[string]any
}

// Snap is what the policies look like when nothing is going on.
type Snap struct {
	CB    map[int]map[string]circuitbreak.CBConfig
	Retry map[int]map[string]any
	Lim   map[int]limVal
	Push  map[int]*limVal
}

// suiteProxy stands for the manager of the current run: the suite keeps the first one it is given.
type suiteProxy struct{ c *Core }

var theProxy = &suiteProxy{}

type muteKey struct{}

func (p *suiteProxy) Get(ctx context.Context, t xdsresource.ResourceType, n string) (interface{}, error) {
	c := p.c
	if ctx.Value(muteKey{}) != nil {
		return c.m.Get(ctx, t, n)
	}
	l := &Lookup{T: t, N: n}
	c.addLookup(l, false)
	e := c.h.add(&Ev{K: "inv", L: l, T: t})
	l.Inv, l.InvAt = e.Seq, e.At
	v, err := c.m.Get(ctx, t, n)
	if err != nil {
		l.Err = err.Error()
	}
	e = c.h.add(&Ev{K: "ret", L: l, T: t})
	l.Ret, l.RetAt, l.Done = e.Seq, e.At, true
	return v, err
}

func (p *suiteProxy) RegisterXDSUpdateHandler(t xdsresource.ResourceType, h xdsresource.XDSUpdateHandler) {
	p.c.m.RegisterXDSUpdateHandler(t, h)
}

// Dump lets the resource manager's other methods be reached, should somebody look for them.
func (p *suiteProxy) Dump() { p.c.m.Dump() }

type mdKey struct{}

func (s *Suite) start() {
	theProxy.c = s.c
	xdssuite.SetXDSResourceManager(theProxy)
}

func (s *Suite) newSuite(v int) *suiteObj {
	o := &suiteObj{v: v}
	e := s.c.h.add(&Ev{K: "suite", X: o})
	o.inv, o.invAt = e.Seq, e.At
	opts := []xdssuite.Option{xdssuite.WithServiceCircuitBreak(true)}
	if v%2 == 1 {
		opts = append(opts, xdssuite.WithRouterMetaExtractor(func(ctx context.Context) map[string]string {
			m, _ := ctx.Value(mdKey{}).(map[string]string)
			return m
		}))
	}
	if v/2%2 == 1 {
		opts = append(opts, xdssuite.WithMatchRetryMethod(true))
	}
	co := &kclient.Options{}
	di := &utils.Slice{}
	for _, x := range xdssuite.NewClientSuite(opts...).Options() {
		x.F(co, di)
	}
	o.mw, o.res, o.cb, o.rc = co.XDSRouterMiddleware, co.Resolver, co.CBSuite, co.RetryContainer
	o.router = xdssuite.NewXDSRouter(opts...)
	s.add(o, nil, nil)
	s.pub.Add(1)
	o.ret = s.c.h.add(&Ev{K: "suited", X: o}).Seq
	return o
}

func (s *Suite) newServer(port uint32) {
	o := &srvObj{port: port}
	e := s.c.h.add(&Ev{K: "server", X: o})
	o.inv, o.invAt = e.Seq, e.At
	so := &kserver.Options{}
	di := &utils.Slice{}
	opts := []xdssuite.Option{}
	if port != 0 {
		opts = append(opts, xdssuite.WithServicePort(port))
	}
	for _, x := range xdssuite.NewServerSuite(opts...).Options() {
		x.F(so, di)
	}
	o.lim = so.Limit.Limits
	s.add(nil, o, nil)
	s.pub.Add(1)
	o.ret = s.c.h.add(&Ev{K: "served", X: o}).Seq
}

// recorder is the limiter of the running server.
type recorder struct {
	s *Suite
	o *srvObj
}

func (r *recorder) UpdateLimit(opt *limit.Option) bool {
	v := &limVal{opt.MaxQPS, opt.MaxConnections}
	setLast(r.o, v)
	r.s.c.h.add(&Ev{K: "limit", X: v, H: r.o.id})
	det.Yield()
	return true
}

//go:norace
func setLast(o *srvObj, v *limVal) { o.last = v; o.pushes++ }

//go:norace
func (s *Suite) add(o *suiteObj, v *srvObj, k *Call) {
	switch {
	case o != nil:
		o.id = len(s.objs)
		s.objs = append(s.objs, o)
	case v != nil:
		v.id = len(s.srvs)
		s.srvs = append(s.srvs, v)
	default:
		k.ID = len(s.calls)
		s.calls = append(s.calls, k)
	}
}

//go:norace
func (s *Suite) obj(v int) *suiteObj {
	if len(s.objs) == 0 {
		return nil
	}
	return s.objs[v%len(s.objs)]
}

//go:norace
func (s *Suite) srv(v int) *srvObj {
	if len(s.srvs) == 0 {
		return nil
	}
	return s.srvs[v%len(s.srvs)]
}

// op executes the operations of this world; false: not one of them.
func (s *Suite) op(o *Op, wait bool) bool {
	var f func()
	switch o.K {
	case "route", "mw", "call", "key", "resolve", "fetch", "dist", "decode":
		k := &Call{K: o.K, Dl: o.Dl, Cn: o.Cn, T: typeByName[o.T], N: o.N}
		if o.Raw != nil && o.K != "decode" {
			if err := json.Unmarshal(o.Raw, &k.S); err != nil {
				panic(err)
			}
		}
		if k.Obj = s.obj(k.S.V); k.Obj == nil && k.K != "fetch" && k.K != "decode" {
			return true
		}
		if k.K == "decode" && !s.toDecode(k, o) {
			return true
		}
		s.add(nil, nil, k)
		f = func() { s.do(k) }
	case "suite":
		f = func() { s.newSuite(o.V) }
	case "server":
		f = func() { s.newServer(uint32(o.V)) }
	case "up":
		s.pub.Load()
		sv := s.srv(o.V)
		if sv == nil || sv.upInv != 0 {
			return true
		}
		sv.upInv = det.SeqNow()
		f = func() {
			if sv.lim.UpdateControl != nil {
				sv.lim.UpdateControl(&recorder{s, sv})
			}
		}
	case "snap":
		s.snap()
		return true
	default:
		return false
	}
	if wait {
		f()
		return true
	}
	det.GoNamed(fmt.Sprintf("%s%d", o.K, det.SeqNow()), f)
	return true
}

func (s *Suite) do(k *Call) {
	cs := &k.S
	ctx := context.Context(context.Background())
	for a, v := range cs.Up {
		ctx = metainfo.WithValue(ctx, a, v)
	}
	ctx = metainfo.TransferForward(ctx)
	for a, v := range cs.MD {
		ctx = metainfo.WithValue(ctx, a, v)
	}
	ctx = context.WithValue(ctx, mdKey{}, cs.md())
	if k.Dl > 0 {
		var cf context.CancelFunc
		ctx, cf = dcontext.WithTimeout(ctx, time.Duration(k.Dl))
		defer cf()
	}
	if k.Cn != 0 {
		var cf context.CancelFunc
		ctx, cf = dcontext.WithCancel(ctx)
		if k.Cn < 0 {
			cf()
		} else {
			det.GoNamed(fmt.Sprintf("ccancel%d", k.ID), func() {
				det.Sleep(time.Duration(k.Cn))
				cf()
			})
		}
	}
	rmt := remoteinfo.NewRemoteInfo(&rpcinfo.EndpointBasicInfo{ServiceName: cs.Svc, Method: cs.Method}, cs.Method)
	inv := rpcinfo.NewInvocation(cs.ISvc, cs.Method, cs.Pkg)
	cfg := rpcinfo.NewRPCConfig()
	mc := rpcinfo.AsMutableRPCConfig(cfg)
	mc.SetRPCTimeout(time.Duration(cs.TO) * time.Millisecond)
	if cs.Grpc {
		mc.SetTransportProtocol(transport.GRPC)
	} else {
		mc.SetTransportProtocol(transports[cs.Tp%len(transports)])
	}
	ri := rpcinfo.NewRPCInfo(rpcinfo.NewEndpointInfo("self", cs.Method, nil, nil), rmt.ImmutableView(), inv, cfg, rpcinfo.NewRPCStats())
	ctx = rpcinfo.NewCtxWithRPCInfo(ctx, ri)
	if cs.Pre != "" {
		rmt.SetTag(xdssuite.RouterClusterKey, cs.Pre)
		if cs.PreLock {
			rmt.SetTagLock(xdssuite.RouterClusterKey)
		}
	}
	e := s.c.h.add(&Ev{K: "cinv", X: k})
	k.Inv, k.InvAt = e.Seq, e.At
	s.guarded(&k.Panic, func() { s.perform(ctx, k, ri, rmt) })
	e = s.c.h.add(&Ev{K: "cret", X: k})
	k.Ret, k.RetAt, k.Done = e.Seq, e.At, true
	k.AfterTg, k.AfterHs = ri.To().Tag(xdssuite.RouterClusterKey)
	k.AfterTO = int64(ri.Config().RPCTimeout())
}

func (s *Suite) guarded(p *string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			*p = fmt.Sprint(r)
			if *p == "" {
				*p = "(empty)"
			}
		}
	}()
	f()
}

// md is the metadata of the call as the extractor in use sees it.
func (cs *CallSpec) md() map[string]string {
	m := map[string]string{}
	for k, v := range cs.Up {
		m[k] = v
	}
	for k, v := range cs.MD {
		m[k] = v
	}
	return m
}

func (k *Call) fail(err error) {
	if err != nil {
		k.Err = err.Error()
		if k.Err == "" {
			k.Err = "(empty)"
		}
		k.IsRoute = errors.Is(err, kerrors.ErrRoute)
	}
}

func (s *Suite) perform(ctx context.Context, k *Call, ri rpcinfo.RPCInfo, rmt remoteinfo.RemoteInfo) {
	o := k.Obj
	s.pub.Load() // whoever calls was handed the object by its creator
	next := func(ctx context.Context, _, _ interface{}) error {
		k.Nexts++
		s.c.h.add(&Ev{K: "next", X: k})
		see(k, ri, rmt)
		if k.K == "call" {
			s.guarded(&k.RPanic, func() {
				k.Target = o.res.Target(ctx, ri.To())
				s.resolve(ctx, k, k.Target)
			})
		}
		return nil
	}
	switch k.K {
	case "route":
		r, err := o.router.Route(ctx, ri)
		k.fail(err)
		if err == nil {
			if r == nil {
				k.Panic = "neither a result nor an error"
				return
			}
			k.Cluster, k.Timeout = r.ClusterPicked, int64(r.RPCTimeout)
		}
	case "mw":
		k.fail(o.mw(next)(ctx, nil, nil))
	case "call", "key":
		ep := kendpoint.Endpoint(next)
		if k.K == "call" {
			ep = o.mw(next)
		}
		if s.c.p.Prop == "C07" {
			// Kitex's retryer reads its policy unlocked while an update replaces it, a race of Kitex's own
			k.fail(ep(ctx, nil, nil))
			return
		}
		_, _, err := o.rc.WithRetryIfNeeded(ctx, nil, func(ctx context.Context, r retry.Retryer) (rpcinfo.RPCInfo, interface{}, error) {
			s.guarded(&k.Panic, func() { k.fail(ep(ctx, nil, nil)) })
			return ri, nil, nil // the failure stays out of sight, so that it is not retried
		}, ri, nil)
		if err != nil && k.Err == "" {
			k.Err = "retry container: " + err.Error()
		}
	case "resolve":
		s.resolve(ctx, k, k.S.Desc)
	case "fetch":
		v, err := theProxy.Get(ctx, k.T, k.N)
		k.fail(err)
		if err == nil {
			k.Val = v
		}
	case "dist":
		s.dist(ctx, k, ri)
	case "decode":
		var err error
		k.Dec.got, err = unmarshalAll(k.T, k.Dec.slots)
		k.fail(err)
	}
}

func see(k *Call, ri rpcinfo.RPCInfo, rmt remoteinfo.RemoteInfo) {
	k.Tag, k.HasTag = ri.To().Tag(xdssuite.RouterClusterKey)
	k.TO = int64(ri.Config().RPCTimeout())
	if k.HasTag {
		rmt.SetTag(xdssuite.RouterClusterKey, "verif-probe")
		now, _ := ri.To().Tag(xdssuite.RouterClusterKey)
		k.Locked = now == k.Tag
		if !k.Locked {
			rmt.SetTag(xdssuite.RouterClusterKey, k.Tag)
		}
	}
}

func (s *Suite) resolve(ctx context.Context, k *Call, desc string) {
	k.Resolved = true
	r, err := k.Obj.res.Resolve(ctx, desc)
	if err != nil {
		k.RErr = err.Error()
		if k.RErr == "" {
			k.RErr = "(empty)"
		}
		return
	}
	k.CacheKey, k.Cachable = r.CacheKey, r.Cacheable
	for _, i := range r.Instances {
		if i == nil || i.Address() == nil {
			k.Insts = append(k.Insts, "nil")
			continue
		}
		k.Insts = append(k.Insts, fmt.Sprintf("%s|%s|%d", i.Address().Network(), i.Address().String(), i.Weight()))
	}
}

// dist finds out with what probability the route's clusters are chosen: it walks the tree of all
// outcomes of the bounded random draws, if that is small, else it samples.
func (s *Suite) dist(ctx context.Context, k *Call, ri rpcinfo.RPCInfo) {
	t0 := det.Now()
	if _, err := k.Obj.router.Route(ctx, ri); err != nil && det.Now().Sub(t0) >= time.Duration(s.c.p.Cfg.FetchMS)*time.Millisecond {
		return // something is absent
	}
	// everything is cached now
	ctx = context.WithValue(ctx, muteKey{}, true)
	k.Dist, k.Count = map[string]*big.Rat{}, map[string]int{}
	lost := false // something went away meanwhile
	one := func() string {
		t0 := det.Now()
		r, err := k.Obj.router.Route(ctx, ri)
		if err != nil {
			lost = lost || det.Now().Sub(t0) >= time.Duration(s.c.p.Cfg.FetchMS)*time.Millisecond
			return "error"
		}
		return "=" + r.ClusterPicked
	}
	var path []uint64   // outcomes to force
	var bounds []uint64 // bounds of the draws of the current run
	at, wild := 0, false
	me := det.Cur()
	det.DrawHook = func(n uint64) (uint64, bool) {
		if det.Cur() != me {
			return 0, false
		}
		if at >= 4 {
			wild = true
			return 0, false
		}
		if at == len(path) {
			path = append(path, 0)
		}
		bounds = append(bounds, n)
		at++
		return path[at-1], true
	}
	env := det.EnvCount()
	det.FloatHook = func() (float64, bool) {
		if det.Cur() == me {
			wild = true
		}
		return 0, false
	}
	defer func() {
		det.DrawHook, det.FloatHook = nil, nil
		if lost {
			k.Dist, k.Leafs, k.Count, k.Draws = nil, 0, nil, 0
		}
	}()
	max := k.S.N
	if max == 0 {
		max = 150
	}
	for !wild && !lost {
		at, bounds = 0, bounds[:0]
		got := one()
		if det.EnvCount() != env {
			wild = true // other randomness than bounded draws
			break
		}
		path = path[:at]
		p := big.NewRat(1, 1)
		size := uint64(1)
		for _, n := range bounds {
			if n > uint64(max) || size > uint64(max) {
				wild = true
				break
			}
			size *= n
			p.Mul(p, big.NewRat(1, int64(n)))
		}
		if wild || size > uint64(max) {
			wild = true
			break
		}
		if k.Dist[got] == nil {
			k.Dist[got] = new(big.Rat)
		}
		k.Dist[got].Add(k.Dist[got], p)
		k.Leafs++
		// next leaf
		i := at - 1
		for ; i >= 0; i-- {
			if path[i]+1 < bounds[i] {
				path[i]++
				path = path[:i+1]
				break
			}
		}
		if i < 0 {
			return
		}
		if k.Leafs > 4*max {
			wild = true
		}
	}
	k.Dist, k.Leafs = nil, 0
	// sampling: first the ends of the range, then at random
	at = 0
	ends := 0
	det.FloatHook = nil
	det.DrawHook = func(n uint64) (uint64, bool) {
		if det.Cur() != me || ends >= 4 {
			return 0, false
		}
		ends++
		switch ends {
		case 1:
			return 0, true
		case 2:
			return n - 1, true
		case 3:
			return n / 2, true
		}
		if n > 1 {
			return 1, true
		}
		return 0, true
	}
	for i := 0; i < 4 && !lost; i++ {
		if got := one(); k.Count[got] == 0 {
			k.Count[got+"?"] = 1 // possible, but not part of the sample
		}
	}
	det.DrawHook = nil
	for ; k.Draws < 10*max && !lost; k.Draws++ {
		k.Count[one()]++
	}
}

// snap records the state of all policies; the caller has seen to it that nothing is going on.
func (s *Suite) snap() {
	if s.c.p.Prop == "C07" {
		return // looks into Kitex's objects unlocked, and nothing is asked about them
	}
	if !s.quiesce() {
		return
	}
	n := &Snap{CB: map[int]map[string]circuitbreak.CBConfig{}, Retry: map[int]map[string]any{}, Lim: map[int]limVal{}, Push: map[int]*limVal{}}
	for _, o := range s.objs {
		n.CB[o.id] = cbOf(o.cb)
		n.Retry[o.id] = retryOf(o.rc)
	}
	for _, v := range s.srvs {
		n.Lim[v.id] = limVal{v.lim.MaxQPS, v.lim.MaxConnections}
		n.Push[v.id] = v.last
	}
	s.c.h.add(&Ev{K: "snap", X: n})
}

// quiesce waits until everything delivered so far has been dealt with.
func (s *Suite) quiesce() bool {
	s.c.settle()
	if readInt(&s.c.cp.inflight) != 0 {
		return false
	}
	s.c.h.add(&Ev{K: "quiet"})
	return true
}

func cbOf(cb *circuitbreak.CBSuite) map[string]circuitbreak.CBConfig {
	out := map[string]circuitbreak.CBConfig{}
	if cb == nil {
		return out
	}
	d, _ := cb.Dump().(map[string]interface{})
	cf, _ := d["cb_config"].(map[string]interface{})
	sv, _ := cf["service"].(map[string]interface{})
	if sv == nil {
		panic("the dump of the circuit breaker has no service configuration")
	}
	for k, v := range sv {
		if c, ok := v.(circuitbreak.CBConfig); ok {
			out[k] = c
		}
	}
	return out
}

func retryOf(rc *retry.Container) map[string]any {
	out := map[string]any{}
	if rc == nil {
		return out
	}
	d, _ := rc.Dump().(map[string]interface{})
	for k, v := range d {
		if m, ok := v.(map[string]interface{}); ok && k != "msg" && k != "has_code_cfg" {
			fp, _ := m["failure_retry"].(*retry.FailurePolicy)
			if fp != nil {
				fp = fp.DeepCopy()
			}
			en, _ := m["enable"].(bool)
			out[k] = &retrySeen{en, fp}
		}
	}
	return out
}

type retrySeen struct {
	enable bool
	fp     *retry.FailurePolicy
}

// toDecode puts together what is to be decoded: given slots, or what the control plane has.
func (s *Suite) toDecode(k *Call, o *Op) bool {
	d := &Decoded{}
	k.Dec = d
	cp := s.c.cp
	switch {
	case o.Raw != nil:
		d.raw = &RawPush{}
		if err := json.Unmarshal(o.Raw, d.raw); err != nil {
			panic(err)
		}
		d.slots = d.raw.anys()
	case k.T == NDS:
		d.table = cp.table
		d.slots = []*anypb.Any{ndsRes(cp.table)}
	default:
		d.specs = map[string]any{}
		for _, n := range sortedKeys(cp.res[k.T]) {
			x := cp.res[k.T][n]
			if sp := cp.specs[x.sig]; sp != nil {
				d.specs[n] = sp
				d.slots = append(d.slots, x.any)
			}
		}
		if o.V%2 == 1 {
			for i, j := 0, len(d.slots)-1; i < j; i, j = i+1, j-1 {
				d.slots[i], d.slots[j] = d.slots[j], d.slots[i]
			}
		}
	}
	return true
}

// unmarshalAll calls the decoder of a type as the client does.
func unmarshalAll(t RType, slots []*anypb.Any) (names map[string]any, err error) {
	names = map[string]any{}
	switch t {
	case LDS:
		m, e := xdsresource.UnmarshalLDS(slots)
		for k, v := range m {
			names[k] = v
		}
		return names, e
	case NDS:
		r, e := xdsresource.UnmarshalNDS(slots)
		if r != nil {
			names["table"] = r.NameTable
		}
		return names, e
	}
	var m map[string]xdsresource.Resource
	switch t {
	case RDS:
		m, err = xdsresource.UnmarshalRDS(slots)
	case CDS:
		m, err = xdsresource.UnmarshalCDS(slots)
	case EDS:
		m, err = xdsresource.UnmarshalEDS(slots)
	}
	for k, v := range m {
		names[k] = v
	}
	return names, err
}
