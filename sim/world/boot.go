//go:build go1.21

package world

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"time"

	kclient "github.com/cloudwego/kitex/client"
	"github.com/cloudwego/kitex/pkg/rpcinfo"
	"github.com/cloudwego/kitex/pkg/rpcinfo/remoteinfo"
	"github.com/cloudwego/kitex/pkg/utils"
	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/structpb"

	xds "github.com/kitex-contrib/xds"
	ads "github.com/kitex-contrib/xds/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice"
	"github.com/kitex-contrib/xds/core/manager"
	"github.com/kitex-contrib/xds/verifsim/det"
	"github.com/kitex-contrib/xds/xdssuite"
)

// The boot world: one simulated process reads its environment, initialises the client any number of times,
// one after the other and concurrently, each time with a control plane of its own, so that every request and
// every answer tells which initialisation it belongs to.

var bootVars = []string{"POD_NAMESPACE", "POD_NAME", "INSTANCE_IP", "KITEX_XDS_DOMAIN", "ISTIO_VERSION", "KITEX_XDS_METAS"}

// BootEnv is an environment; a variable that is missing is not set.
type BootEnv map[string]string

func (e BootEnv) apply() {
	for _, v := range bootVars {
		if s, ok := e[v]; ok {
			os.Setenv(v, s)
		} else {
			os.Unsetenv(v)
		}
	}
}

// missing is a variable without which there is no identity.
func (e BootEnv) missing() string {
	for _, v := range []string{"POD_NAMESPACE", "POD_NAME", "INSTANCE_IP"} {
		if e[v] == "" {
			return v
		}
	}
	return ""
}

// metas gives the metadata the user supplied; ok: it is a JSON object or there is none.
func (e BootEnv) metas() (m map[string]any, ok bool) {
	s := e["KITEX_XDS_METAS"]
	if s == "" {
		return nil, true
	}
	if json.Unmarshal([]byte(s), &m) != nil || m == nil {
		return nil, false
	}
	return m, true
}

// initRec is one initialisation.
type initRec struct {
	idx      int
	mode     string
	env      BootEnv
	ndsOff   bool
	fail     bool
	cp       *CP
	inv, ret int64
	err      error
	panicked string
	inited   bool // what XDSInited said afterwards
	clients  int
	task     *det.Task
}

func (r *initRec) ok() bool { return r.ret > 0 && r.err == nil && r.panicked == "" }

// idProbe is one question to the manager in use.
type idProbe struct {
	op       *Op
	inv, ret int64
	got      string
	err      string
	panicked string
	final    bool
}

type Boot struct {
	p      *Plan
	h      *History
	o      *Outcome
	env    BootEnv
	recs   []*initRec
	failAt map[int]bool
	probes []*idProbe
	fired  map[string]int
	hung   bool
	calmed bool
}

var bootHosts = []string{"svc", "web"}

// RunBoot executes one plan of the boot world.
func RunBoot(p *Plan, trace bool) *Outcome {
	h := &History{Probes: map[string]int{}}
	b := &Boot{p: p, h: h, env: BootEnv{}, failAt: map[int]bool{}, fired: map[string]int{}}
	BootEnv{}.apply() // nothing from the run before
	det.Reset()
	ads.SimClient = b.client
	res := det.Run(simConfig(p, trace), b.root)
	b.o = &Outcome{Res: res, H: h, Fired: b.fired}
	for _, r := range b.recs {
		if r.cp != nil {
			for k, n := range r.cp.fired {
				b.fired[k] += n
			}
		}
	}
	b.check()
	// the environment is part of what a run explores
	f := fnv.New64a()
	for i := range p.Ops {
		f.Write([]byte(opString(&p.Ops[i])))
	}
	res.Hash ^= f.Sum64()
	return b.o
}

// client is the connection to the control plane of the initialisation that asks for it.
func (b *Boot) client(dest string, opts []kclient.Option) (ads.Client, error) {
	co, di := &kclient.Options{}, &utils.Slice{}
	for _, o := range opts {
		o.F(co, di)
	}
	var rec *initRec
	if s := strings.TrimPrefix(co.Targets, "cp"); s != co.Targets {
		n, _ := strconv.Atoi(strings.Split(s, ".")[0])
		for _, r := range b.recs {
			if r.idx == n {
				rec = r
			}
		}
	} else {
		for _, r := range b.recs {
			if r.task == det.Cur() {
				rec = r
			}
		}
		if rec == nil && len(b.recs) > 0 {
			rec = b.recs[len(b.recs)-1]
		}
	}
	if rec == nil {
		return nil, errors.New("no such control plane")
	}
	rec.clients++
	if rec.fail {
		b.fired["client-failure"]++
		return nil, errors.New("cannot create the client")
	}
	return &fakeClient{rec.cp}, nil
}

func (b *Boot) newCP(r *initRec) *CP {
	cfg := b.p.Cfg
	cfg.NDSOff = r.ndsOff
	cp := newCP(b.h, &cfg, b.p.Env+int64(r.idx)*7919)
	cp.base = r.idx * 1000
	cp.table = map[string][]string{}
	i := 0
	meta, _ := r.env.metas()
	mns, _ := meta["NAMESPACE"].(string)
	for _, h := range bootHosts {
		for _, ns := range []string{r.env["POD_NAMESPACE"], mns, "default", "other"} {
			for _, dom := range []string{r.env["KITEX_XDS_DOMAIN"], "cluster.local", "corp.example"} {
				if ns == "" || dom == "" {
					continue
				}
				n := strings.ToLower(h + "." + ns + ".svc." + dom)
				if cp.table[n] != nil {
					continue
				}
				i++
				ip := fmt.Sprintf("10.%d.0.%d", r.idx, i)
				cp.table[n] = []string{ip}
				cp.put(&Op{K: "put", T: "lds", N: ip + "_80", Raw: raw(&LisSpec{Chains: []ChainSpec{{Filters: []FiltSpec{{
					K: "http", Inline: &RCSpec{Name: "in", VHs: []VHSpec{{Name: "v", Routes: []RouteSpec{{PK: "prefix", P: "/", Act: "cluster", Cl: []WCSpec{{N: "k-" + ip}}}}}}},
				}}}}})})
			}
		}
	}
	cp.put(&Op{K: "put", T: "cds", N: "id", Raw: raw(&CluSpec{Type: "eds", EDS: true})})
	w := uint32(1)
	cp.put(&Op{K: "put", T: "eds", N: "id", Raw: raw(&EdsSpec{Locs: []LocSpec{{Eps: []EpSpec{{A: fmt.Sprintf("10.77.0.%d", r.idx), P: 8080, W: &w}}}}})})
	return cp
}

func (b *Boot) root() {
	b.env.apply()
	cnt := &cntW{}
	for i := range b.p.Ops {
		o := &b.p.Ops[i]
		if o.A > 0 {
			cnt.n++
			det.GoNamed(fmt.Sprintf("boot%d", o.A), func() {
				if o.Gap > 0 {
					det.Sleep(time.Duration(o.Gap))
				}
				b.op(o)
				cnt.done()
			})
			continue
		}
		if !waitCnt(cnt, bootLimit) {
			b.hung = true
			return
		}
		if o.Gap > 0 {
			det.Sleep(time.Duration(o.Gap))
		}
		if o.K == "init" {
			// with a time limit
			cnt.n++
			det.GoNamed("boot", func() { b.op(o); cnt.done() })
			continue
		}
		b.op(o)
	}
	if !waitCnt(cnt, bootLimit) {
		b.hung = true
	}
}

func (b *Boot) op(o *Op) {
	switch o.K {
	case "env":
		e := BootEnv{}
		if err := json.Unmarshal(o.Raw, &e); err != nil {
			panic(err)
		}
		b.env = e
		e.apply()
	case "clientfail":
		b.failAt[o.C] = true
	case "init":
		b.init(o)
	case "ident", "route":
		b.probe(o)
	case "settle":
		b.settle()
	case "final":
		b.final()
	default:
		for _, r := range b.recs {
			if int64(r.idx) == o.Cn {
				cpOp(r.cp, o)
			}
		}
	}
}

func (b *Boot) settle() {
	for i := 0; i < 2000; i++ {
		det.WaitIdle()
		busy := false
		for _, r := range b.recs {
			busy = busy || r.cp.inflight > 0
		}
		if !busy {
			return
		}
		det.Sleep(time.Millisecond)
	}
}

// final ends all faults and waits until the clients are connected.
func (b *Boot) final() {
	for _, r := range b.recs {
		cpOp(r.cp, bareOp("calm"))
	}
	det.Sleep(time.Millisecond)
	for i := 0; i < 900; i++ {
		live := true
		for _, r := range b.recs {
			live = live && (len(r.cp.streams) == 0 || cpLive(r.cp))
		}
		if live {
			break
		}
		det.Sleep(time.Second)
	}
	b.settle()
	det.Sleep(3 * time.Second)
	b.settle()
	b.calmed = true
}

func (b *Boot) init(o *Op) {
	r := &initRec{idx: o.C, mode: o.X, env: b.env, ndsOff: o.X == "cfg" && o.V&1 != 0, fail: b.failAt[o.C], task: det.Cur()}
	r.cp = b.newCP(r)
	b.recs = append(b.recs, r)
	addr := fmt.Sprintf("cp%d.sim:15010", r.idx)
	var opts []manager.Option
	switch o.X {
	case "addr", "mgr":
		opts = append(opts, xds.WithXDSServerAddress(addr))
	case "cfg":
		opts = append(opts, xds.WithXDSServerConfig(&manager.XDSServerConfig{SvrAddr: addr, SvrName: "istiod", NDSNotRequired: o.V&1 != 0, LDSNotRequired: o.V&2 != 0}))
	}
	r.inv = b.h.add(&Ev{K: "init", Op: o}).Seq
	func() {
		defer func() {
			if x := recover(); x != nil {
				r.panicked = fmt.Sprint(x) + " "
			}
		}()
		if o.X == "mgr" {
			m, err := manager.NewXDSResourceManager(nil, opts...)
			if err == nil && m == nil {
				err = errors.New("neither a manager nor an error")
			}
			if err == nil {
				err = xdssuite.SetXDSResourceManager(m)
			}
			r.err = err
			return
		}
		r.err = xds.Init(opts...)
	}()
	r.inited = xdssuite.XDSInited()
	r.ret = b.h.add(&Ev{K: "inited", Op: o, Err: fmt.Sprint(r.err, " ", r.inited)}).Seq
}

func (b *Boot) probe(o *Op) {
	if !xdssuite.XDSInited() {
		return
	}
	p := &idProbe{op: o, final: b.calmed}
	b.probes = append(b.probes, p)
	p.inv = b.h.add(&Ev{K: "ask", Op: o}).Seq
	func() {
		defer func() {
			if x := recover(); x != nil {
				p.panicked = fmt.Sprint(x) + " "
			}
		}()
		ctx := context.Background()
		if o.K == "ident" {
			r, err := xdssuite.NewXDSResolver().Resolve(ctx, "id")
			if err != nil {
				p.err = err.Error()
				return
			}
			for _, i := range r.Instances {
				p.got += i.Address().String()
			}
			return
		}
		rmt := remoteinfo.NewRemoteInfo(&rpcinfo.EndpointBasicInfo{ServiceName: o.N, Method: "M"}, "M")
		ri := rpcinfo.NewRPCInfo(rpcinfo.NewEndpointInfo("self", "M", nil, nil), rmt.ImmutableView(), rpcinfo.NewInvocation("S", "M", "p"), rpcinfo.NewRPCConfig(), rpcinfo.NewRPCStats())
		r, err := xdssuite.NewXDSRouter().Route(rpcinfo.NewCtxWithRPCInfo(ctx, ri), ri)
		if err != nil {
			p.err = err.Error()
			return
		}
		p.got = r.ClusterPicked
	}()
	p.ret = b.h.add(&Ev{K: "told", Op: o, Err: p.got + p.err}).Seq
}

// ---- the oracle ----

func (b *Boot) v(class, f string, a ...any) { b.o.viol("C20", class, f, a...) }

func (e BootEnv) String() string {
	s := ""
	for _, v := range bootVars {
		if x, ok := e[v]; ok {
			s += fmt.Sprintf("%s=%q ", v, x)
		}
	}
	return strings.TrimSpace(s)
}

func (b *Boot) check() {
	for _, pa := range b.o.Res.Panics {
		b.v("panic", "task %s panicked: %s\n%s", pa.Task, pa.Value, firstN(pa.Stack, 3000))
	}
	if len(b.o.Res.Panics) > 0 {
		return
	}
	if b.o.Res.Steps >= 600000 {
		b.o.Incon = "an initialisation did not finish"
	} else if b.hung {
		for _, r := range b.recs {
			if r.inv > 0 && r.ret == 0 {
				b.v("hang", "initialisation %d has neither succeeded nor failed after %s", r.idx, bootLimit)
			}
		}
		if len(b.o.Viols) == 0 {
			b.o.Incon = "an operation did not finish"
		}
	}
	for _, r := range b.recs {
		if r.ret > 0 {
			b.checkInit(r)
		}
	}
	asked := 0
	seen := map[string]bool{}
	for _, e := range b.h.Evs {
		if e.K != "send" && e.K != "void" {
			continue
		}
		asked++
		for _, r := range b.recs {
			if r.idx == e.Stream/1000 {
				key := fmt.Sprint(r.idx, " ", e.Node)
				if !seen[key] {
					seen[key] = true
					b.checkNode(r, e)
				}
			}
		}
	}
	b.checkFirst()
	b.checkNames()
	b.h.Probes["requests"] += asked
	b.o.Trivial = asked == 0
	for _, r := range b.recs {
		if r.ret > 0 && r.env.missing() != "" {
			b.h.Probes["init-incomplete-environment"]++
			b.o.Trivial = false
		} else if r.ok() {
			b.h.Probes["init-ok"]++
		}
	}
}

// before: some initialisation had certainly succeeded before r was invoked; maybe: or could have while it ran.
func (b *Boot) before(r *initRec) (sure, maybe bool) {
	for _, q := range b.recs {
		if q == r || !(q.ok() || q.ret == 0) {
			continue
		}
		if q.ret > 0 && q.ret < r.inv {
			sure = true
		}
		if q.inv < r.ret {
			maybe = true
		}
	}
	return
}

func (b *Boot) checkInit(r *initRec) {
	who := fmt.Sprintf("initialisation %d (%s) in the environment %s", r.idx, r.mode, r.env)
	if r.panicked != "" {
		b.v("panic", "%s panicked: %s", who, r.panicked)
		return
	}
	sure, maybe := b.before(r)
	fresh := r.mode == "mgr" || !maybe // it cannot have found a manager in place
	_, metaOK := r.env.metas()
	if mis := r.env.missing(); mis != "" {
		if fresh && r.err == nil {
			b.v("unchecked", "%s succeeded although %s is missing", who, mis)
		}
		if n := len(r.cp.streams); n > 0 {
			b.v("half-configured", "%s opened a stream although %s is missing", who, mis)
		}
		if !maybe && r.inited {
			b.v("half-configured", "after %s, which failed (%v), there is a manager", who, r.err)
		}
		return
	}
	if r.fail && fresh {
		if r.err == nil {
			b.v("half-configured", "%s succeeded without a client of the control plane", who)
		}
		if !maybe && r.inited {
			b.v("half-configured", "after %s, which failed (%v), there is a manager", who, r.err)
		}
		return
	}
	if metaOK && !r.fail && (fresh || !sure) && r.err != nil {
		b.v("refused", "%s failed: %v", who, r.err)
	}
	if r.ok() && !r.inited {
		b.v("not-set", "%s succeeded and there is no manager", who)
	}
}

func (b *Boot) checkNode(r *initRec, e *Ev) {
	who := fmt.Sprintf("%s request on stream %d, of an initialisation in the environment %s", typeName[e.T], e.Stream%1000, r.env)
	if e.Node == "nil" {
		b.v("node", "%s: no node", who)
		return
	}
	n := &v3core.Node{}
	if err := proto.Unmarshal([]byte(e.Node), n); err != nil {
		panic(err)
	}
	if want := nodeID(r.env["INSTANCE_IP"], r.env["POD_NAME"], r.env["POD_NAMESPACE"], r.env["KITEX_XDS_DOMAIN"]); n.Id != want {
		b.v("node", "%s: the node is %q, it has to be %q", who, n.Id, want)
	}
	meta, ok := r.env.metas()
	if !ok {
		b.h.Probes["metadata-invalid"]++
		return
	}
	got := n.Metadata.GetFields()
	if meta == nil {
		want := r.env["ISTIO_VERSION"]
		if v := got["ISTIO_VERSION"]; v.GetStringValue() != want || v == nil && want != "" {
			b.v("default-version", "%s: no metadata is supplied and ISTIO_VERSION is %v, the default is %q", who, v, want)
		}
		return
	}
	for k, want := range meta {
		f, in := got[k]
		if !in {
			b.v("metadata", "%s: metadata %q is missing", who, k)
			continue
		}
		if k == "INSTANCE_IPS" {
			b.checkIPs(r, who, want, f)
			continue
		}
		if g := f.AsInterface(); !reflect.DeepEqual(g, want) {
			b.v("metadata", "%s: metadata %q is %v, supplied was %v", who, k, g, want)
		}
	}
	b.h.Probes["metadata-compared"]++
}

func (b *Boot) checkIPs(r *initRec, who string, want any, f *structpb.Value) {
	have := map[string]bool{}
	switch x := f.AsInterface().(type) {
	case string:
		for _, s := range strings.Split(x, ",") {
			have[strings.TrimSpace(s)] = true
		}
	case []any:
		for _, s := range x {
			have[fmt.Sprint(s)] = true
		}
	}
	if ip := r.env["INSTANCE_IP"]; !have[ip] {
		b.v("instance-ips", "%s: INSTANCE_IPS is %v, supplied was %v, and the address of the pod is not an element", who, f.AsInterface(), want)
	}
	if s, ok := want.(string); ok {
		b.h.Probes["instance-ips"]++
		for _, x := range strings.Split(s, ",") {
			if x = strings.TrimSpace(x); x != "" && !have[x] {
				b.v("instance-ips", "%s: INSTANCE_IPS is %v, supplied was %v: %q is lost", who, f.AsInterface(), want, x)
			}
		}
	}
}

// firsts are the initialisations whose manager may be the one kept.
func (b *Boot) firsts() []*initRec {
	var l []*initRec
	for _, r := range b.recs {
		if !r.ok() && r.ret > 0 || r.clients == 0 {
			continue
		}
		first := true
		for _, q := range b.recs {
			if q.ok() && q.ret < r.inv {
				first = false
			}
		}
		if first {
			l = append(l, r)
		}
	}
	return l
}

func (b *Boot) checkFirst() {
	may := map[string]int{}
	for _, r := range b.firsts() {
		may[fmt.Sprintf("10.77.0.%d:8080", r.idx)] = r.idx
	}
	var first *idProbe
	for _, p := range b.probes {
		if p.panicked != "" {
			b.v("panic", "a lookup through the manager in place panicked: %s", p.panicked)
			continue
		}
		if p.op.K != "ident" || p.ret == 0 {
			continue
		}
		if p.err != "" {
			if p.final {
				b.v("unusable", "nothing is wrong with the control plane and lookups fail: %s", p.err)
			}
			continue
		}
		b.h.Probes["identified"]++
		if _, ok := may[p.got]; !ok {
			b.v("not-first", "the manager in use belongs to the initialisation with control plane %s, the first ones are %v", p.got, may)
		}
		if first != nil && first.got != p.got {
			b.v("replaced", "the manager was the one of control plane %s and later the one of %s", first.got, p.got)
		}
		first = p
	}
}

// checkNames: the names of services are expanded with the namespace in force.
func (b *Boot) checkNames() {
	l := b.firsts()
	for _, p := range b.probes {
		if p.op.K != "route" || p.ret == 0 || p.panicked != "" || (p.err != "" && !p.final) {
			continue
		}
		var want []string
		skip := false
		for _, r := range l {
			meta, ok := r.env.metas()
			mns, str := meta["NAMESPACE"].(string)
			if _, set := meta["NAMESPACE"]; r.ndsOff || !ok || set && !str {
				skip = true
				break
			}
			m := newModel(&Cfg{NS: r.env["POD_NAMESPACE"], Domain: r.env["KITEX_XDS_DOMAIN"], MetaNS: mns})
			m.table = r.cp.table
			if lis := m.bind(p.op.N); lis != "" && r.cp.res[LDS][lis].sig != "" {
				want = append(want, "k-"+strings.Split(lis, "_")[0])
			} else {
				want = append(want, "")
			}
		}
		if skip || len(want) == 0 {
			continue
		}
		b.h.Probes["expanded"]++
		ok := false
		for _, w := range want {
			ok = ok || w == p.got
		}
		if !ok {
			b.v("expansion", "%q is routed to %q (%s), by the namespace in force it is one of %q; environment %s", p.op.N, p.got, p.err, want, l[0].env)
		}
	}
}

// ---- the generator ----

func GenBoot(prop string, seed, idx int64) *Plan {
	r := planRand(prop, seed, idx)
	g := &gen{r: r, prop: prop, p: &Plan{World: "boot", Prop: prop, Seed: r.Int63(), Env: r.Int63()}}
	p := g.p
	c := &p.Cfg
	c.Conc = g.p100(40)
	c.FetchMS = 1000
	c.Auto = map[string]string{"lds": "full", "rds": "full", "cds": "full", "eds": "full", "nds": "full"}
	c.ProcMax, c.NetMax = g.gap(0, 3e6), g.gap(0, 3e6)
	c.Strict = g.p100(30)
	protoStyle(g.r, c)
	g.policy(c.Conc)
	add := func(o Op) { p.Ops = append(p.Ops, o) }
	n, act := 0, 0
	inited := false
	env := g.bootEnv(true)
	add(Op{K: "env", Raw: raw(env)})
	mode := func() string { return pick(r, "plain", "addr", "addr", "cfg", "mgr") }
	var live []int
	one := func(a int) {
		n++
		o := Op{K: "init", A: a, C: n, X: mode()}
		if o.X == "cfg" {
			o.V = pick(r, 0, 0, 1, 2, 3)
		}
		if a > 0 {
			o.Gap = pick(r, int64(0), 0, g.gap(0, 2000), g.gap(0, 5e6))
		}
		if g.p100(5) {
			add(Op{K: "clientfail", C: n})
		} else if env.missing() == "" {
			live = append(live, n)
			inited = true
		}
		add(o)
	}
	probe := func(a int) {
		o := Op{K: "ident", A: a}
		if g.p100(40) {
			o.K, o.N = "route", g.bootHost(env)
		}
		if a > 0 {
			o.Gap = g.gap(0, 5e6)
		}
		add(o)
	}
	for k := 1 + r.Intn(4); k > 0; k-- {
		switch weighted(r, 55, 45) {
		case 0:
			one(0)
		case 1:
			for j := 2 + r.Intn(3); j > 0; j-- {
				act++
				one(act)
				if g.p100(30) {
					act++
					probe(act)
				}
			}
		}
		if g.p100(60) {
			probe(0)
		}
		if g.p100(45) {
			env = g.bootEnv(false)
			add(Op{K: "env", Raw: raw(env)})
		}
		for j := r.Intn(3); j > 0 && inited && len(live) > 0; j-- {
			o := g.fault()
			if o.K == "push" && o.T == "nds" || o.X == "auth" {
				continue
			}
			o.Cn = int64(live[0])
			o.Gap = g.gap(0, 2e9)
			add(o)
			if g.p100(50) {
				probe(0)
			}
		}
		if g.p100(15) {
			add(Op{K: "settle", Gap: g.gap(1e9, 90e9)})
		}
	}
	add(Op{K: "final"})
	for k := 1 + r.Intn(3); k > 0; k-- {
		probe(0)
	}
	add(Op{K: "ident"})
	return p
}

func (g *gen) bootHost(e BootEnv) string {
	h := pick(g.r, bootHosts...)
	switch g.r.Intn(6) {
	case 0:
		h += "." + pick(g.r, "default", "other")
	case 1:
		h += "." + pick(g.r, "default", "other") + ".svc"
	case 2:
		h += "." + pick(g.r, "default", "other") + ".svc." + pick(g.r, "cluster.local", "corp.example")
	}
	return h + pick(g.r, "", ":80")
}

func (g *gen) bootEnv(first bool) BootEnv {
	r := g.r
	e := BootEnv{}
	need := func(k string, vals ...string) {
		switch {
		case g.p100(5):
		case g.p100(5):
			e[k] = ""
		default:
			e[k] = pick(r, vals...)
		}
	}
	need("POD_NAMESPACE", "default", "prod", "team-a", "other")
	need("POD_NAME", "pod-0", "web-7d9f4-x2x", "a.b")
	need("INSTANCE_IP", "10.9.8.7", "10.1.1.1", "1.1.1.1", "fe80::1", "10.0.0.1")
	opt := func(k string, vals ...string) {
		if g.p100(60) {
			e[k] = pick(r, vals...)
		}
	}
	opt("KITEX_XDS_DOMAIN", "", "cluster.local", "corp.example", "k8s", "a.b.c.d")
	opt("ISTIO_VERSION", "", "1.13.5", "1.16-dev")
	if g.p100(75) {
		e["KITEX_XDS_METAS"] = g.bootMeta(e["INSTANCE_IP"])
	}
	return e
}

func (g *gen) bootMeta(ip string) string {
	r := g.r
	switch weighted(r, 5, 5, 8, 82) {
	case 0:
		return ""
	case 1:
		return "{}"
	case 2:
		return pick(r, "{", "no json", `{"A":}`, `["A"]`, `"A"`, "null", " ", `{"A":"b"}}`, "{'A':'b'}", "1")
	}
	m := map[string]any{}
	if g.p100(45) {
		m["NAMESPACE"] = pick[any](r, "meta-ns", "other", "other", "", "default")
		if g.p100(6) {
			m["NAMESPACE"] = pick[any](r, 5.0, true, nil, []any{"other"})
		}
	}
	if g.p100(60) {
		m["INSTANCE_IPS"] = g.bootIPs(ip)
	}
	for _, k := range []string{"LABELS", "ISTIO_VERSION", "CLUSTER_ID", "INSTANCE_IP", "NAME", "k e y", "ünï", "POD_NAMESPACE"} {
		if g.p100(22) {
			m[k] = bootVal(r, 2)
		}
	}
	return string(raw(m))
}

func (g *gen) bootIPs(ip string) any {
	r := g.r
	if g.p100(5) {
		return pick[any](r, 7.0, []any{"10.0.0.1"}, nil, true, map[string]any{"a": "b"})
	}
	var l []string
	if ip == "" {
		ip = "10.9.8.7"
	}
	for k := r.Intn(4); k > 0; k-- {
		l = append(l, pick(r, ip, ip+"0", ip+"1", "1"+ip, ip[:len(ip)-1], ip[1:], "127.0.0.1", "fe80::1", "x"+ip+"y", "", "10.9.8.70"))
	}
	return strings.Join(l, pick(r, ",", ",", ", ", " ,"))
}

func bootVal(r *rand.Rand, deep int) any {
	switch r.Intn(7) {
	case 0:
		return r.Intn(2) == 0
	case 1:
		return float64(r.Intn(2000)) / 4
	case 2:
		return nil
	case 3:
		if deep > 0 {
			return []any{bootVal(r, deep-1), bootVal(r, deep-1)}
		}
	case 4:
		if deep > 0 {
			return map[string]any{"a": bootVal(r, deep-1), "": bootVal(r, deep-1)}
		}
	}
	return pick(r, "x", "", "1.2.3", "a,b", `q"u\o`, "ü", "<>&")
}
