//go:build go1.21

package world

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/cloudwego/kitex/pkg/circuitbreak"
	"github.com/cloudwego/kitex/pkg/retry"
)

// ---- what could be looked up when ----

type tlEntry struct {
	seq  int64
	poss map[string]bool
}

// timeline tells what a lookup could find at any moment, after the reference model.
type timeline struct {
	m    *Model
	ents map[lkKey][]tlEntry
	pend *Resp
	mid  map[lkKey]map[string]bool // while a response is being processed: what was there before
}

func samePoss(a, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

// note records the present possibilities of all names.
func (t *timeline) note(seq int64) {
	for ty, mm := range t.m.names {
		for n, s := range mm {
			k := lkKey{ty, n}
			p := s.poss
			if b := t.mid[k]; b != nil && !samePoss(b, p) {
				p = copySet(p)
				for x := range b {
					p[x] = true
				}
			}
			es := t.ents[k]
			if len(es) == 0 {
				es = append(es, tlEntry{0, map[string]bool{"": true}})
			}
			if !samePoss(es[len(es)-1].poss, p) {
				es = append(es, tlEntry{seq, copySet(p)})
			}
			t.ents[k] = es
		}
	}
}

// poss is what could be found at some moment from one event to another.
func (t *timeline) poss(ty RType, n string, from, to int64) map[string]bool {
	es := t.ents[lkKey{ty, n}]
	if len(es) == 0 {
		return map[string]bool{"": true}
	}
	out := map[string]bool{}
	for i, e := range es {
		if e.seq > to {
			break
		}
		if e.seq <= from && i+1 < len(es) && es[i+1].seq <= from {
			continue
		}
		for s := range e.poss {
			out[s] = true
		}
	}
	return out
}

func (t *timeline) done(seq int64) {
	if t.pend != nil {
		t.pend, t.mid = nil, nil
		t.note(seq)
	}
}

// step folds in one event.
func (t *timeline) step(e *Ev) (accepted bool) {
	switch e.K {
	case "inv":
		s := t.m.st(e.L.T, e.L.N)
		fresh := s.interest == 0
		t.m.lookup(e.L.T, e.L.N, e.At, true)
		if fresh && t.pend != nil { // it may still get into the response being processed
			if sig, ok := t.m.supply(t.pend, e.L.T, e.L.N); ok && sig != "" {
				s.poss = map[string]bool{"": true, sig: true}
				s.ever = true
			}
		}
	case "send":
		t.m.onWire(e.T, e.Names, e.At)
	case "recv":
		t.done(e.Seq)
		if !t.m.listens(e.Resp) || !e.Resp.Valid {
			return false
		}
		t.m.age(e.At)
		t.mid = map[lkKey]map[string]bool{}
		for ty, mm := range t.m.names {
			for n, s := range mm {
				t.mid[lkKey{ty, n}] = copySet(s.poss)
			}
		}
		t.m.apply(e.Resp, e.At)
		t.pend = e.Resp
		accepted = true
	case "recvcall", "recverr", "quiet":
		t.m.age(e.At)
		t.done(e.Seq)
		return false
	case "cret", "ret", "snap", "suited", "served":
		t.m.age(e.At)
	default:
		return false
	}
	t.note(e.Seq)
	return
}

// ---- the checker ----

type sc struct {
	s     *Suite
	o     *Outcome
	cfg   *Cfg
	prop  string
	tl    *timeline
	specs specReg
	ended bool
	fetch int64
	lastC *Resp // latest accepted cluster update
	lastI map[string]int
	cbs   map[*suiteObj]map[string]int // clusters configured: 1 surely, 2 maybe
	first map[*suiteObj]*seen
	live  []*suiteObj
	bseq  int64 // latest accepted route-table update
	basis map[string]map[string]bool
	up    map[*suiteObj]int64 // objects: seq of the latest route-table update they surely saw
	snaps int
	hits  int
}

var suiteProps = map[string]bool{"C08": true, "C09": true, "C10": true, "C11": true, "C12": true, "C13": true, "C15": true, "C16": true, "C17": true, "C18": true}

func (k *sc) v(class, f string, a ...any) {
	if k.prop == "C07" && class != "hang" && class != "call-hang" && class != "panic" {
		return // belongs to another property
	}
	k.o.viol(k.prop, class, f, a...)
}

func (s *Suite) check(o *Outcome) {
	k := &sc{
		s: s, o: o, cfg: &s.c.p.Cfg, prop: s.c.p.Prop, specs: s.c.cp.specs, fetch: int64(s.c.p.Cfg.FetchMS) * 1e6,
		tl:  &timeline{m: newModel(&s.c.p.Cfg), ents: map[lkKey][]tlEntry{}},
		cbs: map[*suiteObj]map[string]int{}, first: map[*suiteObj]*seen{}, up: map[*suiteObj]int64{}, basis: map[string]map[string]bool{}, lastI: map[string]int{},
	}
	if lag := s.c.p.Pol.LagCap; lag > 0 {
		k.tl.m.slack = lag + 2e6
	}
	for _, pa := range o.Res.Panics {
		k.v("panic", "task %s panicked: %s\n%s", pa.Task, pa.Value, firstN(pa.Stack, 3000))
	}
	if len(o.Res.Panics) > 0 {
		return
	}
	if s.c.bootHang {
		o.Incon = "boot"
		return
	}
	if s.c.mErr != nil {
		o.Trivial = true
		return
	}
	if o.Res.StepLimit || o.Res.Deadlock || len(o.Res.Stuck) > 0 {
		k.v("hang", "the run did not come to its end: step limit %v, deadlock %v %v, waiting for locks %v", o.Res.StepLimit, o.Res.Deadlock, o.Res.Blocked, o.Res.Stuck)
		return
	}
	if !k.cfg.NDSOff {
		k.tl.m.st(NDS, "")
	}
	for _, e := range s.c.h.Evs {
		acc := k.tl.step(e)
		switch e.K {
		case "recv":
			if acc {
				k.accepted(e)
			}
		case "suited":
			k.created(e.X.(*suiteObj), e)
		case "snap":
			k.snap(e, e.X.(*Snap))
		case "end":
			k.ended = true
		}
	}
	for _, c := range s.calls {
		k.call(c)
	}
	if k.prop == "C13" || k.prop == "C11" || k.prop == "C12" {
		k.acks()
	}
	o.Trivial = k.hits == 0
	for _, c := range s.calls {
		if c.Done && c.Err == "" {
			s.c.h.probe(c.K + "-ok")
		} else {
			s.c.h.probe(c.K + "-error")
		}
	}
}

// explained: the caller waited long enough for the lookup to have given up.
func (k *sc) explained(c *Call) bool {
	d := c.RetAt - c.InvAt
	switch {
	case d >= k.fetch, c.Dl > 0 && d >= c.Dl, c.Cn < 0, c.Cn > 0 && d >= c.Cn:
		return true
	}
	return false
}

func (k *sc) call(c *Call) {
	who := fmt.Sprintf("%s %d (%s) at %s", c.K, c.ID, callString(c), ft(c.InvAt))
	if c.Inv == 0 {
		return
	}
	if !c.Done {
		if k.ended {
			k.v("call-hang", "%s never returned", who)
		}
		return
	}
	k.hits++
	if c.Panic != "" || c.RPanic != "" {
		k.v("panic", "%s panicked: %s%s", who, c.Panic, c.RPanic)
		return
	}
	switch c.K {
	case "route", "mw", "call", "key":
		k.routed(c, who)
	case "dist":
		k.distribution(c, who)
	case "resolve":
		k.resolution(c, c.S.Desc, who)
	case "fetch":
		k.fetched(c, who)
	case "decode":
		k.decoded(c, who)
	}
}

func callString(c *Call) string {
	switch c.K {
	case "fetch", "decode":
		return typeName[c.T] + " " + c.N
	case "resolve":
		return c.S.Desc
	}
	p := ""
	if c.S.Pkg != "" {
		p = c.S.Pkg + "."
	}
	s := fmt.Sprintf("%s /%s%s/%s metadata %v", c.S.Svc, p, c.S.ISvc, c.S.Method, c.S.md())
	if c.S.Grpc {
		s += " gRPC"
	} else {
		s += fmt.Sprintf(" transport %d", int(transports[c.S.Tp%len(transports)]))
	}
	if c.S.Pre != "" {
		s += " decided:" + c.S.Pre
	}
	return s
}

// ---- routing ----

// decision is one way the routing of a call may come out.
type decision struct {
	why    string
	absent string // resource that was not there
	err    bool
	wild   bool
	either bool // error or cluster
	cl     map[string]uint64
	total  uint64
	to     time.Duration
}

func (d *decision) String() string {
	switch {
	case d.absent != "":
		return "error (" + d.absent + " absent)"
	case d.err:
		return "error (" + d.why + ")"
	case d.wild:
		return "anything"
	}
	return fmt.Sprintf("%v timeout %s (%s)", d.cl, d.to, d.why)
}

func pickOf(r *RouteSpec, why string) *decision {
	d := &decision{cl: map[string]uint64{}, to: r.timeout(), why: why}
	cs := r.clusters()
	switch {
	case len(cs) == 0:
		d.err = true
		d.why += ", no clusters"
	case len(cs) == 1:
		d.cl[cs[0].N], d.total = 1, 1
		if r.Act == "weighted" && cs[0].W == 0 {
			d.either = true
		}
	default:
		for _, c := range cs {
			d.cl[c.N] += uint64(c.W)
			d.total += uint64(c.W)
		}
		if d.total == 0 {
			d.err = true
			d.why += ", total weight zero"
		}
	}
	return d
}

func findRoute(rc *RCSpec, path string, md map[string]string, at string) *decision {
	for i := range rc.VHs {
		for j := range rc.VHs[i].Routes {
			r := &rc.VHs[i].Routes[j]
			if r.pathHolds(path) && headersHold(r.Headers, md) {
				return pickOf(r, fmt.Sprintf("%s virtual host %d route %d", at, i, j))
			}
		}
	}
	return nil
}

// decisions are all the ways the routing of a call may come out, for what could be looked up
// while it ran.
func (k *sc) decisions(c *Call) (ds []*decision) {
	md := c.S.md()
	path := "/" + c.S.ISvc + "/" + c.S.Method
	if c.S.Pkg != "" {
		path = "/" + c.S.Pkg + "." + c.S.ISvc + "/" + c.S.Method
	}
	for sig := range k.tl.poss(LDS, c.S.Svc, c.Inv, c.Ret) {
		if sig == "" {
			ds = append(ds, &decision{absent: "listener", err: true})
			continue
		}
		l, _ := k.specs[sig].(*LisSpec)
		if l == nil {
			return []*decision{{wild: true}}
		}
		var http, thrift *FiltSpec
		for _, ch := range l.all() {
			for i := range ch.Filters {
				switch f := &ch.Filters[i]; f.K {
				case "http":
					http = f
				case "thrift":
					thrift = f
				}
			}
		}
		var d *decision
		if thrift != nil && !c.S.Grpc {
			for i := range thrift.TR {
				if r := &thrift.TR[i]; r.pathHolds(c.S.Method) && headersHold(r.Headers, md) {
					d = pickOf(r, fmt.Sprintf("Thrift route %d", i))
					break
				}
			}
		}
		if d == nil && http == nil {
			d = &decision{err: true, why: "no HTTP filter"}
		}
		if d == nil && http.Inline != nil {
			d = findRoute(http.Inline, path, md, "inline table")
		}
		if d != nil {
			ds = append(ds, d)
			continue
		}
		n := http.Rds
		if http.Inline != nil {
			n = http.Inline.Name
		}
		for rs := range k.tl.poss(RDS, n, c.Inv, c.Ret) {
			if rs == "" {
				ds = append(ds, &decision{absent: "route table " + n, err: true})
				continue
			}
			rc, _ := k.specs[rs].(*RCSpec)
			if rc == nil {
				return []*decision{{wild: true}}
			}
			if d = findRoute(rc, path, md, "table "+n); d == nil {
				d = &decision{err: true, why: "nothing matches"}
			}
			ds = append(ds, d)
		}
	}
	return
}

func (l *LisSpec) all() []*ChainSpec {
	var out []*ChainSpec
	for i := range l.Chains {
		out = append(out, &l.Chains[i])
	}
	if l.Def != nil {
		out = append(out, l.Def)
	}
	return out
}

func dsString(ds []*decision) string {
	m := map[string]bool{}
	for _, d := range ds {
		m[d.String()] = true
	}
	return strings.Join(sortedSet(m), " or ")
}

// fits: the routing may come out with the cluster and timeout, or with an error.
func (k *sc) fits(c *Call, ds []*decision, err bool, cluster string, to time.Duration) bool {
	for _, d := range ds {
		switch {
		case d.wild:
			return true
		case err && d.absent != "":
			if k.explained(c) {
				return true
			}
		case err && (d.err || d.either):
			return true
		case !err && !d.err && d.cl[cluster] > 0 && to == d.to:
			return true
		}
	}
	return false
}

func (k *sc) routed(c *Call, who string) {
	if c.S.Pre != "" {
		if c.K == "route" {
			return // asked directly, the router does not look
		}
		switch {
		case c.Nexts != 1 || c.Err != "":
			k.v("decided-not-passed-on", "%s: the destination was decided already, the call was passed on %d times, error %q", who, c.Nexts, c.Err)
		case c.Tag != c.S.Pre || c.AfterTg != c.S.Pre && c.AfterTg != "verif-probe":
			k.v("decided-changed", "%s: the decided destination became %q", who, c.Tag)
		case c.Locked != c.S.PreLock:
			k.v("decided-lock", "%s: the lock of the decided destination became %v", who, c.Locked)
		case c.TO != c.S.TO*1e6:
			k.v("decided-timeout", "%s: the timeout became %s", who, time.Duration(c.TO))
		}
		if c.K == "call" {
			k.resolution(c, c.S.Pre, who)
		}
		return
	}
	ds := k.decisions(c)
	switch c.K {
	case "route":
		if !k.fits(c, ds, c.Err != "", c.Cluster, time.Duration(c.Timeout)) {
			k.v("route", "%s: routed to %q timeout %s error %q; expected %s", who, c.Cluster, time.Duration(c.Timeout), firstN(c.Err, 160), dsString(ds))
		}
		return
	case "key":
		if c.HasTag {
			if !k.fits(c, ds, false, c.Tag, time.Duration(c.TO)) {
				k.v("key-route", "%s: the retry key step decided %q timeout %s; expected %s", who, c.Tag, time.Duration(c.TO), dsString(ds))
			} else if !c.Locked {
				k.v("not-locked", "%s: the destination is not locked after the retry key step", who)
			}
		}
		return
	}
	if c.Err != "" {
		switch {
		case c.Nexts != 0:
			k.v("fail-open", "%s: failed with %q but was passed on", who, firstN(c.Err, 160))
		case !k.fits(c, ds, true, "", 0):
			k.v("route", "%s: failed with %q; expected %s", who, firstN(c.Err, 160), dsString(ds))
		case !c.IsRoute:
			k.v("not-route-error", "%s: the error %q is not a routing error", who, firstN(c.Err, 160))
		case c.AfterHs:
			k.v("failed-but-decided", "%s: failed with %q, yet has the destination %q", who, firstN(c.Err, 160), c.AfterTg)
		}
		return
	}
	switch {
	case c.Nexts != 1:
		k.v("passed-on", "%s: passed on %d times", who, c.Nexts)
	case !c.HasTag:
		k.v("no-destination", "%s: passed on without a destination; expected %s", who, dsString(ds))
	case !k.fits(c, ds, false, c.Tag, time.Duration(c.TO)):
		k.v("route", "%s: passed on to %q timeout %s; expected %s", who, c.Tag, time.Duration(c.TO), dsString(ds))
	case !c.Locked:
		k.v("not-locked", "%s: the destination %q is not locked", who, c.Tag)
	}
	if c.K == "call" && c.HasTag {
		k.resolution(c, c.Tag, who)
	}
}

// ---- weighted choice ----

func (k *sc) distribution(c *Call, who string) {
	ds := k.decisions(c)
	if len(ds) > 1 { // the first, unmuted, try may have waited for the resources
		var rest []*decision
		for _, d := range ds {
			if d.absent == "" {
				rest = append(rest, d)
			}
		}
		ds = rest
	}
	if len(ds) != 1 || ds[0].wild || ds[0].either {
		return
	}
	d := ds[0]
	want := func(n string) *big.Rat {
		if d.err || d.cl[n] == 0 {
			return new(big.Rat)
		}
		return new(big.Rat).SetFrac(new(big.Int).SetUint64(d.cl[n]), new(big.Int).SetUint64(d.total))
	}
	k.s.c.h.probe("distributions")
	if c.Dist != nil {
		for _, got := range sortedKeys(c.Dist) {
			p := c.Dist[got]
			if got == "error" {
				if !d.err {
					k.v("error-pick", "%s: no cluster is chosen with probability %s; expected %s", who, p, d)
				}
				continue
			}
			if w := want(got[1:]); w.Cmp(p) != 0 {
				k.v("probability", "%s: cluster %q is chosen with probability %s, expected %s (%s)", who, got[1:], p, w, d)
			}
		}
		for n, w := range d.cl {
			if !d.err && w > 0 && c.Dist["="+n] == nil {
				k.v("probability", "%s: cluster %q of weight %d is never chosen (%s)", who, n, w, d)
			}
		}
		return
	}
	for _, got := range sortedKeys(c.Count) {
		if got == "error" || got == "error?" {
			if !d.err {
				k.v("error-pick", "%s: there is a draw for which no cluster is chosen; expected %s", who, d)
			}
			continue
		}
		n := strings.TrimSuffix(got[1:], "?")
		if want(n).Sign() == 0 {
			k.v("zero-weight", "%s: cluster %q was chosen; expected %s", who, n, d)
		}
	}
	if d.err || c.Draws < 50 {
		return
	}
	for n := range d.cl {
		p, _ := want(n).Float64()
		x := float64(c.Draws)
		// a deviation of this size has a probability below 1e-12 (Chernoff)
		if q := float64(c.Count["="+n]) / x; p > 0 && p < 1 && x*kl(q, p) > 28 || p >= 1 && q < 1 {
			k.v("probability", "%s: cluster %q was chosen %d times of %d, expected a share of %.4f (%s)", who, n, c.Count["="+n], c.Draws, p, d)
		}
	}
}

// kl is the divergence of Bernoulli distributions.
func kl(q, p float64) float64 {
	t := func(a, b float64) float64 {
		if a == 0 {
			return 0
		}
		return a * math.Log(a/b)
	}
	return t(q, p) + t(1-q, 1-p)
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- resolution ----

type resolved struct {
	absent string
	err    bool
	wild   bool
	eps    []*EpSpec
}

func (r *resolved) String() string {
	switch {
	case r.absent != "":
		return "error (" + r.absent + " absent)"
	case r.err:
		return "error (no endpoints)"
	case r.wild:
		return "anything"
	}
	var out []string
	for _, e := range r.eps {
		out = append(out, fmt.Sprintf("%s/%d", e.addr(), e.weight()))
	}
	return fmt.Sprint(out)
}

func epsOf(ls []LocSpec) *resolved {
	r := &resolved{}
	for i := range ls {
		for j := range ls[i].Eps {
			r.eps = append(r.eps, &ls[i].Eps[j])
		}
	}
	r.err = len(r.eps) == 0
	return r
}

func (k *sc) resolution(c *Call, desc, who string) {
	if !c.Resolved {
		return
	}
	if c.K == "call" && c.Target != desc {
		k.v("target", "%s: resolution goes by %q, the destination is %q", who, c.Target, desc)
		return
	}
	var rs []*resolved
	for sig := range k.tl.poss(CDS, desc, c.Inv, c.Ret) {
		if sig == "" {
			rs = append(rs, &resolved{absent: "cluster", err: true})
			continue
		}
		s, _ := k.specs[sig].(*CluSpec)
		if s == nil {
			return
		}
		if len(s.Inline) > 0 {
			rs = append(rs, epsOf(s.Inline))
			continue
		}
		for es := range k.tl.poss(EDS, s.edsName(desc), c.Inv, c.Ret) {
			if es == "" {
				rs = append(rs, &resolved{absent: "load assignment " + s.edsName(desc), err: true})
				continue
			}
			e, _ := k.specs[es].(*EdsSpec)
			if e == nil {
				return
			}
			rs = append(rs, epsOf(e.Locs))
		}
	}
	var exp []string
	for _, r := range rs {
		exp = append(exp, r.String())
		switch {
		case c.RErr != "" && r.absent != "":
			if k.explained(c) {
				return
			}
		case c.RErr != "" && r.err:
			return
		case c.RErr == "" && !r.err && sameEps(c.Insts, r.eps):
			if !c.Cachable || c.CacheKey != desc {
				k.v("cache-key", "%s: resolving %q gives a result cacheable %v under %q", who, desc, c.Cachable, c.CacheKey)
			}
			return
		}
	}
	sort.Strings(exp)
	k.v("resolution", "%s: resolving %q gave %v error %q; expected %s", who, desc, c.Insts, firstN(c.RErr, 160), strings.Join(exp, " or "))
}

func sameEps(got []string, want []*EpSpec) bool {
	if len(got) != len(want) {
		return false
	}
	for i, e := range want {
		if got[i] == fmt.Sprintf("tcp|%s|%d", e.addr(), e.weight()) {
			continue
		}
		// without a weight kitex' own default is fine too
		if e.weight() == 0 && got[i] == fmt.Sprintf("tcp|%s|10", e.addr()) {
			continue
		}
		return false
	}
	return true
}

// ---- decoding ----

func (k *sc) fetched(c *Call, who string) {
	poss := k.tl.poss(c.T, c.N, c.Inv, c.Ret)
	if c.Err != "" {
		if !poss[""] || !k.explained(c) {
			k.v("fetch", "%s: failed with %q; possible: %s", who, firstN(c.Err, 160), possString(poss))
		}
		return
	}
	var ds []string
	for sig := range poss {
		s := k.specs[sig]
		switch {
		case sig == "":
			continue
		case s == nil:
			return
		}
		d := cmpSpec(s, c.Val, c.N)
		if d == "" {
			return
		}
		ds = append(ds, d)
	}
	sort.Strings(ds)
	k.v("value", "%s: the value served differs from what was sent: %s", who, strings.Join(ds, " / "))
}

func (k *sc) decoded(c *Call, who string) {
	d := c.Dec
	if d == nil {
		return
	}
	switch {
	case d.raw != nil:
		k.s.c.h.probe("decode-" + d.raw.V + "-" + shortType[c.T])
		if d.raw.V == "yes" && c.Err != "" {
			k.v("rejects-valid", "%s: a well-formed %s payload (%s) is reported as an error: %s", who, typeName[c.T], d.raw.Why, firstN(c.Err, 300))
		}
		if d.raw.V == "no" && c.Err == "" {
			k.v("accepts-invalid", "%s: an invalid %s payload (%s) is not reported as an error", who, typeName[c.T], d.raw.Why)
		}
	case c.Err != "":
		k.v("rejects-valid", "%s: %d well-formed resources are rejected: %s", who, len(d.specs), firstN(c.Err, 300))
	case c.T == NDS:
		m, _ := d.got["table"].(map[string][]string)
		if x := cmpNames(d.table, m); x != "" {
			k.v("names", "%s: the name table differs: %s", who, x)
		}
	default:
		if len(d.got) != len(d.specs) {
			k.v("keys", "%s: %d resources came out as %q", who, len(d.specs), sortedKeys(d.got))
			return
		}
		for _, n := range sortedKeys(d.specs) {
			v, ok := d.got[n]
			if !ok {
				k.v("keys", "%s: resource %q is missing, got %q", who, n, sortedKeys(d.got))
				return
			}
			if x := cmpSpec(d.specs[n], v, n); x != "" {
				k.v("value", "%s: resource %q differs from what was sent: %s", who, n, x)
			}
		}
	}
}

// acks: every response read is answered, accepted or rejected as it deserves.
func (k *sc) acks() {
	broken := map[int]bool{}
	ans := map[string][]*Ev{}
	ended := false
	for _, e := range k.s.c.h.Evs {
		switch e.K {
		case "broken", "closed", "recverr":
			broken[e.Stream] = true
		case "send":
			if e.Nonce != "" {
				n := nonceKey(e.Stream, e.Nonce)
				ans[n] = append(ans[n], e)
			}
		case "end":
			ended = true
		}
	}
	subbed := map[RType]bool{NDS: !k.cfg.NDSOff}
	for _, e := range k.s.c.h.Evs {
		switch {
		case e.K == "send":
			subbed[e.T] = true
		case e.K == "recv" && subbed[e.T]:
			r := e.Resp
			verdict := "yes"
			why := "resources built from the specification"
			if p, ok := r.extra.(*RawPush); ok {
				verdict, why = p.V, p.Why
			} else if !r.Valid {
				verdict = "no"
			}
			as := ans[nonceKey(r.Stream, r.Nonce)]
			if len(as) == 0 {
				if ended && !broken[e.Stream] {
					k.v("no-answer", "the %s response %q (%s) read at %s was never answered", typeName[r.T], r.Nonce, why, ft(e.At))
				}
				continue
			}
			nack := as[0].Err != "" || as[0].ErrCode != 0
			if verdict == "yes" && nack {
				k.v("rejects-valid", "the %s response %q (%s), well-formed, was rejected: %s", typeName[r.T], r.Nonce, why, firstN(as[0].Err, 300))
			}
			if verdict == "no" && !nack {
				k.v("accepts-invalid", "the %s response %q (%s), invalid, was accepted", typeName[r.T], r.Nonce, why)
			}
			k.hits++
		}
	}
}

// ---- policies ----

func (k *sc) accepted(e *Ev) {
	switch e.Resp.T {
	case CDS:
		k.lastC = e.Resp
		k.lastI = map[string]int{}
		for n, s := range k.tl.m.names[CDS] {
			k.lastI[n] = s.interest
		}
		for _, o := range k.live {
			k.configured(o, 1)
		}
	case RDS:
		k.bseq = e.Seq
		k.basis = map[string]map[string]bool{}
		for n, s := range k.tl.m.names[RDS] {
			k.basis[n] = copySet(s.poss)
		}
	}
}

// configured notes which clusters the current update configures for o.
func (k *sc) configured(o *suiteObj, how int) {
	if k.lastC == nil {
		return
	}
	m := k.cbs[o]
	if m == nil {
		m = map[string]int{}
		k.cbs[o] = m
	}
	for n, sig := range k.lastC.Items {
		c, _ := k.specs[sig].(*CluSpec)
		if c == nil || c.OD == nil {
			continue
		}
		h := how
		if k.lastI[n] != 1 {
			h = 2
		}
		if m[n] != 1 {
			m[n] = h
		}
	}
}

func (k *sc) created(o *suiteObj, e *Ev) {
	// an update while it was being created may or may not have been seen by it before
	k.live = append(k.live, o)
	how := 1
	if k.tl.pend != nil {
		how = 2
	}
	k.configured(o, how)
	// what has been evicted by then is not part of the state any more
	sure := &seen{k.lastC, map[string]bool{}}
	for n, s := range k.tl.m.names[CDS] {
		sure.has[n] = s.interest == 1 && !s.poss[""]
	}
	for n := range k.cbs[o] {
		if !sure.has[n] {
			k.cbs[o][n] = 2
		}
	}
	k.first[o] = sure
}

func (k *sc) snap(e *Ev, sn *Snap) {
	k.snaps++
	k.hits++
	switch k.prop {
	case "C16":
		for _, o := range k.s.objs {
			if o.ret == 0 || o.ret > e.Seq {
				continue
			}
			k.breakers(e, o, sn.CB[o.id])
		}
	case "C17":
		for _, o := range k.s.objs {
			if o.ret == 0 || o.ret > e.Seq {
				continue
			}
			k.retries(e, o, sn.Retry[o.id])
		}
	case "C18":
		for _, v := range k.s.srvs {
			if v.ret == 0 || v.ret > e.Seq {
				continue
			}
			k.limits(e, v, sn.Lim[v.id], sn.Push[v.id])
		}
	}
}

func (k *sc) breakers(e *Ev, o *suiteObj, got map[string]circuitbreak.CBConfig) {
	at := fmt.Sprintf("circuit breaker %d at %s", o.id, ft(e.At))
	names := map[string]bool{}
	for n := range got {
		names[n] = true
	}
	for n := range k.cbs[o] {
		names[n] = true
	}
	if k.lastC != nil {
		for n := range k.lastC.Items {
			names[n] = true
		}
	}
	for _, n := range sortedSet(names) {
		g, has := got[n]
		var spec *CluSpec
		in := 0
		if k.lastC != nil {
			if sig, ok := k.lastC.Items[n]; ok {
				spec, _ = k.specs[sig].(*CluSpec)
				in = k.lastI[n]
			}
		}
		if f := k.first[o]; f != nil && f.by == k.lastC && !f.has[n] && in == 1 {
			in = 2
		}
		if s := k.tl.m.names[CDS][n]; in == 1 && (s == nil || s.interest != 1) {
			in = 2
		}
		want := false
		var thr, vol uint32
		if spec != nil && spec.OD != nil {
			thr, vol = spec.OD.values()
			want = thr != 0 && vol != 0
		}
		right := has && g.Enable && math.Abs(g.ErrRate-float64(thr)/100) < 1e-9 && g.MinSample == int64(vol)
		off := !has || !g.Enable
		was := k.cbs[o][n] == 1 || spec != nil && spec.OD != nil && in == 1
		switch {
		case want && in == 1 && !right:
			k.v("breaker", "%s: cluster %q has %s, expected enabled, error rate %v, minimum sample %d", at, n, cbString(g, has), float64(thr)/100, vol)
		case want && in != 1 && !right && !off:
			k.v("breaker", "%s: cluster %q has %s, expected error rate %v, minimum sample %d or nothing", at, n, cbString(g, has), float64(thr)/100, vol)
		case !want && !off:
			k.v("breaker-stale", "%s: cluster %q has %s, expected none (in the latest update: %v)", at, n, cbString(g, has), spec != nil)
		case !want && was && !has:
			k.v("breaker-not-disabled", "%s: cluster %q was configured and is not disabled", at, n)
		}
	}
}

// seen is what an object found when it was created: what was left of an update.
type seen struct {
	by  *Resp
	has map[string]bool
}

func cbString(c circuitbreak.CBConfig, has bool) string {
	if !has {
		return "no configuration"
	}
	return fmt.Sprintf("enabled %v, error rate %v, minimum sample %d", c.Enable, c.ErrRate, c.MinSample)
}

// wantRetry are the policies a table may install: key -> possible contents.
func wantRetry(rc *RCSpec) (may map[string][]*RetrySpec, must map[string]bool) {
	may, must = map[string][]*RetrySpec{}, map[string]bool{}
	for i := range rc.VHs {
		for j := range rc.VHs[i].Routes {
			r := &rc.VHs[i].Routes[j]
			for _, c := range r.clusters() {
				may[c.N] = append(may[c.N], r.Retry)
				if r.Retry == nil {
					continue
				}
				must[c.N] = true
				for _, m := range r.Retry.methods() {
					may[c.N+"|"+m] = append(may[c.N+"|"+m], r.Retry)
					must[c.N+"|"+m] = true
				}
			}
		}
	}
	return
}

func (k *sc) retries(e *Ev, o *suiteObj, got map[string]any) {
	at := fmt.Sprintf("retry policies %d at %s", o.id, ft(e.At))
	may, must := map[string][]*RetrySpec{}, map[string]bool{}
	wild := false
	for n, s := range k.tl.m.names[RDS] {
		now := k.tl.poss(RDS, n, e.Seq, e.Seq)
		all := copySet(now)
		if o.ret < k.bseq {
			all = copySet(k.basis[n])
		} else {
			for x := range k.tl.poss(RDS, n, o.inv, o.ret) {
				all[x] = true
			}
		}
		for x := range now {
			all[x] = true
		}
		var common map[string]bool
		for sig := range all {
			mu := map[string]bool{}
			if sig != "" {
				rc, _ := k.specs[sig].(*RCSpec)
				if rc == nil {
					wild = true
					continue
				}
				var ma map[string][]*RetrySpec
				ma, mu = wantRetry(rc)
				for key, x := range ma {
					may[key] = append(may[key], x...)
				}
			}
			if common == nil {
				common = mu
			} else {
				for key := range common {
					if !mu[key] {
						delete(common, key)
					}
				}
			}
		}
		for key := range common {
			must[key] = true
		}
		_ = s
	}
	if wild {
		return
	}
	for _, key := range sortedKeys(got) {
		g := got[key].(*retrySeen)
		ws, ok := may[key]
		if !ok {
			k.v("retry-stale", "%s: there is a policy for %q, which no cached table refers to", at, key)
			continue
		}
		var ds []string
		fit := false
		for _, w := range ws {
			d := cmpPolicy(w, g)
			fit = fit || d == ""
			ds = append(ds, d)
		}
		if !fit {
			sort.Strings(ds)
			k.v("retry-policy", "%s: the policy for %q is wrong: %s", at, key, firstN(strings.Join(ds, " / "), 600))
		}
	}
	for _, key := range sortedSet(must) {
		if got[key] == nil {
			k.v("retry-missing", "%s: there is no policy for %q, to which a cached table refers", at, key)
		}
	}
	if len(must) > 0 {
		k.s.c.h.probe("retry-policies-due")
	}
}

func cmpPolicy(w *RetrySpec, g *retrySeen) string {
	if w == nil {
		w = &RetrySpec{}
	}
	fp := g.fp
	if !g.enable || fp == nil {
		return "not an enabled failure-retry policy"
	}
	var per int64
	if w.Per != nil {
		per = *w.Per / 1e6
	}
	if fp.RetrySameNode {
		return "retries the same node"
	}
	if fp.StopPolicy.MaxRetryTimes != int(w.Num) {
		return dif("%d attempts, want %d", fp.StopPolicy.MaxRetryTimes, w.Num)
	}
	if int64(fp.StopPolicy.MaxDurationMS) != per*int64(w.Num) {
		return dif("duration %d ms, want %d", fp.StopPolicy.MaxDurationMS, per*int64(w.Num))
	}
	if r := fp.StopPolicy.CBPolicy.ErrorRate; r != w.rate() && !(w.rate() == 0 && r == 0.1) {
		return dif("error rate %v, want %v", r, w.rate())
	}
	bt, items := retry.NoneBackOffType, map[retry.BackOffCfgKey]float64{}
	if w.BO != nil {
		base := float64(w.BO.Base / 1e6)
		if w.BO.Max != nil && *w.BO.Max > w.BO.Base {
			bt = retry.RandomBackOffType
			items[retry.MinMSBackOffCfgKey], items[retry.MaxMSBackOffCfgKey] = base, float64(*w.BO.Max/1e6)
		} else {
			bt = retry.FixedBackOffType
			items[retry.FixMSBackOffCfgKey] = base
		}
	}
	b := fp.BackOffPolicy
	if b == nil {
		b = &retry.BackOffPolicy{BackOffType: retry.NoneBackOffType}
	}
	if b.BackOffType != bt || len(b.CfgItems) != len(items) {
		return dif("back-off %s %v, want %s %v", b.BackOffType, b.CfgItems, bt, items)
	}
	for key, v := range items {
		if b.CfgItems[key] != v {
			return dif("back-off %s %v, want %s %v", b.BackOffType, b.CfgItems, bt, items)
		}
	}
	return ""
}

// tokens is the limit a listener sets for a port (0: none).
func (l *LisSpec) tokens(port uint32) uint32 {
	def := uint32(0)
	for _, c := range l.all() {
		for i := range c.Filters {
			f := &c.Filters[i]
			if f.K != "http" {
				continue
			}
			_, fill := f.bucket()
			if c.Port == port {
				return fill
			}
			if c.Port == 0 {
				def = fill
			}
		}
	}
	return def
}

func (k *sc) limits(e *Ev, v *srvObj, got limVal, push *limVal) {
	at := fmt.Sprintf("limiter %d (port %d) at %s", v.id, v.port, ft(e.At))
	ok := func(x limVal) bool {
		if x.Conn > 0 && x.Conn < math.MaxInt32 {
			return false
		}
		for sig := range k.tl.poss(LDS, reserved, e.Seq, e.Seq) {
			var t uint32
			if sig != "" {
				l, _ := k.specs[sig].(*LisSpec)
				if l == nil {
					return true
				}
				t = l.tokens(v.port)
			}
			if t != 0 && x.QPS == int(t) || t == 0 && (x.QPS <= 0 || x.QPS >= math.MaxInt32) {
				return true
			}
		}
		return false
	}
	want := func() string {
		m := map[string]bool{}
		for sig := range k.tl.poss(LDS, reserved, e.Seq, e.Seq) {
			switch l, _ := k.specs[sig].(*LisSpec); {
			case l == nil:
				m["unlimited"] = true
			default:
				m[fmt.Sprint(l.tokens(v.port))] = true
			}
		}
		return strings.Join(sortedSet(m), " or ")
	}
	if !ok(got) {
		k.v("limit", "%s: QPS limit %d connection limit %d, expected %s (0: unlimited)", at, got.QPS, got.Conn, want())
	}
	if v.upInv != 0 && v.upInv < e.Seq {
		if push == nil {
			k.v("limit-not-pushed", "%s: nothing was ever pushed to the server's limiter, expected %s", at, want())
		} else if !ok(*push) {
			k.v("limit-push", "%s: last pushed QPS limit %d connection limit %d, expected %s (0: unlimited)", at, push.QPS, push.Conn, want())
		}
	}
}
