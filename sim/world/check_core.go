//go:build go1.21

package world

import (
	"fmt"
	"sort"
	"strings"

	"google.golang.org/protobuf/proto"

	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
)

// checker walks a history once, keeping the reference model and the per-stream bookkeeping.
type checker struct {
	c     *Core
	p     *Plan
	cfg   *Cfg
	o     *Outcome
	m     *Model
	evs   []*Ev
	conc  bool
	fetch int64

	streams  map[int]*strInfo
	cur      *strInfo
	resps    map[string]*respInfo // by stream and nonce
	order    []*respInfo
	pend     map[lkKey][]*lkInfo
	lks      map[*Lookup]*lkInfo
	rejected bool // some response was rejected or ignored so far
	broke    bool // some stream failed so far
	authAt   int64
	authSeq  int64
	ready    bool
	readyAt  int64
	closing  bool
	ended    bool
	endAt    int64
	boothang bool
	probes   map[lkKey]string // results of the last probe
	probeOK  bool
	probeBad bool
	handlers map[int]*handInfo
	outage   int64 // >0: no working stream since
	lastBr   *Ev
	wires    map[RType][]*Ev // requests, also those that got lost
	looks    map[lkKey][]*Lookup
	bad      int64
}

type strInfo struct {
	id       int
	openAt   int64
	openSeq  int64
	brokenAt int64
	broken   bool
	first    map[RType]*Ev
	last     map[RType]*Ev
	stalls   [][2]int64
	subs     map[RType]bool // types subscribed when it was opened
	recvd    map[string]bool
	early    map[RType]map[string]bool // versions in force around responses that came before the first request
	errSeen  bool
}

type respInfo struct {
	r                   *Resp
	e                   *Ev
	heeded              bool // of a subscribed type
	verBefore, verAfter string
	echoes              []*Ev
	done                int64 // sequence number when the client had processed it
	doneAt              int64
	broken              bool // the stream had failed when it was read
	unclear             bool
}

type lkInfo struct {
	l        *Lookup
	poss     map[string]bool
	supplied int64
	brokeAt  bool
	rejAt    bool
	outage   bool
	states   map[string]bool // everything it may have seen
	vague    bool            // a response was being processed when it was invoked
}

type handInfo struct {
	id  int
	t   RType
	reg int64
	end []*Ev
}

func (k *checker) v(prop, class, f string, a ...any) { k.o.viol(prop, class, f, a...) }

func ft(ns int64) string { return fmt.Sprintf("%d.%06ds", ns/1e9, ns%1e9/1e3) }

func checkCore(c *Core, o *Outcome) {
	k := &checker{
		c: c, p: c.p, cfg: &c.p.Cfg, o: o, m: newModel(&c.p.Cfg), evs: c.h.Evs, conc: c.p.Cfg.Conc,
		fetch: int64(c.p.Cfg.FetchMS) * 1e6, streams: map[int]*strInfo{}, resps: map[string]*respInfo{},
		pend: map[lkKey][]*lkInfo{}, lks: map[*Lookup]*lkInfo{}, handlers: map[int]*handInfo{}, wires: map[RType][]*Ev{}, looks: map[lkKey][]*Lookup{},
	}
	k.m.slack = k.slack()
	if !k.cfg.NDSOff {
		k.m.st(NDS, "")
	}
	for _, l := range c.h.Lookups {
		if l.Inv > 0 {
			key := lkKey{l.T, l.N}
			k.looks[key] = append(k.looks[key], l)
		}
	}
	for _, pa := range o.Res.Panics {
		for _, pr := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C14", "C19"} {
			k.v(pr, "panic", "task %s panicked: %s\n%s", pa.Task, pa.Value, firstN(pa.Stack, 3000))
		}
	}
	if len(o.Res.Panics) > 0 {
		return
	}
	if o.Res.StepLimit {
		k.v("C07", "livelock", "no end after %d steps", o.Res.Steps)
		k.v("C05", "livelock", "no end after %d steps", o.Res.Steps)
		k.v("C04", "livelock", "no end after %d steps", o.Res.Steps)
	}
	for _, s := range o.Res.Stuck {
		k.v("C07", "deadlock", "task waits for a lock for ever: %s", s)
	}
	if o.Res.Deadlock {
		k.v("C07", "deadlock", "nothing can run any more: %v", o.Res.Blocked)
	}
	if k.unclear() {
		o.Incon = "a response nobody asked for raced with the first lookup of its type"
		o.Viols = keep(o.Viols, k.p.Prop)
		return
	}
	k.walk()
	k.finish()
	o.Viols = keep(o.Viols, k.p.Prop)
}

func keep(vs []Viol, prop string) []Viol {
	var out []Viol
	for _, v := range vs {
		if v.Prop == prop {
			out = append(out, v)
		}
	}
	return out
}

func (k *checker) walk() {
	for i, e := range k.evs {
		switch e.K {
		case "open":
			k.onOpen(e)
		case "broken":
			if s := k.streams[e.Stream]; s != nil {
				s.broken, s.brokenAt = true, e.At
				k.broke = true
				k.lastBr = e
				if k.outage == 0 {
					k.outage = e.At
				}
			}
		case "recverr":
			if s := k.streams[e.Stream]; s != nil {
				s.errSeen = true
			}
			k.processed(e)
			if strings.Contains(e.Err, "Unauthenticated") || strings.Contains(e.Err, "authentication") {
				k.authAt, k.authSeq = e.At, e.Seq
			}
		case "recvcall":
			k.processed(e)
		case "op":
			if e.Op.K == "stall" && k.cur != nil && !k.cur.broken {
				k.cur.stalls = append(k.cur.stalls, [2]int64{e.At, e.At + e.Op.D})
			}
		case "void":
			k.wires[e.T] = append(k.wires[e.T], e)
			k.m.subbed[e.T] = true
		case "send":
			k.wires[e.T] = append(k.wires[e.T], e)
			k.onSend(e)
		case "recv":
			k.onRecv(e)
		case "inv":
			k.onInv(e)
		case "ret":
			k.onRet(e)
		case "probe":
			k.probeStart()
		case "dump":
			k.onDump(e)
		case "registered":
			k.handler(e).reg = e.Seq
		case "hend":
			h := k.handler(e)
			h.end = append(h.end, e)
		case "ready":
			k.ready, k.readyAt = true, e.At
			k.startSubs(e)
		case "closing":
			k.closing = true
		case "end":
			k.ended, k.endAt = true, e.At
		case "boothang":
			k.boothang = true
		}
		if !k.conc && (i+1 == len(k.evs) || k.evs[i+1].At != e.At) {
			k.instant(e)
		}
	}
}

func (k *checker) processed(e *Ev) {
	if n := len(k.order); n > 0 {
		if r := k.order[n-1]; r.done == 0 {
			r.done, r.doneAt = e.Seq, e.At
			k.supplies(r)
		}
	}
}

// queuedSince is the earliest time a request sent now may have been put together.
func (s *strInfo) queuedSince(at int64) int64 {
	q := at
	for _, st := range s.stalls {
		if st[0] <= at && at <= st[1]+1e9 && st[0] < q {
			q = st[0]
		}
	}
	return q
}

func (s *strInfo) stalledAt(at int64) bool {
	for _, st := range s.stalls {
		if st[0] <= at && at < st[1] {
			return true
		}
	}
	return false
}

func (k *checker) onOpen(e *Ev) {
	s := &strInfo{id: e.Stream, openAt: e.At, openSeq: e.Seq, first: map[RType]*Ev{}, last: map[RType]*Ev{}, subs: map[RType]bool{}, recvd: map[string]bool{}, early: map[RType]map[string]bool{}}
	for t, b := range k.m.subbed {
		s.subs[t] = b
	}
	k.streams[e.Stream] = s
	k.cur = s
	k.outage = 0
	if k.authSeq > 0 {
		k.v("C04", "reopen-after-auth", "a stream was opened at %s, after the authentication rejection at %s", ft(e.At), ft(k.authAt))
	}
}

func (k *checker) startup(t RType, n string) bool {
	return (t == NDS && n == "" && !k.cfg.NDSOff) || (t == LDS && n == reserved && !k.cfg.LDSOff)
}

// startSubs: once start-up is over, what it subscribes to (the name table, the inbound listener) is of interest.
func (k *checker) startSubs(e *Ev) {
	if e.Err != "<nil>" || k.cur == nil || k.authSeq > 0 {
		return
	}
	for t, n := range map[RType]string{NDS: "", LDS: reserved} {
		if !k.startup(t, n) {
			continue
		}
		if st := k.m.st(t, n); st.interest != 1 {
			st.interest, st.since = 1, e.At
		}
		k.m.subbed[t] = true
	}
}

func (k *checker) onSend(e *Ev) {
	s := k.streams[e.Stream]
	if s == nil {
		return
	}
	desc := e.String()
	// C05: unknown kinds are never asked for
	if e.T == 0 {
		k.v("C05", "unknown-kind-requested", "request of an unknown kind on the wire: %s", desc)
		k.v("C03", "unknown-type", "request of unknown type %q on the wire", e.URL)
		return
	}
	// C03: node
	if want := k.wantNode(); e.Node != want {
		k.v("C03", "node", "request does not identify the node: %s, node=%q want %q", desc, e.Node, want)
	}
	k.m.age(e.At)
	q := s.queuedSince(e.At)
	seen := map[string]bool{}
	lagSlack := k.p.Pol.LagCap
	idle := expiry - lagSlack // overlapping lookups may stamp a little out of order
	for _, n := range e.Names {
		if seen[n] {
			k.v("C03", "duplicate-name", "name %q listed twice: %s", n, desc)
		}
		seen[n] = true
		st := k.m.names[e.T][n]
		if k.startup(e.T, n) || (st != nil && st.everLook && (st.interest != 0)) {
			continue
		}
		if st == nil || !st.everLook {
			k.v("C03", "never-asked", "request lists %q, which nobody looked up: %s", n, desc)
		} else if q == e.At { // evicted and not looked up since
			k.v("C03", "evicted-listed", "request lists %q again, which was withdrawn and not looked up since: %s", n, desc)
		}
	}
	for n, st := range k.m.names[e.T] {
		if seen[n] || st.interest == 0 {
			continue
		}
		if !st.reserved && e.At-st.lookup > idle && e.At >= st.waitTo { // withdrawn after an idle period
			if st.supplied == 0 && q == e.At {
				k.v("C03", "withdrawn-uncached", "request omits %q, subscribed at the lookup of %s and never supplied since, so there was nothing to evict: %s", n, ft(st.lookup), desc)
			}
			if !k.conc || e.At-st.supplied > 2e9+lagSlack {
				st.supplied = 0
			}
			st.interest, st.since, st.evicted = 0, 0, true
			st.set("")
			k.o.H.probe("evicted")
			continue
		}
		if st.interest != 1 || st.since+k.slack() >= q {
			continue
		}
		if k.conc && !st.reserved {
			// a sweep may have withdrawn it just before the latest lookup subscribed again
			if prev := k.prevLookup(e.T, n, q-lagSlack-1e6); prev >= 0 && e.At-prev > idle && !k.valueSince(e.T, n, prev, q, e.Seq) {
				st.add("") // and taken what was cached along
				continue
			}
		}
		k.v("C03", "name-missing", "request omits %q, subscribed since %s: %s", n, ft(st.since), desc)
		if st.reserved {
			k.v("C19", "reserved-withdrawn", "the reserved %q was withdrawn: %s", n, desc)
		} else if st.ever {
			k.v("C19", "used-withdrawn", "%q was withdrawn at %s although it was looked up at %s: %s", n, ft(e.At), ft(st.lookup), desc)
		}
	}
	// C04: nonces and the first requests of a stream
	if e.Nonce != "" {
		if !s.recvd[e.Nonce] {
			k.v("C04", "foreign-nonce", "nonce %q was not issued on stream %d: %s", e.Nonce, s.id, desc)
		}
		if ri := k.resps[nonceKey(e.Stream, e.Nonce)]; ri != nil && !ri.heeded && !(e.T == NDS && !k.cfg.NDSOff || e.T == LDS && !k.cfg.LDSOff) {
			k.v("C02", "ack-of-ignored", "a response of unknown or never-subscribed type (%s) was acknowledged: %s", ri.r.URL, desc)
		}
	}
	if s.first[e.T] == nil {
		s.first[e.T] = e
		if s.id > 1 {
			early := s.early[e.T]
			if e.Nonce != "" && early == nil {
				k.v("C04", "nonce-on-new-stream", "first %s request of stream %d carries a nonce: %s", typeName[e.T], s.id, desc)
			}
			if s.subs[e.T] && e.Ver != k.m.ver[e.T] && !early[e.Ver] && !(s.queuedSince(e.At) < e.At) {
				k.v("C04", "version-on-new-stream", "first %s request of stream %d carries version %q, last accepted is %q", typeName[e.T], s.id, e.Ver, k.m.ver[e.T])
			}
			if e.Err != "" && early == nil {
				k.v("C04", "error-on-new-stream", "first %s request of stream %d carries an error detail: %s", typeName[e.T], s.id, desc)
			}
			k.resubNames(s, e)
		}
	}
	// C02: acknowledgement
	if ri := k.resps[nonceKey(e.Stream, e.Nonce)]; e.Nonce != "" && ri != nil && ri.heeded {
		ri.echoes = append(ri.echoes, e)
		if e.T != ri.r.T {
			k.v("C02", "ack-type", "response %q of type %s echoed by a request of type %s", e.Nonce, typeName[ri.r.T], typeName[e.T])
		} else if len(ri.echoes) == 1 {
			if ri.r.Valid {
				if e.Ver != ri.r.Ver || e.Err != "" || e.ErrCode != 0 {
					k.v("C02", "bad-ack", "decodable response version %q nonce %q was answered by %s", ri.r.Ver, ri.r.Nonce, desc)
				}
			} else {
				if e.Ver != ri.verBefore {
					k.v("C02", "nack-version", "rejected response %q: NACK carries version %q, last accepted is %q", ri.r.Nonce, e.Ver, ri.verBefore)
				}
				if e.Err == "" {
					k.v("C02", "nack-no-detail", "undecodable response version %q nonce %q was answered without error detail: %s", ri.r.Ver, ri.r.Nonce, desc)
				}
			}
		} else {
			if e.Ver != ri.verAfter {
				k.v("C02", "version-drift", "request after response %q carries version %q, last accepted is %q", ri.r.Nonce, e.Ver, ri.verAfter)
			}
			if !k.conc && q == e.At && !k.changeAt(e, s) {
				k.v("C02", "extra-ack", "response %q answered again without a change of the subscription: %s", ri.r.Nonce, desc)
			}
		}
	}
	s.last[e.T] = e
	k.m.onWire(e.T, e.Names, e.At)
}

// changeAt reports whether something at this instant asked for a request of the type: a lookup, or
// a withdrawal (the names differ from those of the previous request).
func (k *checker) changeAt(e *Ev, s *strInfo) bool {
	for i := sort.Search(len(k.evs), func(i int) bool { return k.evs[i].At >= e.At }); i < len(k.evs) && k.evs[i].At == e.At; i++ {
		if x := k.evs[i]; x.K == "inv" && x.L.T == e.T {
			return true
		}
	}
	if p := s.last[e.T]; p != nil && strings.Join(p.Names, "\x00") != strings.Join(e.Names, "\x00") {
		return true
	}
	return s.first[e.T] == e
}

func (k *checker) prevLookup(t RType, n string, before int64) int64 {
	at := int64(-1)
	for _, l := range k.looks[lkKey{t, n}] {
		if l.InvAt < before && l.InvAt > at {
			at = l.InvAt
		}
	}
	return at
}

// valueSince reports whether a lookup invoked after `after` had returned a value by seq that was
// cached before `before`: it was returned earlier, or no response arrived that could supply it.
func (k *checker) valueSince(t RType, n string, after, before, seq int64) bool {
	supplied := int64(1) << 62 // the first response since
	for i := len(k.order) - 1; i >= 0; i-- {
		ri := k.order[i]
		if ri.e.At < before-k.p.Pol.LagCap-2e6 {
			break
		}
		if ri.r.T == t || t == LDS && ri.r.T == NDS {
			supplied = ri.e.Seq
		}
	}
	for _, l := range k.looks[lkKey{t, n}] {
		if l.Done && l.Err == "" && l.InvAt > after && l.Ret < seq && (l.RetAt < before-k.slack() || l.Ret < supplied) {
			return true
		}
	}
	return false
}

// slack: with overlapping activity a lookup subscribes some time after its invocation.
func (k *checker) slack() int64 {
	if !k.conc {
		return 0
	}
	return k.p.Pol.LagCap + 2e6
}

// unclear reports whether it depends on the schedule if the client had subscribed to the type of
// some response at all when that arrived (a response nobody asked for races with the first lookup).
func (k *checker) unclear() bool {
	asked := map[RType]bool{}
	inv := map[RType]bool{LDS: !k.cfg.LDSOff, NDS: !k.cfg.NDSOff} // asked for at the start-up
	var last *respInfo
	for _, e := range k.evs {
		switch e.K {
		case "send", "void":
			asked[e.T] = true
		case "inv":
			inv[e.L.T] = true
			if last != nil && last.r.T == e.L.T && !asked[e.L.T] {
				return true
			}
		case "recvcall", "recverr":
			last = nil
		case "recv":
			last = &respInfo{r: e.Resp}
			if !asked[e.Resp.T] && inv[e.Resp.T] {
				return true
			}
		}
	}
	return false
}

// resubNames: the first request of a type on a new stream carries the full set.
func (k *checker) resubNames(s *strInfo, e *Ev) {
	have := map[string]bool{}
	for _, n := range e.Names {
		have[n] = true
	}
	for n, st := range k.m.names[e.T] {
		if have[n] || st.interest != 1 || st.since+k.slack() >= s.queuedSince(e.At) {
			continue
		}
		if k.conc && st.since >= s.openAt {
			continue
		}
		k.v("C04", "names-on-new-stream", "first %s request of stream %d omits %q, subscribed since %s: names %q", typeName[e.T], s.id, n, ft(st.since), e.Names)
	}
}

var nodeCache = map[string]string{}

func (k *checker) wantNode() string {
	key := k.cfg.NS + "|" + k.cfg.Domain + "|" + k.cfg.MetaNS
	if s, ok := nodeCache[key]; ok {
		return s
	}
	n := &v3core.Node{Id: nodeID(podIP, podName, k.cfg.NS, k.cfg.Domain), Metadata: wantMeta(k.cfg)}
	b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(n)
	nodeCache[key] = string(b)
	return string(b)
}

func nonceKey(stream int, nonce string) string { return fmt.Sprintf("%d/%s", stream, nonce) }

func (k *checker) onRecv(e *Ev) {
	r := e.Resp
	k.processed(e)
	s := k.streams[e.Stream]
	ri := &respInfo{r: r, e: e, heeded: k.m.listens(r), verBefore: k.m.ver[r.T]}
	ri.verAfter = ri.verBefore
	if s != nil {
		ri.broken = s.broken
		s.recvd[r.Nonce] = true
		if s.first[r.T] == nil { // nobody has asked on this stream yet
			if s.early[r.T] == nil {
				s.early[r.T] = map[string]bool{ri.verBefore: true}
			}
			if r.Valid {
				s.early[r.T][r.Ver] = true
			}
		}
	}
	k.resps[nonceKey(e.Stream, r.Nonce)] = ri
	k.order = append(k.order, ri)
	if !ri.heeded || !r.Valid {
		k.rejected = true
		return
	}
	if yes, _ := k.m.interestOf(r.T); len(yes) == 0 {
		// subscribed once, to nothing now: both ways of treating it are fine
		ri.unclear = true
	}
	k.probeBad = true // the state may change now
	ri.verAfter = r.Ver
	k.m.apply(r, e.At)
	if k.conc && !k.closing {
		return
	}
	// who is served by it
	for key, ls := range k.pend {
		st := k.m.names[key.t][key.n]
		if st == nil {
			continue
		}
		for _, li := range ls {
			for v := range st.poss {
				li.states[v] = true
			}
		}
	}
}

// supplies notes which lookups a processed response has served.
func (k *checker) supplies(ri *respInfo) {
	if !ri.heeded || !ri.r.Valid || k.conc && !k.closing {
		return
	}
	for key, ls := range k.pend {
		if st := k.m.names[key.t][key.n]; st != nil {
			if v, one := st.only(); one && v != "" {
				for _, li := range ls {
					if li.supplied == 0 {
						li.supplied = ri.doneAt + 1
					}
				}
			}
		}
	}
}

func copySet(m map[string]bool) map[string]bool {
	o := map[string]bool{}
	for x := range m {
		o[x] = true
	}
	return o
}

func (k *checker) limit(l *Lookup) int64 {
	d := l.InvAt + k.fetch
	if l.Deadline > 0 && l.InvAt+l.Deadline < d {
		d = l.InvAt + l.Deadline
	}
	if l.CancelAt > 0 {
		c := l.CancelAt
		if c < l.InvAt {
			c = l.InvAt
		}
		if c < d {
			d = c
		}
	}
	return d
}

func (k *checker) onInv(e *Ev) {
	l := e.L
	if urlOf[l.T] == "" {
		return
	}
	conc := k.conc && !k.closing
	st := k.m.lookup(l.T, l.N, e.At, k.conc)
	vague := false
	if n := len(k.order); k.conc && n > 0 && k.order[n-1].done == 0 && k.order[n-1].heeded {
		// a response is being processed: it is stored if the lookup subscribes in time
		if sig, ok := k.m.supply(k.order[n-1].r, l.T, l.N); ok {
			vague = true
			st.poss[sig] = true
			if sig != "" {
				st.ever, st.supplied = true, e.At+1
			}
		}
	}
	li := &lkInfo{l: l, poss: copySet(st.poss), brokeAt: k.broke, rejAt: k.rejected, outage: k.outage > 0, states: copySet(st.poss), vague: vague}
	k.lks[l] = li
	key := lkKey{l.T, l.N}
	k.pend[key] = append(k.pend[key], li)
	if conc {
		return
	}
	if li.vague {
		return
	}
	if _, one := st.only(); !one {
		// an idle resource: whether a sweep has removed it shows now
		if l.Done && l.Err == "" && st.poss[l.Sig] && !k.updatedWithin(l) {
			st.set(l.Sig)
			st.interest = 1
			if st.since == 0 {
				st.since = e.At
			}
		} else {
			st.set("")
			if k.conc {
				st.interest = 2 // subscribed a little later
			} else {
				st.interest, st.since = 1, e.At
			}
		}
		li.poss = copySet(st.poss)
		li.states = copySet(st.poss)
	}
	if v, _ := st.only(); v == "" && !k.conc && !st.reserved && st.interest == 1 && k.limit(l) > st.waitTo {
		st.waitTo = k.limit(l)
	}
}

// updatedWithin reports whether a response that may supply the lookup arrived while it was under way.
func (k *checker) updatedWithin(l *Lookup) bool {
	for i := sort.Search(len(k.evs), func(i int) bool { return k.evs[i].Seq > l.Inv }); i < len(k.evs) && k.evs[i].Seq < l.Ret; i++ {
		if e := k.evs[i]; e.K == "recv" && e.Resp.Valid && (e.Resp.T == l.T || e.Resp.T == NDS) {
			return true
		}
	}
	return false
}

func (k *checker) onRet(e *Ev) {
	l := e.L
	li := k.lks[l]
	if li == nil {
		return
	}
	key := lkKey{l.T, l.N}
	ls := k.pend[key]
	for i := range ls {
		if ls[i] == li {
			k.pend[key] = append(append([]*lkInfo{}, ls[:i]...), ls[i+1:]...)
			break
		}
	}
	st := k.m.st(l.T, l.N)
	if l.Err == "" {
		st.access, st.accInv = l.RetAt, l.InvAt
		if k.conc && st.interest == 2 && l.T != NDS {
			st.interest, st.since = 1, e.At
		}
	}
	if k.probeOK && l.Probe {
		k.probeRet(l, li)
	}
	quiesced := !k.conc || (k.closing && l.Post)
	if !quiesced || li.vague {
		return
	}
	want := possString(li.poss)
	who := fmt.Sprintf("lookup %d of %s %q invoked at %s, returned at %s", l.ID, typeName[l.T], l.N, ft(l.InvAt), ft(l.RetAt))
	report := func(class, f string, a ...any) {
		msg := fmt.Sprintf(f, a...)
		k.v("C01", class, "%s", msg)
		if l.T == LDS && !k.cfg.NDSOff {
			k.v("C14", class, "%s", msg)
		}
		if li.rejAt && l.T == LDS {
			k.v("C02", "state-after-reject", "after a rejected or ignored response: %s", msg)
		}
		if st.evicted {
			k.v("C19", "evicted-"+class, "after an eviction: %s", msg)
		} else if class == "lookup-failed" && e.At-k.readyAt >= expiry {
			k.v("C19", "used-removed", "%s", msg)
		}
		if li.brokeAt {
			k.v("C04", "state-after-failure", "after a stream failure: %s", msg)
		}
	}
	if l.Err == "" {
		ok := li.poss[l.Sig] || li.states[l.Sig]
		if l.Sig == "NIL" || strings.HasPrefix(l.Sig, "KIND:") {
			ok = false
		}
		if !ok {
			report("wrong-value", "%s: got %q, the fold of accepted responses gives %s", who, l.Sig, possStringOf(li))
		}
		if v, one := oneOf(li.poss); one && v != "" && l.RetAt > l.InvAt && !k.conc {
			k.v("C06", "delayed-hit", "%s: the resource was cached at invocation", who)
		}
	} else {
		if v, one := oneOf(li.poss); one && v != "" && k.limit(l) > l.InvAt {
			report("lookup-failed", "%s: failed (%s), the fold of accepted responses contains %s", who, firstN(l.Err, 100), want)
		} else if li.supplied > 0 && li.supplied < k.limit(l) {
			if v, one := st.only(); one && v != "" {
				report("lookup-failed", "%s: failed (%s), supplied at %s", who, firstN(l.Err, 100), ft(li.supplied))
			}
		}
	}
	if li.supplied > 0 && li.supplied < k.limit(l) {
		if l.Err != "" {
			k.v("C06", "lost-wakeup", "%s: failed (%s) although a response accepted at %s supplied it (limit %s)", who, firstN(l.Err, 100), ft(li.supplied), ft(k.limit(l)))
		} else if l.RetAt > li.supplied && !k.conc {
			k.v("C06", "late-wakeup", "%s: the response accepted at %s supplied it", who, ft(li.supplied))
		}
	}
}

func possStringOf(li *lkInfo) string {
	m := copySet(li.poss)
	for x := range li.states {
		m[x] = true
	}
	return possString(m)
}

func oneOf(m map[string]bool) (string, bool) {
	if len(m) == 1 {
		for s := range m {
			return s, true
		}
	}
	return "", false
}

// probes: between two probes with nothing but rejected or ignored responses in between, what
// lookups find must not change.
func (k *checker) probeStart() {
	if k.probeOK && !k.probeBad {
		// compare against the previous round
	} else {
		k.probes = map[lkKey]string{}
	}
	k.probeOK, k.probeBad = true, false
	if k.probes == nil {
		k.probes = map[lkKey]string{}
	}
}

func (k *checker) probeRet(l *Lookup, li *lkInfo) {
	if k.conc || l.RetAt > l.InvAt+int64(1e6) {
		return
	}
	key := lkKey{l.T, l.N}
	got := l.Sig
	if l.Err != "" {
		got = "error"
	}
	if k.probeBad {
		return
	}
	if old, ok := k.probes[key]; ok && old != got && len(li.poss) == 1 {
		if st := k.m.st(l.T, l.N); st.reserved || l.InvAt-st.accInv < expiry {
			k.v("C02", "reject-not-inert", "with only rejected or ignored responses in between, lookup of %s %q went from %s to %s", typeName[l.T], l.N, old, got)
		}
	}
	k.probes[key] = got
}

func (k *checker) onDump(e *Ev) {
	if e.Tables == nil {
		return
	}
	if strings.HasPrefix(e.Err, "unreadable") {
		k.v("C07", "dump", "dumped file is not JSON: %s", e.Err)
		return
	}
	quiesced := !k.conc || k.closing
	k.m.age(e.At)
	for _, t := range allTypes {
		tab := e.Tables[typeName[t]]
		for n := range tab {
			st := k.m.names[t][n]
			if st == nil || (!st.everLook && !k.startup(t, n)) {
				k.v("C01", "unasked-stored", "%s %q is in the cache, nobody asked for it", typeName[t], n)
			}
		}
		if !quiesced || t == NDS {
			continue
		}
		for n, st := range k.m.names[t] {
			_, in := tab[n]
			if !in && st.aged {
				k.silentEviction(e, t, n, st)
			}
			v, one := st.only()
			if !one {
				continue
			}
			if in && v == "" {
				if st.interest == 0 && st.everLook {
					k.v("C19", "evicted-cached", "%s %q is cached at %s although it was withdrawn", typeName[t], n, ft(e.At))
				}
				k.v("C01", "stale-stored", "%s %q is in the cache at %s, the fold of accepted responses does not contain it", typeName[t], n, ft(e.At))
			}
			if !in && v != "" {
				k.v("C01", "not-stored", "%s %q = %s is missing from the cache at %s", typeName[t], n, v, ft(e.At))
				if st.everLook && e.At-k.readyAt >= expiry {
					k.v("C19", "used-removed", "%s %q is missing from the cache at %s; it was looked up at %s", typeName[t], n, ft(e.At), ft(st.lookup))
				}
			}
		}
		k.dumpAge(e, t, tab)
	}
}

// silentEviction: C03, what was cached and is dropped for idleness is not subscribed any more.
func (k *checker) silentEviction(e *Ev, t RType, n string, st *nameState) {
	s := k.cur
	if s == nil || s.broken || k.authSeq > 0 || s.stalledAt(e.At) || s.queuedSince(e.At) < e.At {
		return
	}
	last := s.last[t]
	if last == nil || !st.everLook || st.reserved || e.At-st.lookup <= expiry || last.At >= e.At-1e9 {
		return
	}
	if i := len(k.order) - 1; i >= 0 && k.order[i].e.At >= st.lookup+expiry {
		return // a response may have removed it
	}
	for _, m := range last.Names {
		if m == n {
			k.v("C03", "evicted-unannounced", "%s %q is not cached any more at %s, and the last request on the stream, of %s, still lists it", typeName[t], n, ft(e.At), ft(last.At))
		}
	}
}

// dumpAge: C19, what has not been looked up for longer than the period is gone after the next sweep.
func (k *checker) dumpAge(e *Ev, t RType, tab map[string]string) {
	for n := range tab {
		st := k.m.names[t][n]
		if st == nil || st.reserved || !st.everLook {
			continue
		}
		last := st.lookup
		if st.arrive > last {
			last = st.arrive
		}
		if e.At-last > 2*expiry+int64(2e9)+k.p.Pol.LagCap {
			k.v("C19", "idle-kept", "%s %q is still cached at %s; it was last looked up at %s and sweeps come every %s", typeName[t], n, ft(e.At), ft(st.lookup), ft(expiry))
		}
	}
}

// instant runs at the end of every instant of a run without overlapping activity.
func (k *checker) instant(e *Ev) {
	s := k.cur
	if s == nil || s.broken || k.authSeq > 0 || s.stalledAt(e.At) || s.queuedSince(e.At) < e.At {
		return
	}
	k.m.age(e.At)
	for t := range k.m.subbed {
		yes, maybe := k.m.interestOf(t)
		last := s.last[t]
		if last == nil {
			if len(yes) > 0 {
				k.v("C03", "no-request", "%s: nothing requested on stream %d although %q are subscribed, at %s", typeName[t], s.id, yes, ft(e.At))
				if s.subs[t] {
					k.v("C04", "no-resubscribe", "%s was not re-requested on stream %d by %s", typeName[t], s.id, ft(e.At))
				}
			}
			continue
		}
		k.sameNames(t, yes, maybe, last, e.At)
		if k.p.Prop == "C19" {
			k.idleNames(t, last, e)
		}
	}
	// acknowledgements are out
	for i := len(k.order) - 1; i >= 0 && k.order[i].e.At == e.At; i-- {
		ri := k.order[i]
		if !ri.heeded || ri.broken || ri.unclear || ri.r.Stream != s.id {
			continue
		}
		if len(ri.echoes) == 0 {
			k.v("C02", "no-ack", "%s response version %q nonce %q (decodable: %v) was read at %s and never answered", typeName[ri.r.T], ri.r.Ver, ri.r.Nonce, ri.r.Valid, ft(ri.e.At))
		}
	}
}

func (k *checker) sameNames(t RType, yes, maybe []string, last *Ev, at int64) {
	have := map[string]bool{}
	for _, n := range last.Names {
		have[n] = true
	}
	for _, n := range yes {
		if !have[n] {
			k.v("C03", "not-converged", "at %s the last %s request on the stream lists %q, %q is subscribed too", ft(at), typeName[t], last.Names, n)
		}
		delete(have, n)
	}
	for _, n := range maybe {
		delete(have, n)
	}
	for n := range have {
		k.v("C03", "not-converged", "at %s the last %s request on the stream lists %q, %q is not subscribed any more", ft(at), typeName[t], last.Names, n)
	}
}

// idleNames: C19, a cached resource nobody has looked up for longer than the period is withdrawn.
func (k *checker) idleNames(t RType, last *Ev, e *Ev) {
	for _, n := range last.Names {
		st := k.m.names[t][n]
		if st == nil || st.reserved || !st.everLook || e.At-st.lookup <= 2*expiry+int64(2e9) {
			continue
		}
		if v, one := st.only(); one && v == "" {
			continue
		}
		if e.At-st.arrive > 2*expiry+int64(2e9) {
			if st.ever {
				k.v("C19", "idle-subscribed", "%s %q is still subscribed at %s, it was last looked up at %s", typeName[t], n, ft(e.At), ft(st.lookup))
			}
		}
	}
}

func (k *checker) finish() {
	h := k.c.h
	healthy := k.authSeq == 0
	if k.boothang {
		k.v("C04", "startup-hang", "start-up did not finish within %s although the control plane was reachable (stream failed: %v, authentication rejected: %v)", bootLimit, k.broke, k.authSeq > 0)
		k.v("C05", "startup-hang", "start-up did not finish within %s", bootLimit)
		k.v("C07", "startup-hang", "start-up did not finish within %s", bootLimit)
		return
	}
	for _, l := range h.Lookups {
		if l.Inv == 0 {
			continue
		}
		k.lookupDone(l, healthy)
	}
	if !k.ended {
		return
	}
	if s := k.cur; s == nil {
		// never connected: a start-up that waits in vain for a quarter of an hour gives up
		if healthy && k.p.Prop == "C04" {
			k.v("C04", "no-open", "no stream was ever opened although the control plane has been reachable for 15 minutes")
		}
	} else if healthy && s.broken {
		k.v("C04", "no-reopen", "the stream failed at %s and no new one was opened within 15 minutes of the control plane being reachable", ft(k.lastBr.At))
	} else if healthy && !s.stalledAt(1<<62) {
		at := k.evs[len(k.evs)-1].At
		for t := range k.m.subbed {
			yes, maybe := k.m.interestOf(t)
			last := s.last[t]
			if last == nil {
				if len(yes) > 0 {
					k.v("C03", "no-request", "%s: nothing requested on stream %d although %q are subscribed", typeName[t], s.id, yes)
				}
				if s.subs[t] && s.id > 1 && len(yes) > 0 {
					k.v("C04", "no-resubscribe", "%s was never re-requested on stream %d", typeName[t], s.id)
				}
				continue
			}
			k.sameNames(t, yes, maybe, last, at)
		}
		for _, ri := range k.order {
			if ri.heeded && !ri.broken && !ri.unclear && ri.r.Stream == s.id && len(ri.echoes) == 0 {
				k.v("C02", "no-ack", "%s response version %q nonce %q (decodable: %v) was read at %s and never answered", typeName[ri.r.T], ri.r.Ver, ri.r.Nonce, ri.r.Valid, ft(ri.e.At))
			}
		}
	}
	if k.conc {
		k.echoCounts()
		k.linear()
	}
}

// echoCounts: beyond its acknowledgement a response is echoed only by changes of the subscription.
func (k *checker) echoCounts() {
	for _, ri := range k.order {
		if len(ri.echoes) < 2 {
			continue
		}
		n := 1
		for _, l := range k.c.h.Lookups {
			if l.T == ri.r.T && l.Inv > 0 && l.Inv < ri.echoes[len(ri.echoes)-1].Seq {
				n++
			}
		}
		for _, st := range k.m.names[ri.r.T] {
			if st.ever && !st.reserved {
				n++
			}
		}
		if len(ri.echoes) > n {
			k.v("C02", "extra-ack", "response %q was echoed %d times; lookups and evictions account for %d", ri.r.Nonce, len(ri.echoes), n)
		}
	}
}

func (k *checker) lookupDone(l *Lookup, healthy bool) {
	who := fmt.Sprintf("lookup %d of %s %q invoked at %s", l.ID, typeName[l.T], l.N, ft(l.InvAt))
	lim := k.limit(l)
	if !l.Done {
		if k.ended && !l.Post && lim+k.slack() >= k.endAt {
			return // invoked too late to have come back before the end of the run
		}
		if k.ended || k.o.Res.StepLimit || k.o.Res.Deadlock {
			k.v("C05", "lookup-hang", "%s never returned (limit %s)", who, ft(lim))
			k.v("C07", "lookup-hang", "%s never returned (limit %s)", who, ft(lim))
			k.v("C06", "lookup-hang", "%s never returned (limit %s)", who, ft(lim))
			if k.broke || k.authSeq > 0 {
				k.v("C04", "lookup-hang", "%s never returned (limit %s) after a stream failure", who, ft(lim))
			}
		}
		return
	}
	if urlOf[l.T] == "" {
		if l.Err == "" || l.Sig != "" {
			k.v("C05", "unknown-kind", "%s: unknown kind %d was answered with value %q error %q", who, int(l.T), l.Sig, l.Err)
		}
		if l.RetAt-l.InvAt > l.RetLag-l.InvLag {
			k.v("C05", "unknown-kind-slow", "%s: unknown kind %d took until %s", who, int(l.T), ft(l.RetAt))
		}
		return
	}
	if strings.HasPrefix(l.Sig, "BOTH:") {
		k.v("C05", "both", "%s returned a value (%s) and an error (%s)", who, l.Sig, l.Err)
	}
	if l.Err == "" && l.Sig == "NIL" {
		k.v("C05", "nil-value", "%s returned a nil value without an error", who)
	} else if l.Err == "" && strings.HasPrefix(l.Sig, "KIND:") {
		k.v("C05", "wrong-kind", "%s returned a value of kind %s", who, l.Sig[5:])
	} else if l.Err == "" && !k.suppliedBefore(l) {
		k.v("C05", "not-supplied", "%s returned %q, which the control plane never supplied for it", who, l.Sig)
		k.v("C07", "not-supplied", "%s returned %q, which was never current", who, l.Sig)
		if k.conc {
			k.v("C01", "not-supplied", "%s returned %q, which no accepted response carried", who, l.Sig)
		}
	}
	if over := l.RetAt - lim; over > l.RetLag-l.InvLag+k.slowHandlers() {
		k.v("C05", "late", "%s returned at %s, its limit was %s", who, ft(l.RetAt), ft(lim))
		if k.broke {
			k.v("C04", "late", "%s returned at %s, its limit was %s", who, ft(l.RetAt), ft(lim))
		}
	}
}

// slowHandlers is the time handlers of the workload slept, which hold up everybody.
func (k *checker) slowHandlers() int64 {
	var t int64
	for _, o := range k.p.Ops {
		if o.K == "reg" && o.D > 0 {
			t += o.D * 50
		}
	}
	return t
}

func (k *checker) suppliedBefore(l *Lookup) bool {
	for _, ri := range k.order {
		if ri.e.Seq > l.Ret {
			return false
		}
		if ri.r.T != l.T || !ri.r.Valid {
			continue
		}
		if l.T == LDS && !k.cfg.NDSOff {
			for _, s := range ri.r.Items {
				if s == l.Sig {
					return true
				}
			}
		} else if ri.r.Items[l.N] == l.Sig {
			return true
		}
	}
	return false
}

// listed reports whether the last request of the type before seq lists n.
func (k *checker) listed(t RType, n string, seq int64) bool {
	ws := k.wires[t]
	i := sort.Search(len(ws), func(i int) bool { return ws[i].Seq >= seq })
	if i == 0 {
		return false
	}
	ns := ws[i-1].Names
	j := sort.SearchStrings(ns, n)
	return j < len(ns) && ns[j] == n
}

// write is one state the name's register takes.
type write struct {
	ri         *respInfo
	start, end int64
	val        string
	certain    bool
}

func (k *checker) writes(t RType, n string) []write {
	ws := []write{{start: 0, end: 0, certain: true}}
	m := newModel(k.cfg)
	for _, ri := range k.order {
		r := ri.r
		if !r.Valid || !ri.heeded {
			continue
		}
		end := ri.done
		if end == 0 {
			end = 1 << 62
		}
		var val string
		switch {
		case r.T == NDS && t == LDS && !k.cfg.NDSOff && rebindOnNDS:
			m.table = map[string][]string{}
			for h, ips := range r.Table {
				m.table[strings.ToLower(h)] = ips
			}
			if m.lastLDS == nil {
				continue
			}
			if b := m.bind(n); b != "" {
				val = m.lastLDS.Items[b]
			}
		case r.T == NDS:
			m.table = map[string][]string{}
			for h, ips := range r.Table {
				m.table[strings.ToLower(h)] = ips
			}
			continue
		case r.T != t:
			continue
		case t == LDS:
			m.lastLDS = r
			if b := m.bind(n); b != "" {
				val = r.Items[b]
			}
		case t == CDS:
			val = r.Items[n]
		default:
			v, ok := r.Items[n]
			if !ok {
				continue
			}
			val = v
		}
		certain := k.listed(t, n, ri.e.Seq)
		if certain && !(t == LDS && n == reserved) {
			// idle for so long that a sweep may have come, or may have come just before the last lookup?
			idle := expiry - k.p.Pol.LagCap - int64(1e9)
			last := k.prevLookup(t, n, ri.e.At+1)
			if ri.e.At-last > idle {
				certain = false
			}
			for recent := ri.e.At - k.p.Pol.LagCap - int64(1e9); last >= 0 && certain; {
				prev := k.prevLookup(t, n, last)
				if prev >= 0 && last-prev > idle {
					certain = false
				}
				if last < recent {
					break // the one before the latest burst counts, too
				}
				last = prev
			}
		}
		ws = append(ws, write{ri: ri, start: ri.e.Seq, end: end, val: val, certain: certain})
	}
	return ws
}

// linear checks, per name, that some order of the updates and lookups consistent with real time
// explains every value returned, that no wake-up was lost, and that handlers came first.
func (k *checker) linear() {
	byKey := map[lkKey][]*Lookup{}
	var keys []lkKey
	for _, l := range k.c.h.Lookups {
		if l.Done && urlOf[l.T] != "" && l.T != NDS {
			key := lkKey{l.T, l.N}
			if byKey[key] == nil {
				keys = append(keys, key)
			}
			byKey[key] = append(byKey[key], l)
		}
	}
	for _, key := range keys {
		ls := byKey[key]
		sort.SliceStable(ls, func(i, j int) bool { return ls[i].Inv < ls[j].Inv })
		ws := k.writes(key.t, key.n)
		// nextEnd[p]: the earliest end of a certain write after p
		nextEnd := make([]int64, len(ws)+1)
		nextEnd[len(ws)-1] = 1 << 62
		for p := len(ws) - 2; p >= 0; p-- {
			nextEnd[p] = nextEnd[p+1]
			if w := ws[p+1]; w.certain && w.end < nextEnd[p] {
				nextEnd[p] = w.end
			}
		}
		type done struct {
			ret int64
			pos int
			l   *Lookup
		}
		var ds []done
		for _, l := range ls {
			if l.Err != "" {
				k.lostWake(l, ws)
				continue
			}
			if l.Sig == "NIL" || strings.HasPrefix(l.Sig, "KIND:") || strings.HasPrefix(l.Sig, "BOTH:") {
				continue
			}
			lb := 0
			var by *Lookup
			for _, d := range ds {
				if d.ret < l.Inv && d.pos > lb {
					lb, by = d.pos, d.l
				}
			}
			pos := -1
			for p := lb; p < len(ws); p++ {
				if ws[p].val == l.Sig && ws[p].start < l.Ret && nextEnd[p] >= l.Inv {
					pos = p
					break
				}
			}
			if pos < 0 {
				extra := ""
				if by != nil {
					extra = fmt.Sprintf("; lookup %d had returned %q before", by.ID, by.Sig)
				}
				k.v("C07", "not-linearizable", "lookup %d of %s %q [%d,%d] returned %q, which no order of the updates explains (updates: %s)%s", l.ID, typeName[key.t], key.n, l.Inv, l.Ret, l.Sig, writesString(ws), extra)
				k.v("C01", "stale-value", "lookup %d of %s %q [%d,%d] returned %q, not the latest accepted (updates: %s)%s", l.ID, typeName[key.t], key.n, l.Inv, l.Ret, l.Sig, writesString(ws), extra)
				continue
			}
			ds = append(ds, done{l.Ret, pos, l})
			k.handlersBefore(l, ws)
			k.handlersLatest(l)
		}
		k.handlersOrder(key, ws)
	}
}

func (k *checker) handler(e *Ev) *handInfo {
	h := k.handlers[e.H]
	if h == nil {
		h = &handInfo{id: e.H, t: e.T, reg: 1 << 62}
		k.handlers[e.H] = h
	}
	return h
}

// handlersOrder checks that a handler is given the states of a name in the order they took effect.
func (k *checker) handlersOrder(key lkKey, ws []write) {
	for _, id := range sortedInts(k.handlers) {
		h := k.handlers[id]
		if h.t != key.t {
			continue
		}
		pos := 0
	calls:
		for _, e := range h.end {
			v, ok := e.Sigs[key.n]
			if !ok {
				continue
			}
			for p := pos; p < len(ws); p++ {
				if ws[p].val == v && ws[p].start < e.Seq {
					pos = p
					continue calls
				}
			}
			k.v("C07", "handler-order", "handler %d finished with %s %q = %s at #%d, which is not current after what it was given before (updates: %s)", h.id, typeName[key.t], key.n, v, e.Seq, writesString(ws))
			break
		}
	}
}

// handlersLatest checks in the closing phase, where nothing changes any more, that what a handler was given last
// agrees with what is served.
func (k *checker) handlersLatest(l *Lookup) {
	if !l.Post {
		return
	}
	for _, id := range sortedInts(k.handlers) {
		h := k.handlers[id]
		if h.t != l.T || h.reg > l.Inv {
			continue
		}
		var last *Ev
		for _, e := range h.end {
			if e.Seq < l.Ret {
				last = e
			}
		}
		if last == nil || last.Sigs[l.N] != l.Sig {
			at, got := int64(0), "nothing"
			if last != nil {
				at, got = last.Seq, fmt.Sprintf("%q", last.Sigs[l.N])
			}
			k.v("C07", "handler-behind", "lookup %d returned %s %q = %s at #%d, handler %d (registered at #%d) was last given %s at #%d", l.ID, typeName[l.T], l.N, l.Sig, l.Ret, h.id, h.reg, got, at)
		}
	}
}

func sortedInts(m map[int]*handInfo) []int {
	var ks []int
	for i := range m {
		ks = append(ks, i)
	}
	sort.Ints(ks)
	return ks
}

func writesString(ws []write) string {
	var b strings.Builder
	for i, w := range ws {
		if i == 0 {
			continue
		}
		v := w.val
		if v == "" {
			v = "(absent)"
		}
		e := fmt.Sprint(w.end)
		if w.end >= 1<<62 {
			e = "-"
		}
		fmt.Fprintf(&b, "[%d,%s] %s", w.start, e, v)
		if !w.certain {
			b.WriteString("?")
		}
		b.WriteString(" ")
	}
	return b.String()
}

func (k *checker) lostWake(l *Lookup, ws []write) {
	lim := k.limit(l)
	for i, w := range ws {
		if i == 0 || !w.certain || w.val == "" || w.ri.done == 0 || w.end < l.Inv || w.start > l.Ret {
			continue
		}
		if w.ri.doneAt >= lim || (l.CancelAt > 0 && w.end >= l.CancelSq) {
			continue
		}
		waiting := w.start > l.Inv && w.ri.e.At-l.InvAt > w.ri.e.Lag-l.InvLag
		if !waiting {
			later := false
			for _, x := range ws[i+1:] {
				if x.val == "" && x.start < l.Ret {
					later = true
				}
			}
			if later {
				continue
			}
		}
		k.v("C06", "lost-wakeup", "lookup %d of %s %q [%d,%d] invoked at %s failed at %s (%s) although the response supplying %s was processed by %s, its limit was %s", l.ID, typeName[l.T], l.N, l.Inv, l.Ret, ft(l.InvAt), ft(l.RetAt), firstN(l.Err, 60), w.val, ft(w.ri.doneAt), ft(lim))
		return
	}
}

func (k *checker) handlersBefore(l *Lookup, ws []write) {
	var first *respInfo
	for _, w := range ws[1:] {
		if w.val == l.Sig {
			first = w.ri
			break
		}
	}
	if first == nil || first.r.T != l.T {
		return
	}
	for _, h := range k.handlers {
		if h.t != l.T || h.reg > first.e.Seq {
			continue
		}
		ok := false
		for _, e := range h.end {
			if e.Seq > first.e.Seq && e.Seq < l.Ret && e.Sigs[l.N] == l.Sig {
				ok = true
			}
		}
		if !ok {
			k.v("C07", "data-before-policy", "lookup %d exposed %s %q = %s at #%d, handler %d (registered at #%d) had not completed for an update carrying it", l.ID, typeName[l.T], l.N, l.Sig, l.Ret, h.id, h.reg)
		}
	}
}
