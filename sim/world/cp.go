//go:build go1.21

package world

import (
	"context"
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"time"

	"github.com/cloudwego/kitex/client/callopt"
	"github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/codes"
	kstatus "github.com/cloudwego/kitex/pkg/remote/trans/nphttp2/status"
	"github.com/cloudwego/kitex/pkg/streaming"
	discoveryv3 "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	ads "github.com/kitex-contrib/xds/core/api/kitex_gen/envoy/service/discovery/v3/aggregateddiscoveryservice"
	"github.com/kitex-contrib/xds/verifsim/det"
)

// CP is the simulated control plane. All its state belongs to G0: tasks of the code under test
// reach it only as bytes, through xfer.
type CP struct {
	specs   specReg
	base    int // of the stream numbers
	h       *History
	cfg     *Cfg
	rng     *rand.Rand
	res     map[RType]map[string]stampedRes
	table   map[string][]string
	rev     map[RType]int
	streams []*Stream
	bad     int
	nresp   int
	stamp   int
	// faults
	openFail  int
	openDelay int64
	downUntil int64
	authDead  bool
	calm      bool // closing phase: no more faults
	fired     map[string]int
	pushExtra func(t RType) []*anypb.Any
	asked     map[RType]bool // types ever requested, on any stream
	quiet     bool           // no automatic replies
	delivered int
	inflight  int
}

// Stream is one ADS stream, seen from the control plane.
type Stream struct {
	id       int
	cp       *CP
	subs     map[RType]*sub
	inbox    []*Resp
	broken   bool
	void     bool
	sendBad  bool
	sendThen int64
	stalled  bool
	tokens   int // messages let through while stalled
	recvErr  int
	drain    bool // deliver what was in flight before the failure
	lastAt   int64
	nonce    int
	closed   bool
}

type sub struct {
	names  map[string]bool
	nonce  string
	sent   bool
	pend   bool
	served map[string]bool
}

func newCP(h *History, cfg *Cfg, env int64) *CP {
	return &CP{
		h: h, cfg: cfg, rng: rand.New(rand.NewSource(env ^ 0x5bd1e995)),
		res: map[RType]map[string]stampedRes{LDS: {}, RDS: {}, CDS: {}, EDS: {}}, table: map[string][]string{},
		rev: map[RType]int{}, fired: map[string]int{}, asked: map[RType]bool{},
	}
}

const (
	ecNone = iota
	ecEOF
	ecUnavailable
	ecReset
	ecAuth
)

func errOf(code int) error {
	switch code {
	case ecNone:
		return nil
	case ecEOF:
		return io.EOF
	case ecUnavailable:
		return kstatus.Err(codes.Unavailable, "transport is closing")
	case ecReset:
		return fmt.Errorf("connection reset by peer")
	case ecAuth:
		return kstatus.Err(codes.Unauthenticated, "authentication failure")
	}
	return fmt.Errorf("error %d", code)
}

// ---- the seam: client and stream as the code under test sees them ----

type fakeClient struct{ cp *CP }

func (c *fakeClient) StreamAggregatedResources(ctx context.Context, _ ...callopt.Option) (ads.AggregatedDiscoveryService_StreamAggregatedResourcesClient, error) {
	st, code := openStream(c.cp)
	if code != ecNone {
		return nil, errOf(code)
	}
	return &fakeStream{st: st, ctx: ctx}, nil
}

func (c *fakeClient) DeltaAggregatedResources(ctx context.Context, _ ...callopt.Option) (ads.AggregatedDiscoveryService_DeltaAggregatedResourcesClient, error) {
	return nil, fmt.Errorf("delta xDS is not served")
}

type fakeStream struct {
	streaming.Stream
	st  *Stream
	ctx context.Context
}

func (f *fakeStream) Context() context.Context { return f.ctx }

func (f *fakeStream) Send(r *discoveryv3.DiscoveryRequest) error {
	b, err := proto.Marshal(r)
	if err != nil {
		return err
	}
	return errOf(sendBytes(f.st, b))
}

func (f *fakeStream) Recv() (*discoveryv3.DiscoveryResponse, error) {
	resp := &discoveryv3.DiscoveryResponse{}
	b, code := recvBytes(f.st)
	if code != ecNone {
		return resp, errOf(code)
	}
	if err := proto.Unmarshal(b, resp); err != nil {
		return resp, err
	}
	return resp, nil
}

func (f *fakeStream) Close() error {
	closeStream(f.st)
	return nil
}

const (
	xOpen = iota
	xOpenEnd
	xSend
	xRecvCall
	xRecvTake
	xClose
	xOp
)

// xfer carries one interaction from a task into G0 and its outcome back.
type xfer struct {
	kind int
	cp   *CP
	st   *Stream
	data []byte
	code int
	wait int64
	op   *Op
	fn   func(*CP, *Op)
}

//go:norace
func (x *xfer) do() { det.Call(x.run) }

func (x *xfer) run() {
	switch x.kind {
	case xOpen:
		x.wait = x.cp.openDelay
	case xOpenEnd:
		x.cp.open(x)
	case xSend:
		if x.st.tokens > 0 {
			x.st.tokens--
		}
		x.code = x.st.onSend(x.data)
	case xRecvCall:
		x.st.cp.h.add(&Ev{K: "recvcall", Stream: x.st.id})
	case xRecvTake:
		x.st.take(x)
	case xClose:
		x.st.closed = true
		x.st.cp.h.add(&Ev{K: "closed", Stream: x.st.id})
	case xOp:
		x.fn(x.cp, x.op)
	}
}

//go:norace
func copyBytes(b []byte) []byte {
	c := make([]byte, len(b))
	for i := 0; i < len(b); i++ {
		c[i] = b[i]
	}
	return c
}

//go:norace
func openStream(cp *CP) (*Stream, int) {
	x := &xfer{kind: xOpen, cp: cp}
	x.do()
	if x.wait > 0 {
		det.Sleep(time.Duration(x.wait))
	}
	x.kind = xOpenEnd
	x.do()
	return x.st, x.code
}

type sendGate struct{ st *Stream }

//go:norace
func (g *sendGate) Ready() bool { return !g.st.stalled || g.st.broken || g.st.tokens > 0 }

//go:norace
func sendBytes(st *Stream, b []byte) int {
	if st.stalled && !st.broken && st.tokens == 0 {
		det.Block(&sendGate{st})
	}
	x := &xfer{kind: xSend, st: st, data: copyBytes(b)}
	x.do()
	return x.code
}

// trickle lets one message through every d until the stall is over.
func trickle(st *Stream, d time.Duration, n int) {
	if n == 0 {
		return
	}
	det.AddTimer(d, func() {
		if st.stalled && !st.broken {
			st.tokens = 1
			trickle(st, d, n-1)
		}
	})
}

type recvGate struct{ st *Stream }

//go:norace
func (g *recvGate) Ready() bool { return len(g.st.inbox) > 0 || (g.st.broken && g.st.recvErr != 0) }

//go:norace
func recvBytes(st *Stream) ([]byte, int) {
	x := &xfer{kind: xRecvCall, st: st}
	x.do()
	det.Block(&recvGate{st})
	x.kind = xRecvTake
	x.do()
	if x.code != ecNone {
		return nil, x.code
	}
	return copyBytes(x.data), ecNone
}

//go:norace
func closeStream(st *Stream) {
	x := &xfer{kind: xClose, st: st}
	x.do()
}

//go:norace
func bareOp(k string) *Op { return &Op{K: k} }

//go:norace
func g0op(cp *CP, op *Op, fn func(*CP, *Op)) {
	x := &xfer{kind: xOp, cp: cp, op: op, fn: fn}
	x.do()
}

// ---- G0 side ----

func (cp *CP) open(x *xfer) {
	if cp.openFail > 0 || det.Nanos() < cp.downUntil {
		if cp.openFail > 0 {
			cp.openFail--
		}
		cp.fired["open-fail"]++
		cp.h.add(&Ev{K: "openfail"})
		x.code = ecUnavailable
		return
	}
	st := &Stream{id: cp.base + len(cp.streams) + 1, cp: cp, subs: map[RType]*sub{}}
	cp.streams = append(cp.streams, st)
	cp.h.add(&Ev{K: "open", Stream: st.id})
	if cp.openDelay > 0 {
		cp.fired["open-slow"]++
	}
	x.st = st
}

// live is the newest stream if it works.
func (cp *CP) live() *Stream {
	if n := len(cp.streams); n > 0 && !cp.streams[n-1].broken {
		return cp.streams[n-1]
	}
	return nil
}

func (cp *CP) jitter(max int64) int64 {
	if max <= 0 {
		return 0
	}
	return cp.rng.Int63n(max) + 1
}

func (st *Stream) onSend(data []byte) int {
	cp := st.cp
	req := &discoveryv3.DiscoveryRequest{}
	if err := proto.Unmarshal(data, req); err != nil {
		panic(err)
	}
	node, _ := proto.MarshalOptions{Deterministic: true}.Marshal(req.Node)
	e := &Ev{K: "send", Stream: st.id, T: typeOf[req.TypeUrl], URL: req.TypeUrl, Nonce: req.ResponseNonce, Ver: req.VersionInfo, Names: append([]string{}, req.ResourceNames...), Node: string(node)}
	if req.Node == nil {
		e.Node = "nil"
	}
	if d := req.ErrorDetail; d != nil {
		e.Err, e.ErrCode = d.Message, d.Code
		if e.Err == "" {
			e.Err = "(empty)"
		}
	}
	sort.Strings(e.Names)
	if st.sendBad && !st.broken {
		st.sendBad = false
		cp.fired["send-error"]++
		st.fail(ecReset, false, st.sendThen)
		e.K = "void"
		cp.h.add(e)
		return ecReset
	}
	if st.broken {
		e.K = "void"
		cp.h.add(e)
		if st.void && st.recvErr == 0 {
			cp.fired["send-into-void"]++
			return ecNone
		}
		return ecUnavailable
	}
	cp.h.add(e)
	st.onRequest(e)
	return ecNone
}

func (st *Stream) onRequest(e *Ev) {
	cp := st.cp
	if e.T == 0 {
		return
	}
	cp.asked[e.T] = true
	s := st.subs[e.T]
	first := s == nil
	if first {
		s = &sub{names: map[string]bool{}, served: map[string]bool{}}
		st.subs[e.T] = s
	}
	if cp.cfg.Strict && e.Nonce != "" && e.Nonce != s.nonce {
		cp.fired["stale-nonce-ignored"]++
		return
	}
	old := s.names
	s.names = map[string]bool{}
	grown := first
	for _, n := range e.Names {
		s.names[n] = true
		if !old[n] {
			grown = true
		}
	}
	if e.Nonce == "" {
		grown = true
	}
	if grown && !s.pend && !cp.quiet && cp.cfg.Auto[shortName[e.T]] != "none" {
		s.pend = true
		t := e.T
		cp.inflight++
		det.AddTimer(time.Duration(cp.jitter(cp.cfg.ProcMax)), func() {
			cp.inflight--
			s.pend = false
			if !st.broken {
				st.send(cp.build(st, t, nil, cp.cfg.Auto[shortName[t]] == "subs"))
			}
		})
	}
}

func (cp *CP) version(t RType) string {
	n := cp.rev[t]
	switch cp.cfg.Vers {
	case "const":
		return "1"
	case "none":
		return ""
	case "cycle":
		return fmt.Sprint(n % 2)
	case "down":
		return fmt.Sprint(100 - n)
	}
	return fmt.Sprintf("%s-v%d", shortName[t], n)
}

// badVersion is the one of a response that is not of a revision.
func (cp *CP) badVersion(t RType, kind string) string {
	if cp.cfg.Vers == "" || cp.bad%2 == 0 {
		return fmt.Sprintf("%s-%s%d", cp.version(t), kind, cp.bad)
	}
	return cp.version(t)
}

// build makes a response of type t for the stream. names: exactly these (existing ones); nil: all
// of the control plane's resources of the type, or only the subscribed ones if subsOnly.
func (cp *CP) build(st *Stream, t RType, names []string, subsOnly bool) *Resp {
	r := &Resp{T: t, URL: urlOf[t], Valid: true, Ver: cp.version(t), Items: map[string]string{}}
	msg := &discoveryv3.DiscoveryResponse{TypeUrl: urlOf[t], VersionInfo: r.Ver}
	if t == NDS {
		r.Table = map[string][]string{}
		for h, ips := range cp.table {
			r.Table[h] = append([]string{}, ips...)
		}
		msg.Resources = []*anypb.Any{ndsRes(cp.table)}
	} else {
		var ns []string
		if names != nil {
			ns = append(ns, names...)
		} else {
			for n := range cp.res[t] {
				if subsOnly && !(t == LDS && !cp.cfg.NDSOff) && st.subs[t] != nil && !st.subs[t].names[n] {
					continue
				}
				ns = append(ns, n)
			}
		}
		sort.Strings(ns)
		seen := map[string]bool{}
		for _, n := range ns {
			x, ok := cp.res[t][n]
			if !ok || seen[n] {
				continue
			}
			seen[n] = true
			r.Items[n] = x.sig
			msg.Resources = append(msg.Resources, x.any)
		}
		if len(msg.Resources) > 1 {
			cp.rng.Shuffle(len(msg.Resources), func(i, j int) {
				msg.Resources[i], msg.Resources[j] = msg.Resources[j], msg.Resources[i]
			})
		}
	}
	st.seal(r, msg)
	return r
}

// corrupt turns a response of type t into one the client has to reject (or ignore).
func (cp *CP) corrupt(st *Stream, t RType, kind string, slot int, names []string) *Resp {
	cp.bad++
	r := cp.build(st, t, names, false)
	msg := &discoveryv3.DiscoveryResponse{}
	if err := proto.Unmarshal(r.bytes, msg); err != nil {
		panic(err)
	}
	st.nonce-- // the sealed one was not sent
	r.Ver = cp.badVersion(t, "bad")
	msg.VersionInfo = r.Ver
	switch kind {
	case "unknown":
		r.T, r.URL, r.Valid = 0, "type.googleapis.com/envoy.extensions.transport_sockets.tls.v3.Secret", true
		if slot%2 == 1 {
			r.URL = "type.googleapis.com/foo.Bar"
		}
		if slot%5 == 4 {
			r.URL = ""
		}
		msg.TypeUrl = r.URL
		r.Items, r.Table = nil, nil
	case "empty": // name table without resources
		msg.Resources = nil
		r.Valid = t != NDS
		if t != NDS {
			r.Items = map[string]string{}
		}
	default:
		r.Valid = false
		name := "w0"
		switch slot {
		case 3:
			name = ""
		case 4, 5: // besides a good one of that name
			for _, n := range sortedKeys(r.Items) {
				name = n
				break
			}
		}
		bad := invalidAny(t, kind, name)
		if t == NDS && slot%2 == 0 {
			msg.Resources = []*anypb.Any{bad}
		} else {
			i := 0
			if n := len(msg.Resources); n > 0 {
				i = slot % (n + 1)
			}
			rs := append([]*anypb.Any{}, msg.Resources[:i]...)
			rs = append(rs, bad)
			msg.Resources = append(rs, msg.Resources[i:]...)
		}
	}
	st.seal(r, msg)
	return r
}

func (st *Stream) seal(r *Resp, msg *discoveryv3.DiscoveryResponse) {
	st.nonce++
	st.cp.nresp++
	r.ID = st.cp.nresp
	r.Stream = st.id
	switch st.cp.cfg.Nonces {
	case "stream":
		r.Nonce = fmt.Sprint(st.nonce)
	case "opaque":
		h := sha256.Sum256([]byte(fmt.Sprintf("%d.%d", st.id, st.nonce)))
		r.Nonce = base64.StdEncoding.EncodeToString(h[:20])
	default:
		r.Nonce = fmt.Sprintf("n%d.%d", st.id, st.nonce)
	}
	msg.Nonce = r.Nonce
	b, err := proto.Marshal(msg)
	if err != nil {
		panic(err)
	}
	r.bytes = b
}

// send puts the response on its way; the stream keeps order.
func (st *Stream) send(r *Resp) {
	cp := st.cp
	if s := st.subs[r.T]; s != nil && r.T != 0 {
		s.nonce, s.sent = r.Nonce, true
	} else {
		r.unsol = true
	}
	at := det.Nanos() + cp.jitter(cp.cfg.NetMax)
	if at <= st.lastAt {
		at = st.lastAt
		if !cp.cfg.Conc {
			at += cp.jitter(1000)
		}
	}
	st.lastAt = at
	cp.inflight++
	det.AddTimer(time.Duration(at-det.Nanos()), func() {
		cp.inflight--
		if st.broken && !st.drain {
			return
		}
		st.inbox = append(st.inbox, r)
		cp.delivered++
	})
}

func (st *Stream) take(x *xfer) {
	if len(st.inbox) > 0 {
		r := st.inbox[0]
		st.inbox = st.inbox[1:]
		st.cp.h.add(&Ev{K: "recv", Stream: st.id, T: r.T, Nonce: r.Nonce, Ver: r.Ver, Resp: r})
		x.data = r.bytes
		return
	}
	x.code = st.recvErr
	st.cp.h.add(&Ev{K: "recverr", Stream: st.id, Err: fmt.Sprint(errOf(st.recvErr))})
}

// fail breaks the stream. after > 0: reads fail only then.
func (st *Stream) fail(code int, void bool, after int64) {
	if st.broken {
		return
	}
	cp := st.cp
	st.broken = true
	st.void = void
	st.drain = !cp.cfg.DropInbox
	if cp.cfg.DropInbox {
		st.inbox = nil
	}
	cp.h.add(&Ev{K: "broken", Stream: st.id, Err: fmt.Sprint(errOf(code))})
	set := func() { st.recvErr = code }
	if after > 0 {
		cp.inflight++
		det.AddTimer(time.Duration(after), func() { cp.inflight--; set() })
	} else {
		set()
	}
}

// ---- operations on the control plane (in G0) ----

func cpOp(cp *CP, o *Op) {
	cp.h.add(&Ev{K: "op", Op: o})
	t := typeByName[o.T]
	switch o.K {
	case "set":
		cp.stamp++
		cp.rev[t]++
		cp.res[t][o.N] = coreRes(t, o.N, cp.stamp, o.V)
	case "put":
		cp.put(o)
	case "raw":
		if st := cp.live(); st != nil {
			cp.raw(st, o)
		}
	case "del":
		cp.rev[t]++
		delete(cp.res[t], o.N)
	case "table":
		cp.rev[NDS]++
		cp.table = map[string][]string{}
		for h, ips := range o.Table {
			cp.table[h] = ips
		}
	case "push":
		if st := cp.live(); st != nil {
			if o.X == "unsub" { // a type nobody ever asked for
				if cp.asked[t] {
					return
				}
				cp.fired["never-subscribed-type"]++
			} else if st.subs[t] == nil {
				return
			}
			var r *Resp
			switch {
			case o.X == "" || o.X == "unsub":
				if o.Names == nil {
					r = cp.build(st, t, nil, false)
				} else {
					r = cp.build(st, t, o.Names, false)
				}
			default:
				r = cp.corrupt(st, t, o.X, o.C, o.Names)
				cp.fired["bad-response:"+o.X]++
			}
			st.send(r)
		}
	case "break":
		st := cp.live()
		cp.openFail += o.C
		cp.openDelay = o.D
		if st == nil {
			return
		}
		code := ecEOF
		switch o.V % 3 {
		case 1:
			code = ecUnavailable
		case 2:
			code = ecReset
		}
		switch o.X {
		case "auth":
			cp.authDead = true
			cp.fired["auth-reject"]++
			st.fail(ecAuth, false, 0)
		case "send":
			st.sendBad = true
			st.sendThen = o.D / 2
		case "void":
			cp.fired["half-open"]++
			st.fail(code, true, 1+o.D)
		default:
			cp.fired["recv-error"]++
			st.fail(code, false, 0)
		}
	case "down":
		cp.fired["outage"]++
		cp.downUntil = det.Nanos() + o.D
		if o.C == 1 { // from the beginning, the clock does not run yet
			cp.downUntil = o.D
		}
		if st := cp.live(); st != nil {
			st.fail(ecUnavailable, o.X == "void", 0)
		}
	case "stall":
		if st := cp.live(); st != nil && !st.stalled {
			cp.fired["stall"]++
			st.stalled = true
			cp.inflight++
			det.AddTimer(time.Duration(o.D), func() { cp.inflight--; st.stalled = false; st.tokens = 0 })
			if o.V > 0 { // a slow peer: a message now and then
				cp.fired["trickle"]++
				trickle(st, time.Duration(o.V), 2000)
			}
		}
	case "quiet":
		cp.quiet = o.C == 1
	case "calm":
		cp.calm = true
		cp.openFail, cp.openDelay, cp.downUntil, cp.quiet = 0, 0, 0, false
		for _, st := range cp.streams {
			st.sendBad = false
			st.stalled = false
		}
	case "final":
		if st := cp.live(); st != nil {
			for _, t := range allTypes {
				if st.subs[t] != nil {
					st.send(cp.build(st, t, nil, false))
				}
			}
		}
	}
}
