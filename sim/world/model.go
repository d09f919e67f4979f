//go:build go1.21

package world

import (
	"fmt"
	"sort"
	"strings"
)

const expiry = int64(30e9) // the documented idle period of cached resources

// nameState is what the reference model knows about one (type, name).
type nameState struct {
	interest int             // 0 no, 1 yes, 2 maybe (may have been evicted, or is being subscribed)
	poss     map[string]bool // what a lookup may find now; "" is absence
	lookup   int64           // time of the last lookup
	ever     bool            // was stored at some time
	reserved bool
	since    int64 // when it became certainly subscribed
	everLook bool
	evicted  bool
	aged     bool  // was certainly cached until the idle period was over
	arrive   int64 // when it was last stored anew
	access   int64 // time of the last lookup that returned a value (its return), and its invocation
	accInv   int64
	slack    int64 // by how much a sweep may take a lookup to be older
	waitTo   int64 // until when lookups of it, certainly not cached, wait
	supplied int64 // when it was last stored since it was last withdrawn, 0: never
}

func (n *nameState) only() (string, bool) {
	if len(n.poss) == 1 {
		for s := range n.poss {
			return s, true
		}
	}
	return "", false
}

func (n *nameState) add(s string) { n.poss[s] = true }

func (n *nameState) set(s string) { n.poss = map[string]bool{s: true} }

// Model is the reference: the fold of accepted responses, filtered by what was asked for.
type Model struct {
	cfg     *Cfg
	names   map[RType]map[string]*nameState
	slack   int64
	subbed  map[RType]bool // types with a subscription, ever
	ver     map[RType]string
	table   map[string][]string // lower-cased host -> addresses
	lastLDS *Resp
}

func newModel(cfg *Cfg) *Model {
	m := &Model{cfg: cfg, names: map[RType]map[string]*nameState{}, subbed: map[RType]bool{}, ver: map[RType]string{}, table: map[string][]string{}}
	for _, t := range allTypes {
		m.names[t] = map[string]*nameState{}
	}
	return m
}

func (m *Model) st(t RType, n string) *nameState {
	mm := m.names[t]
	if mm == nil {
		mm = map[string]*nameState{}
		m.names[t] = mm
	}
	s := mm[n]
	if s == nil {
		s = &nameState{poss: map[string]bool{"": true}, slack: m.slack, reserved: (t == LDS && n == reserved) || (t == NDS && n == "")}
		mm[n] = s
	}
	return s
}

// namespace is the one names are expanded with.
func namespaceOf(c *Cfg) string {
	if c.MetaNS != "" {
		return c.MetaNS
	}
	return c.NS
}

// expandHost is the fully qualified name of a host (lower case).
func expandHost(c *Cfg, host string) string {
	h := strings.ToLower(host)
	ns, dom := strings.ToLower(namespaceOf(c)), strings.ToLower(c.Domain)
	if dom == "" {
		dom = "cluster.local"
	}
	if strings.Contains(h, ".svc.") {
		return h
	}
	labels := strings.Split(h, ".")
	switch {
	case len(labels) == 1:
		return h + "." + ns + ".svc." + dom
	case len(labels) == 2:
		return h + ".svc." + dom
	case len(labels) == 3 && labels[2] == "svc":
		return h + "." + dom
	case len(labels) == 3:
		return h
	}
	return h + "." + ns + ".svc." + dom
}

// bind gives the name of the listener that serves a lookup of n, "" if there is none.
func (m *Model) bind(n string) string {
	if m.cfg.NDSOff || n == reserved {
		return n
	}
	parts := strings.Split(n, ":")
	port := "80"
	if len(parts) > 2 {
		return ""
	}
	if len(parts) == 2 {
		port = parts[1]
	}
	ip := m.resolve(parts[0])
	if ip == "" {
		return ""
	}
	return ip + "_" + port
}

func (m *Model) resolve(host string) string {
	if ips := m.table[expandHost(m.cfg, host)]; len(ips) > 0 {
		return ips[0]
	}
	if ips := m.table[strings.ToLower(host)]; len(ips) > 0 {
		return ips[0]
	}
	return ""
}

// age marks what a sweep may have evicted by now.
func (m *Model) age(now int64) {
	for _, mm := range m.names {
		for _, s := range mm {
			s.age(now)
		}
	}
}

func (s *nameState) age(now int64) {
	if now < s.waitTo {
		return // nothing to evict, and somebody needs it
	}
	if s.interest == 1 && !s.reserved && s.ever && now-s.lookup > expiry-s.slack {
		s.interest = 2
		v, one := s.only()
		s.aged = one && v != ""
		s.poss[""] = true
	}
}

// lookup records the invocation of a lookup at time now; hit says how the real one ended at once.
func (m *Model) lookup(t RType, n string, now int64, conc bool) *nameState {
	s := m.st(t, n)
	s.age(now)
	s.lookup = now
	s.aged = false
	s.everLook = true
	m.subbed[t] = true
	if s.interest != 1 {
		if conc {
			s.interest = 2
		} else if _, one := s.only(); one {
			s.interest, s.since = 1, now // nothing cached for certain: it misses and subscribes
		}
	}
	return s
}

// onWire records that a request listing exactly names went out.
func (m *Model) onWire(t RType, names []string, now int64) {
	m.subbed[t] = true
	for _, n := range names {
		s := m.st(t, n)
		if s.interest != 1 {
			s.interest = 1
			s.since = now
		}
	}
}

// accepts reports whether the client takes notice of a response at all.
func (m *Model) listens(r *Resp) bool { return r.T != 0 && m.subbed[r.T] }

// apply folds in a response.
func (m *Model) apply(r *Resp, now int64) {
	if !m.listens(r) || !r.Valid {
		return
	}
	m.age(now)
	m.ver[r.T] = r.Ver
	switch r.T {
	case NDS:
		m.table = map[string][]string{}
		for h, ips := range r.Table {
			m.table[strings.ToLower(h)] = ips
		}
		if rebindOnNDS && m.lastLDS != nil {
			m.applyLDS(m.lastLDS, now)
		}
	case LDS:
		m.lastLDS = r
		m.applyLDS(r, now)
	case CDS:
		for n, s := range m.names[CDS] {
			s.put(r.Items[n], now)
		}
	default:
		for n, sig := range r.Items {
			if s := m.names[r.T][n]; s != nil {
				s.put(sig, now)
			}
		}
	}
}

// rebindOnNDS: a new name table takes effect on the listeners of the last accepted response.
const rebindOnNDS = true

func (m *Model) applyLDS(r *Resp, now int64) {
	for n, s := range m.names[LDS] {
		sig := ""
		if b := m.bind(n); b != "" {
			sig = r.Items[b]
		}
		s.put(sig, now)
	}
}

// supply is what r, just folded in, has for a name.
func (m *Model) supply(r *Resp, t RType, n string) (string, bool) {
	switch {
	case !r.Valid:
		return "", false
	case t == LDS && (r.T == LDS || r.T == NDS && m.lastLDS != nil):
		if b := m.bind(n); b != "" {
			return m.lastLDS.Items[b], true
		}
		return "", true
	case r.T == t && t == CDS:
		return r.Items[n], true
	case r.T == t:
		sig, ok := r.Items[n]
		return sig, ok
	}
	return "", false
}

// put stores sig ("": removal).
func (s *nameState) put(sig string, now int64) {
	if v, one := s.only(); sig != "" && (!one || v == "") && s.interest != 0 {
		s.arrive = now
	}
	switch s.interest {
	case 0:
		return
	case 1:
		s.set(sig)
	case 2: // not subscribed (any more): nothing; else the new one
		s.poss = map[string]bool{"": true, sig: true}
	}
	if sig != "" {
		s.waitTo = 0
		s.ever = true
		s.supplied = now + 1
	}
}

func (m *Model) interestOf(t RType) (yes, maybe []string) {
	for n, s := range m.names[t] {
		if s.interest == 1 {
			yes = append(yes, n)
		} else if s.interest == 2 {
			maybe = append(maybe, n)
		}
	}
	sort.Strings(yes)
	sort.Strings(maybe)
	return
}

func possString(p map[string]bool) string {
	var out []string
	for s := range p {
		if s == "" {
			s = "(absent)"
		}
		out = append(out, s)
	}
	sort.Strings(out)
	return fmt.Sprint(out)
}
