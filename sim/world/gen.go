//go:build go1.21

package world

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"sort"
	"strings"

	"github.com/kitex-contrib/xds/verifsim/det"
)

// Every plan is a function of (property, seed, index).

type gen struct {
	r    *rand.Rand
	p    *Plan
	prop string
	// universe
	ns, dom           string
	names             map[string][]string // lookup names per type
	cpNames           map[string][]string // control-plane names per type
	ips               []string
	hosts             []string
	rough             bool // heavy use of identical instants
	ndsMode           bool
	t                 int64
	long              bool
	bads, downs, auth bool
}

func planRand(prop string, seed, idx int64) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", prop, seed, idx)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

func (g *gen) p100(n int) bool { return g.r.Intn(100) < n }

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

// weighted picks an index with probability proportional to ws.
func weighted(r *rand.Rand, ws ...int) int {
	sum := 0
	for _, w := range ws {
		sum += w
	}
	x := r.Intn(sum)
	for i, w := range ws {
		if x < w {
			return i
		}
		x -= w
	}
	return 0
}

// coreConcurrent is the share (percent) of runs with overlapping activity.
var coreConcurrent = map[string]int{"C01": 30, "C02": 20, "C03": 40, "C04": 45, "C05": 50, "C06": 60, "C07": 95, "C14": 15, "C19": 35}

// GenCore makes plan idx of a search of the core world for a property.
func GenCore(prop string, seed, idx int64) *Plan {
	r := planRand(prop, seed, idx)
	g := &gen{r: r, prop: prop, p: &Plan{World: "core", Prop: prop, Seed: r.Int63(), Env: r.Int63()}}
	c := &g.p.Cfg
	c.Conc = g.p100(coreConcurrent[prop])
	g.rough = c.Conc
	g.config()
	g.universe()
	g.policy(c.Conc)
	g.initial()
	if c.Conc {
		g.concOps()
	} else {
		g.seqOps()
	}
	return g.p
}

// bigOK: properties with runs over many resources.
var bigOK = map[string]bool{"C01": true, "C02": true, "C03": true, "C04": true, "C05": true, "C19": true}

func (g *gen) config() {
	c, r := &g.p.Cfg, g.r
	c.NS = pick(r, "default", "prod", "team-a")
	c.Domain = pick(r, "cluster.local", "cluster.local", "corp.example", "")
	if g.prop == "C14" && g.p100(40) {
		c.Domain = pick(r, "Corp.Example", "k8s", "a.b.c.d")
		c.NS = pick(r, "Prod", "default", "n-1")
	}
	if g.p100(25) || (g.prop == "C14" && g.p100(30)) {
		c.MetaNS = pick(r, "meta-ns", "other")
	}
	switch {
	case g.prop == "C14":
	default:
		c.NDSOff = g.p100(45)
		c.LDSOff = g.p100(25)
	}
	c.Strict = g.p100(35)
	c.Auto = map[string]string{}
	for _, t := range []string{"lds", "rds", "cds", "eds", "nds"} {
		m := pick(r, "full", "subs", "subs")
		if t != "lds" && t != "nds" && g.p100(12) {
			m = "none"
		}
		c.Auto[t] = m
	}
	if c.Conc {
		c.FetchMS = pick(r, 5, 20, 50)
		c.ProcMax = pick(r, int64(0), 0, 1000, 1000000)
		c.NetMax = pick(r, int64(0), 0, 1000, 1000000)
		c.Handlers = pick(r, 0, 0, 1, 4)
		if g.prop == "C07" {
			c.Handlers = pick(r, 0, 2, 4, 6)
		}
	} else {
		c.FetchMS = pick(r, 200, 1000, 3000)
		c.ProcMax = pick(r, int64(1000), 1000000, 100000000)
		c.NetMax = pick(r, int64(1000), 1000000, 100000000)
		c.Handlers = pick(r, 0, 0, 0, 4)
	}
	c.DropInbox = g.p100(40)
	c.NoFinal = g.p100(15)
	if g.p100(8) {
		c.Tail = int64(g.r.Intn(70)) * 1e9
	}
	if !c.Conc && g.p100(6) {
		c.FetchMS, c.FetchDef = 1000, true
	} else if !c.Conc && g.p100(map[string]int{"C06": 6, "C01": 2, "C03": 2, "C05": 2, "C19": 2}[g.prop]) {
		c.FetchMS = pick(r, 45000, 70000, 100000) // lookups that wait across sweeps
	}
	protoStyle(r, c)
}

// protoStyle decides how the versions and nonces of the control plane look.
func protoStyle(r *rand.Rand, c *Cfg) {
	c.Vers = pick(r, "", "", "", "", "", "const", "none", "cycle", "down")
	c.Nonces = pick(r, "", "", "", "stream", "opaque")
}

func (g *gen) universe() {
	c := &g.p.Cfg
	g.ndsMode = !c.NDSOff
	g.ns, g.dom = namespaceOf(c), c.Domain
	if g.dom == "" {
		g.dom = "cluster.local"
	}
	g.names, g.cpNames = map[string][]string{}, map[string][]string{}
	g.ips = []string{"10.0.0.1", "10.0.0.2", "10.0.0.3"}
	k := 4
	if c.Conc {
		k = 2
	} else if g.p100(4) && bigOK[g.prop] {
		k = pick(g.r, 11, 20, 45, 140)
	}
	style := pick(g.r, "outbound|80||s%d", "outbound|80||s%d", "outbound|80||s%d", "outbound|8080|v1|s%d.ns.svc.cluster.local", "%d", "S%d", "x/é s%d", strings.Repeat("long", 80)+"%d")
	for i := 0; i < k; i++ {
		g.names["cds"] = append(g.names["cds"], fmt.Sprintf(style, i))
		g.names["eds"] = append(g.names["eds"], fmt.Sprintf(style, i))
		g.names["rds"] = append(g.names["rds"], pick(g.r, fmt.Sprintf("rt%d", i), fmt.Sprintf("80%d", i)))
	}
	for _, t := range []string{"cds", "eds", "rds"} {
		g.cpNames[t] = append(append([]string{}, g.names[t]...), "w0", "w1") // w: never looked up
		if g.prop == "C19" && g.p100(10) {                                   // reserved for listeners only
			g.names[t] = append(g.names[t], reserved)
			g.cpNames[t] = append(g.cpNames[t], reserved)
		}
		if g.p100(30) {
			g.names[t] = append(g.names[t], "ghost") // never supplied
		}
	}
	if !g.ndsMode {
		for i := 0; i < k; i++ {
			g.names["lds"] = append(g.names["lds"], pick(g.r, fmt.Sprintf("svc%d:8080", i), fmt.Sprintf("svc%d", i)))
		}
		g.cpNames["lds"] = append(append([]string{}, g.names["lds"]...), "w0")
		if g.p100(30) {
			g.names["lds"] = append(g.names["lds"], "ghost:1")
		}
		if g.p100(50) {
			g.names["lds"] = append(g.names["lds"], reserved)
		}
		return
	}
	if g.prop == "C14" && g.p100(20) {
		g.ips = append(g.ips, "2001:db8::7")
	}
	for _, ip := range g.ips {
		g.cpNames["lds"] = append(g.cpNames["lds"], ip+"_80", ip+"_8080")
		if g.prop == "C14" {
			g.cpNames["lds"] = append(g.cpNames["lds"], ip+"_15021")
		}
	}
	// hosts in every spelling
	ns, dom := g.ns, g.dom
	for i := 0; i < 3; i++ {
		s := fmt.Sprintf("svc%d", i)
		g.hosts = append(g.hosts, s+"."+strings.ToLower(ns)+".svc."+strings.ToLower(dom), s+".other.svc."+strings.ToLower(dom))
	}
	g.hosts = append(g.hosts, "ext0.example.com", "plain", "a.b.c", "svc0", "svc1.other")
	look := []string{}
	for i := 0; i < 2; i++ {
		s := fmt.Sprintf("svc%d", i)
		for _, h := range []string{s, s + "." + ns, s + "." + ns + ".svc", s + "." + ns + ".svc." + dom, s + ".other", s + ".other.svc." + dom} {
			look = append(look, h, h+":80", h+":8080")
		}
	}
	look = append(look, "ext0.example.com", "ext0.example.com:8080", "plain", "plain:80", "a.b.c:80", "nohost", "nohost:8080", "svc0:x:80", "svc2:9999")
	if g.prop == "C14" {
		long := "svc0." + strings.ToLower(ns) + ".svc."
		g.hosts = append(g.hosts, "svc0."+strings.ToLower(ns), "svc0."+strings.ToLower(ns)+".svc", "svc0.other.svc", "svc1",
			"x.y.svcs", "x.y.svcs."+dom, "a.b.c.d", "a.b.c.d."+ns+".svc."+dom, long+"other.dom", long+"other.dom."+ns+".svc."+dom)
		look = append(look, "x.y.svcs", "a.b.c.d:80", "a.b.c.d", long+"other.dom:8080", long+"other.dom", "svc0:15021", "svc1.other:15021", "svc0.other.svc", "svc0.other.svc:80")
	}
	for i := range look {
		if g.p100(12) && !strings.Contains(look[i], "x:") {
			look[i] = strings.ToUpper(look[i])
		}
	}
	g.r.Shuffle(len(look), func(i, j int) { look[i], look[j] = look[j], look[i] })
	n := 6
	if g.prop == "C14" {
		n = 14
	}
	if c.Conc {
		n = 3
		look[0] = "svc0:80"
	}
	g.names["lds"] = append(g.names["lds"], look[:n]...)
	if g.p100(40) {
		g.names["lds"] = append(g.names["lds"], reserved)
	}
	if g.p100(8) { // asked by the name of the listener itself
		g.names["lds"] = append(g.names["lds"], g.cpNames["lds"][0])
	}
}

func (g *gen) policy(conc bool) {
	p := &g.p.Pol
	r := g.r
	switch weighted(r, 40, 30, 20, 10) {
	case 0:
		p.Kind = "random"
	case 1:
		p.Kind, p.Stick = "sticky", pick(r, 0.5, 0.8, 0.95)
	case 2:
		p.Kind, p.Changes, p.Horizon = "pct", 1+r.Intn(6), pick(r, 300, 1000, 3000)
	case 3:
		p.Kind, p.Victim = "starve", r.Intn(12)
	}
	if conc && g.p100(35) {
		p.Lag, p.LagMax, p.LagCap = pick(r, 0.01, 0.05), pick(r, int64(1e6), 50e6), pick(r, int64(50e6), 1e9)
	}
}

// set makes an op that gives name a new content.
func (g *gen) set(t, n string) Op { return Op{K: "set", T: t, N: n, V: g.r.Intn(8)} }

func (g *gen) tableOp() Op {
	o := Op{K: "table", Table: map[string][]string{}}
	empty := g.prop == "C14" && g.p100(4)
	seen := map[string]bool{} // keys that differ only in case would make the table ambiguous
	for _, h := range g.hosts {
		if empty || !g.p100(60) || seen[strings.ToLower(h)] {
			continue
		}
		seen[strings.ToLower(h)] = true
		n := weighted(g.r, 8, 60, 25, 7)
		ips := []string{}
		for i := 0; i < n; i++ {
			ips = append(ips, pick(g.r, g.ips...))
		}
		if g.p100(6) {
			ips = []string{"10.9.9.9"} // no such listener
		}
		key := h
		if g.p100(10) {
			key = strings.ToUpper(h)
		}
		o.Table[key] = ips
	}
	return o
}

var shortTypes = []string{"lds", "rds", "cds", "eds"}

func (g *gen) initial() {
	p := g.p
	add := func(o Op) { p.Boot = append(p.Boot, o) }
	if g.ndsMode {
		add(g.tableOp())
	}
	prob := pick(g.r, 30, 60, 90)
	for _, t := range shortTypes {
		for _, n := range g.cpNames[t] {
			if g.p100(prob) {
				add(g.set(t, n))
			}
		}
	}
	if g.p100(70) {
		add(g.set("lds", reserved))
	}
	// nothing answers when the client is started; a long time of it is more than the client waits
	if g.p100(map[string]int{"C03": 2, "C04": 3, "C05": 4, "C06": 3, "C07": 2}[g.prop]) {
		o := Op{K: "down", C: 1, D: g.gap(1e6, 30e9)}
		if (g.prop == "C05" || g.prop == "C06") && g.p100(50) {
			o.D = g.gap(10*60e9, 22*60e9)
		}
		add(o)
	}
	// trouble during start-up
	faulty := map[string]int{"C02": 25, "C04": 35, "C05": 25, "C07": 25, "C03": 15}[g.prop]
	if g.p100(faulty) {
		n := 1 + g.r.Intn(2)
		for i := 0; i < n; i++ {
			o := g.fault()
			o.Gap = g.gap(0, 50e6)
			if o.K == "stall" && g.prop != "C07" && g.prop != "C04" {
				o.D = o.D % 3e9
			}
			add(o)
		}
	}
}

func (g *gen) gap(lo, hi int64) int64 {
	if hi <= lo {
		return lo
	}
	d := lo + g.r.Int63n(hi-lo)
	return d
}

// fault is one network or control-plane fault.
func (g *gen) fault() Op {
	r := g.r
	k := weighted(r, 50, 10, 10, 25)
	if g.prop == "C02" {
		k = weighted(r, 20, 5, 0, 75)
	}
	switch k {
	case 0:
		o := Op{K: "break", X: pick(r, "", "", "", "send", "void"), V: r.Intn(3)}
		if g.p100(30) {
			o.C = 1 + r.Intn(3)
		}
		if g.p100(25) {
			o.D = g.gap(1e6, 2e9)
		}
		if (g.prop == "C04" && g.p100(7)) || (g.prop == "C05" || g.prop == "C07") && g.p100(5) {
			o.X = "auth"
		}
		return o
	case 1:
		return Op{K: "down", D: g.gap(1e6, 5e9), X: pick(r, "", "void")}
	case 2:
		o := Op{K: "stall", D: g.gap(1e6, 4e9)}
		if g.p100(30) {
			o.V = int(g.gap(o.D/1000+1, o.D/5+2))
		}
		return o
	}
	return g.badPush()
}

// badPush is a response the client has to reject or ignore.
func (g *gen) badPush() Op {
	r := g.r
	t := pick(r, "lds", "rds", "cds", "eds")
	if g.ndsMode && g.p100(35) {
		t = "nds"
	}
	o := Op{K: "push", T: t, C: r.Intn(7)}
	switch weighted(r, 70, 15, 15) {
	case 0:
		o.X = pick(r, invalidKinds...)
		if t == "nds" && g.p100(30) {
			o.X = "empty"
		}
	case 1:
		o.X = "unknown"
	case 2:
		o.X = "unsub"
		o.T = pick(r, "lds", "rds", "cds", "eds", "nds")
	}
	if g.p100(30) && o.T != "nds" {
		o.Names = g.someNames(o.T)
	}
	return o
}

func (g *gen) someNames(t string) []string {
	out := []string{}
	for _, n := range g.cpNames[t] {
		if g.p100(40) {
			out = append(out, n)
		}
	}
	if t == "lds" && g.p100(50) {
		out = append(out, reserved)
	}
	sort.Strings(out)
	return out
}

func (g *gen) lookup() Op {
	r := g.r
	o := Op{K: "get"}
	ws := map[string][]int{ // lds rds cds eds nds bad
		"C05": {25, 25, 20, 20, 3, 7}, "C14": {90, 4, 3, 3, 0, 0},
	}[g.prop]
	if ws == nil {
		ws = []int{30, 25, 22, 22, 1, 0}
	}
	switch i := weighted(r, ws...); i {
	case 4:
		o.T, o.N = "nds", "x"
		if !g.ndsMode {
			o.T, o.N = "eds", g.names["eds"][0]
		}
	case 5:
		o.T, o.V, o.N = "bad", pick(r, 0, 7, -1, 99), "x"
	default:
		o.T = shortTypes[i]
		o.N = pick(r, g.names[o.T]...)
	}
	lim := map[string]int{"C06": 45, "C05": 40, "C07": 25}[g.prop]
	if lim == 0 {
		lim = 8
	}
	fetch := int64(g.p.Cfg.FetchMS) * 1e6
	if g.p100(lim) {
		switch r.Intn(5) {
		case 0, 1:
			o.Dl = g.gap(1000, fetch)
		case 2:
			o.Cn = g.gap(1000, fetch)
		case 3:
			o.Cn = -1
		case 4:
			o.Dl = g.gap(1, 2000000)
		}
	}
	return o
}

// change is one change of what the control plane serves, with the push that announces it.
func (g *gen) change(del bool) []Op {
	r := g.r
	var t string
	if g.prop == "C14" {
		t = "lds"
	} else {
		t = pick(r, shortTypes...)
	}
	if g.ndsMode && g.p100(map[string]int{"C14": 45}[g.prop]+12) {
		return []Op{g.tableOp(), {K: "push", T: "nds"}}
	}
	var ops []Op
	n := 1
	if g.p100(25) {
		n = 1 + r.Intn(3)
	}
	for i := 0; i < n; i++ {
		name := pick(r, g.cpNames[t]...)
		if t == "lds" && g.p100(20) {
			name = reserved
		}
		if del {
			ops = append(ops, Op{K: "del", T: t, N: name})
		} else {
			ops = append(ops, g.set(t, name))
		}
	}
	push := Op{K: "push", T: t}
	if g.p100(25) {
		push.Names = g.someNames(t)
		if g.p100(60) && !del {
			for _, o := range ops {
				push.Names = append(push.Names, o.N)
			}
		}
	}
	ops = append(ops, push)
	if g.p100(10) {
		ops = append(ops, push) // duplicated response
	}
	return ops
}

// seqOps: one thing at a time, results predicted exactly.
func (g *gen) seqOps() {
	r, p := g.r, g.p
	n := 8 + r.Intn(24)
	lo, hi := int64(1e6), pick(r, int64(200e6), 1e9, 2e9)
	if g.prop == "C19" || g.p100(6) {
		g.long = true
		n = 15 + r.Intn(45)
		lo, hi = 1e9, pick(r, int64(5e9), 14e9, 29e9)
	}
	add := func(o Op) {
		if o.Gap == 0 {
			o.Gap = g.gap(lo, hi)
			if g.p100(25) {
				o.Gap = g.gap(1e6, 5e6)
			}
		}
		o.Gap += g.r.Int63n(1e6)
		p.Ops = append(p.Ops, o)
	}
	w := map[string][]int{
		// get change del bad fault probe dump quiet settle special
		"C01": {30, 24, 10, 4, 4, 7, 5, 2, 4, 0},
		"C02": {16, 14, 4, 8, 4, 2, 1, 2, 2, 40},
		"C03": {38, 10, 4, 5, 10, 2, 1, 4, 4, 4},
		"C04": {18, 18, 6, 5, 32, 6, 1, 2, 4, 4},
		"C05": {40, 18, 10, 6, 6, 3, 1, 5, 2, 0},
		"C06": {40, 20, 6, 2, 3, 2, 0, 5, 2, 15},
		"C07": {30, 24, 10, 4, 6, 7, 5, 2, 4, 0},
		"C14": {40, 30, 8, 3, 3, 6, 1, 1, 2, 0},
		"C19": {46, 12, 5, 1, 3, 2, 25, 2, 0, 0},
	}[g.prop]
	for len(p.Ops) < n {
		switch weighted(r, w...) {
		case 0:
			add(g.lookup())
		case 1:
			for _, o := range g.change(false) {
				add(o)
			}
		case 2:
			for _, o := range g.change(true) {
				add(o)
			}
		case 3:
			add(g.badPush())
		case 4:
			add(g.fault())
		case 5:
			add(Op{K: "probe"})
		case 6:
			o := Op{K: "dump"}
			if g.p100(20) {
				o.X = "err"
			}
			add(o)
		case 7:
			add(Op{K: "quiet", C: r.Intn(2)})
		case 8:
			if g.prop == "C03" && g.p100(40) {
				add(Op{K: "settle", Gap: g.gap(20e9, 100e9)}) // long enough for a sweep
				if g.p100(70) {
					add(Op{K: "dump"})
				}
				g.long = true
			} else {
				add(Op{K: "settle"})
			}
		case 9:
			g.special(add)
		}
	}
	if g.prop == "C19" {
		add(Op{K: "dump", Gap: g.gap(1e9, 70e9)})
		if g.p100(50) {
			p.Cfg.Tail = g.gap(1e9, 100e9)
		}
	}
	if g.r.Intn(10000) < overflowRate[g.prop] {
		g.overflowOps()
	}
}

// special is the sequence most to the point of the property.
func (g *gen) special(add func(Op)) {
	r := g.r
	switch g.prop {
	case "C02":
		add(Op{K: "probe"})
		for i := 1 + r.Intn(2); i > 0; i-- {
			if g.p100(30) { // what the rejected response would have changed
				add(g.change(g.p100(50))[0])
			}
			add(g.badPush())
		}
		add(Op{K: "probe"})
	case "C06":
		if g.p.Cfg.FetchMS > 30000 {
			g.longWait(add)
			return
		}
		t := pick(r, shortTypes...)
		n := pick(r, g.names[t]...)
		if g.ndsMode && t == "lds" {
			t, n = "cds", g.names["cds"][0]
		}
		add(Op{K: "quiet", C: 1})
		add(Op{K: "del", T: t, N: n})
		add(Op{K: "push", T: t})
		fetch := int64(g.p.Cfg.FetchMS) * 1e6
		k := 2 + r.Intn(3)
		for i := 0; i < k; i++ {
			o := Op{K: "get", T: t, N: n, Gap: g.gap(1e6, fetch/int64(k+1))}
			switch r.Intn(4) {
			case 0:
				o.Dl = g.gap(1e6, fetch)
			case 1:
				o.Cn = g.gap(1e6, fetch)
			}
			add(o)
		}
		s := g.set(t, n)
		s.Gap = g.gap(1e6, fetch/2)
		add(s)
		add(Op{K: "push", T: t, Gap: 1e6})
		add(Op{K: "quiet", C: 0})
	case "C03":
		o := Op{K: "stall", D: g.gap(1e6, 3e9)}
		if g.p100(30) {
			o.V = int(g.gap(o.D/1000+1, o.D/5+2))
		}
		add(o)
		for i := r.Intn(4); i >= 0; i-- {
			o := g.lookup()
			o.Gap = g.gap(1e6, 100e6)
			add(o)
		}
		if g.p100(50) {
			o := g.fault()
			o.Gap = g.gap(1e6, 100e6)
			add(o)
		}
	case "C04":
		// lookups while there is no stream
		d := g.gap(1e9, 20e9)
		if g.p100(20) && !g.long {
			d = g.gap(13*60e9, 40*60e9) // longer than a client would keep trying by itself
			g.long = true
		}
		add(Op{K: "down", D: d, X: pick(r, "", "void")})
		if d > 60e9 {
			defer add(Op{K: "settle", Gap: g.gap(d/2, d+d/4)})
		}
		for i := r.Intn(4); i >= 0; i-- {
			o := g.lookup()
			o.Gap = g.gap(1e6, 900e6)
			add(o)
		}
	}
}

// longWait: lookups that wait, across sweeps, for a name that was there before.
func (g *gen) longWait(add func(Op)) {
	r := g.r
	t := pick(r, "lds", "cds", "cds", "eds", "rds")
	if g.ndsMode && t == "lds" {
		t = "cds"
	}
	n := pick(r, g.names[t]...)
	fetch := int64(g.p.Cfg.FetchMS) * 1e6
	add(g.set(t, n))
	add(Op{K: "push", T: t})
	add(Op{K: "get", T: t, N: n})
	add(Op{K: "quiet", C: 1})
	add(Op{K: "del", T: t, N: n, Gap: g.gap(1e9, 20e9)})
	add(Op{K: "push", T: t})
	for i := 1 + r.Intn(3); i > 0; i-- {
		o := Op{K: "get", T: t, N: n, Gap: g.gap(1e6, 20e9)}
		switch r.Intn(5) {
		case 0:
			o.Dl = g.gap(1e9, fetch)
		case 1:
			o.Cn = g.gap(1e9, fetch)
		}
		add(o)
	}
	s := g.set(t, n)
	s.Gap = g.gap(fetch/3, fetch)
	add(s)
	add(Op{K: "push", T: t, Gap: 1e6})
	add(Op{K: "quiet", C: 0})
	g.long = true
}

// concOps: several actors at the same instants.
func (g *gen) concOps() {
	r, p := g.r, g.p
	acts := 2 + r.Intn(3)
	gapOf := func() int64 {
		switch weighted(r, 50, 25, 15, 10) {
		case 0:
			return 0
		case 1:
			return g.gap(0, 2000)
		case 2:
			return g.gap(0, 2e6)
		}
		return g.gap(0, int64(p.Cfg.FetchMS)*2e6)
	}
	sweeps := g.prop == "C19" || (g.prop == "C07" && g.p100(25)) || (g.prop == "C03" && g.p100(25)) || (g.prop == "C01" && g.p100(20)) || g.p100(4)
	w := map[string][]int{
		// get change del bad fault dump reg quiet table
		"C01": {40, 30, 10, 3, 4, 3, 3, 2},
		"C02": {30, 20, 5, 30, 8, 1, 2, 1},
		"C03": {55, 14, 6, 5, 12, 1, 2, 2},
		"C04": {40, 18, 6, 4, 26, 1, 2, 1},
		"C05": {45, 20, 14, 4, 8, 2, 2, 3},
		"C06": {55, 24, 8, 2, 3, 1, 2, 3},
		"C07": {45, 22, 8, 3, 6, 6, 8, 1},
		"C14": {55, 35, 6, 2, 2, 0, 0, 0},
		"C19": {50, 30, 8, 1, 3, 4, 2, 1},
	}[g.prop]
	// few names, so that the actors meet
	focusT := pick(r, shortTypes...)
	if g.prop == "C14" {
		focusT = "lds"
	}
	focus := g.names[focusT][0]
	one := func(a int) []Op {
		switch weighted(r, w...) {
		case 0:
			o := g.lookup()
			if g.p100(60) && o.T != "bad" {
				o.T, o.N = focusT, focus
			}
			return []Op{o}
		case 1:
			if g.p100(50) && !(focusT == "lds" && g.ndsMode) {
				return []Op{g.set(focusT, focus), {K: "push", T: focusT}}
			}
			return g.change(false)
		case 2:
			if g.p100(50) && !(focusT == "lds" && g.ndsMode) && (focusT == "lds" || focusT == "cds") {
				return []Op{{K: "del", T: focusT, N: focus}, {K: "push", T: focusT}}
			}
			return g.change(true)
		case 3:
			return []Op{g.badPush()}
		case 4:
			return []Op{g.fault()}
		case 5:
			o := Op{K: "dump"}
			return []Op{o}
		case 6:
			o := Op{K: "reg", T: pick(r, shortTypes...)}
			if g.prop == "C07" && g.p100(30) {
				o.D = g.gap(1, 3e6)
			}
			if a == 0 {
				o.D = 0
			}
			return []Op{o}
		}
		return []Op{{K: "quiet", C: r.Intn(2)}}
	}
	per := 3 + r.Intn(8)
	for a := 1; a <= acts; a++ {
		k := 0
		for k < per {
			for _, o := range one(a) {
				o.A = a
				o.Gap = gapOf()
				p.Ops = append(p.Ops, o)
				k++
			}
		}
	}
	for k := r.Intn(6); k > 0; k-- {
		for _, o := range one(0) {
			o.Gap = gapOf()
			p.Ops = append(p.Ops, o)
		}
	}
	if sweeps {
		g.sweepOps(acts)
	}
	if (g.prop == "C04" || g.prop == "C05" || g.prop == "C07") && g.r.Intn(10000) < 60 {
		// more requests than the queue holds, while nothing is sent
		n := 1000 + r.Intn(200)
		if g.r.Intn(1000) < 985 {
			p.Pol.Queue, n = 64, 60+r.Intn(60)
		}
		p.Ops = append(p.Ops, pick(r, Op{K: "stall", D: int64(p.Cfg.FetchMS) * 30e6}, Op{K: "break", X: "auth"}, Op{K: "down", D: 5e9}),
			Op{K: "settle"}, Op{K: "burst", T: pick(r, "cds", "eds"), N: "b", C: n, Gap: 1000})
	}
	if g.r.Intn(10000) < overflowRate[g.prop] {
		g.overflowOps()
	}
}

// overflowRate is how many of ten thousand runs let the request queue overflow.
var overflowRate = map[string]int{"C02": 250, "C03": 250, "C04": 200, "C05": 30, "C06": 30}

// overflowOps: more requests than the queue holds while nothing is sent, with responses in between.
func (g *gen) overflowOps() {
	r, p := g.r, g.p
	p.Ops = append(p.Ops, Op{K: "settle"})
	t := pick(r, "cds", "eds")
	other := pick(r, "rds", "lds")
	for i, n := range []string{"b0", "b1", "b2"} {
		if i == 0 || g.p100(50) {
			p.Ops = append(p.Ops, Op{K: "set", T: t, N: n, V: r.Intn(8)})
		}
	}
	p.Ops = append(p.Ops, Op{K: "get", T: t, N: "b0"}, Op{K: "settle"})
	st := Op{K: "stall", D: pick(r, g.gap(1e3, 4e6), g.gap(1e6, 20e9))}
	if g.p100(50) {
		st.V = int(g.gap(st.D/2000+1, st.D/50+2))
	}
	p.Ops = append(p.Ops, st)
	left, most := 1030+r.Intn(400), 700
	if g.r.Intn(1000) < 995 {
		p.Pol.Queue, left, most = 64, 70+r.Intn(50), 60
		if g.p100(70) {
			p.Pol.Queue, left, most = 16, 18+r.Intn(30), 1+r.Intn(14)
		}
	}
	for i := 0; left > 0; i++ {
		n := 1 + r.Intn(most)
		left -= n
		p.Ops = append(p.Ops, Op{K: "burst", T: t, N: pick(r, "b", "b", fmt.Sprintf("c%d-", i)), C: n, Gap: g.gap(0, 2000)})
		for g.p100(60) {
			brk := 10
			if g.prop == "C04" {
				brk = 60
			}
			switch weighted(r, 40, 40, 10, brk) {
			case 0:
				p.Ops = append(p.Ops, Op{K: "push", T: t, X: pick(r, invalidKinds...), C: r.Intn(7), Gap: g.gap(0, 1e6)})
			case 1:
				p.Ops = append(p.Ops, g.set(t, "b1"), Op{K: "push", T: t, Gap: g.gap(0, 1e6)})
			case 2:
				p.Ops = append(p.Ops, Op{K: "get", T: other, N: g.names[other][0]})
			case 3:
				p.Ops = append(p.Ops, Op{K: "break", Gap: g.gap(0, 1e6)})
			}
		}
	}
}

// sweepOps puts activity at the instants of the cleaner's sweeps.
func (g *gen) sweepOps(acts int) {
	r, p := g.r, g.p
	last := 2 + r.Intn(4)
	t := pick(r, shortTypes...)
	if g.p100(60) {
		t = "rds"
	}
	n := g.names[t][0]
	ts := []int64{}
	for i := 1; i <= last; i++ {
		ts = append(ts, int64(i)*30e9)
		if g.p100(50) {
			ts = append(ts, int64(i)*30e9-g.gap(0, 29e9))
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	first := make([]int64, acts+1)
	for _, at := range ts {
		for a := 0; a <= acts; a++ {
			if !g.p100(55) || at == first[a] {
				continue
			}
			first[a] = at
			p.Ops = append(p.Ops, Op{K: "until", A: a, D: at})
			switch weighted(r, 45, 30, 10, 8, 7) {
			case 0:
				o := g.lookup()
				if g.p100(80) {
					o.T, o.N = t, n
				}
				o.A = a
				p.Ops = append(p.Ops, o)
			case 1:
				s := g.set(t, pick(r, g.cpNames[t]...))
				if !(t == "lds" && g.ndsMode) && g.p100(60) {
					s.N = n
				}
				s.A = a
				p.Ops = append(p.Ops, s, Op{K: "push", T: t, A: a})
			case 2:
				p.Ops = append(p.Ops, Op{K: "dump", A: a})
			case 3:
				f := g.fault()
				f.A = a
				p.Ops = append(p.Ops, f)
			case 4:
				p.Ops = append(p.Ops, Op{K: "reg", T: t, A: a})
			}
		}
	}
}

var _ = det.Policy{}
