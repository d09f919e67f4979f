//go:build go1.21

package world

import (
	"encoding/json"
	"fmt"
	"strings"
)

// sgen makes the plans of the suite world.
type sgen struct {
	gen
	svcs   []string // names of services
	lis    []string // listeners of the control plane
	tabs   []string
	clus   []string
	eds    []string
	suites int
	max    int // plain calls or updates
	rich   bool
}

var suiteConcurrent = map[string]int{"C08": 15, "C09": 5, "C10": 35, "C11": 5, "C12": 5, "C13": 20, "C15": 40, "C16": 45, "C17": 45, "C18": 45}

func raw(v any) json.RawMessage {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// GenSuite makes plan idx of a search of the suite world for a property.
func GenSuite(prop string, seed, idx int64) *Plan {
	r := planRand(prop, seed, idx)
	g := &sgen{gen: gen{r: r, prop: prop, p: &Plan{World: "suite", Prop: prop, Seed: r.Int63(), Env: r.Int63()}}}
	c := &g.p.Cfg
	c.Conc = g.p100(suiteConcurrent[prop])
	g.rough = c.Conc
	g.config()
	c.Handlers, c.Tail, c.NoFinal = 0, 0, g.p100(50)
	c.NDSOff = g.p100(75)
	c.LDSOff = g.p100(25) && prop != "C18"
	g.ndsMode = !c.NDSOff
	c.Strict = g.p100(20)
	for _, t := range sortedKeys(c.Auto) {
		m := c.Auto[t]
		if m == "none" && !(prop == "C15" && g.p100(30)) {
			c.Auto[t] = "subs"
		}
	}
	g.ns, g.dom = namespaceOf(c), c.Domain
	if g.dom == "" {
		g.dom = "cluster.local"
	}
	g.universe2()
	g.policy(c.Conc)
	g.start()
	switch {
	case prop == "C16" || prop == "C17" || prop == "C18":
		g.policyOps()
	case prop == "C13":
		g.hostile()
	default:
		g.callOps()
	}
	return g.p
}

func (g *sgen) universe2() {
	n := 2 + g.r.Intn(2)
	for i := 0; i < n; i++ {
		if g.ndsMode {
			g.svcs = append(g.svcs, fmt.Sprintf("svc%d:%d", i, []int{80, 8080}[i%2]))
			g.lis = append(g.lis, fmt.Sprintf("10.0.0.%d_%d", i+1, []int{80, 8080}[i%2]))
		} else {
			s := pick(g.r, fmt.Sprintf("svc%d:8080", i), fmt.Sprintf("svc%d", i), fmt.Sprintf("svc%d.prod.svc.cluster.local:80", i))
			g.svcs = append(g.svcs, s)
			g.lis = append(g.lis, s)
		}
	}
	for i := 0; i < 3; i++ {
		g.tabs = append(g.tabs, fmt.Sprintf("rt%d", i))
	}
	k := 4
	if g.prop == "C16" {
		k = 5
	}
	for i := 0; i < k; i++ {
		g.clus = append(g.clus, fmt.Sprintf("outbound|80||c%d", i))
	}
	g.eds = append(append([]string{}, g.clus...), "e0", "e1")
}

func (g *sgen) add(o Op) { g.p.Ops = append(g.p.Ops, o) }

func (g *sgen) start() {
	b := func(o Op) { g.p.Boot = append(g.p.Boot, o) }
	if g.ndsMode {
		b(g.table2())
	}
	prob := pick(g.r, 60, 90, 100)
	for i, l := range g.lis {
		if i == 0 || g.p100(prob) {
			b(g.putLis(l))
		}
	}
	for _, t := range g.tabs {
		if g.p100(prob) {
			b(g.putTab(t))
		}
	}
	for _, c := range g.clus {
		if g.p100(prob) {
			b(g.putClu(c))
		}
	}
	for _, e := range g.eds {
		if g.p100(prob) {
			b(g.putEds(e))
		}
	}
	if g.p100(70) {
		b(g.putIn())
	}
}

func (g *sgen) table2() Op {
	o := Op{K: "table", Table: map[string][]string{}}
	for i := range g.svcs {
		if g.p100(92) {
			ips := []string{fmt.Sprintf("10.0.0.%d", i+1)}
			if g.p100(25) {
				ips = append(ips, fmt.Sprintf("10.0.1.%d", g.r.Intn(9)))
			}
			if g.p100(7) {
				ips[0] = fmt.Sprintf("10.0.0.%d", 1+g.r.Intn(3))
			}
			o.Table[fmt.Sprintf("svc%d.%s.svc.%s", i, strings.ToLower(g.ns), strings.ToLower(g.dom))] = ips
		}
	}
	if g.prop == "C12" {
		for i := 0; i < g.r.Intn(5); i++ {
			var ips []string
			for j := 0; j < g.r.Intn(5); j++ {
				ips = append(ips, pick(g.r, "10.1.1.1", "10.1.1.2", "fd00::1", "10.0.0.9", "240.240.0.1"))
			}
			o.Table[fmt.Sprintf("host%d.example.com", i)] = ips
		}
	}
	return o
}

// ---- resources ----

var (
	pkgs    = []string{"", "pkg", "a.b"}
	isvcs   = []string{"Svc", "Svc2"}
	methods = []string{"Echo", "Get", "echo"}
	hkeys   = []string{"k0", "k1", "uid"}
	hvals   = []string{"v12", "cc", "xay", "abc", "q", "pRod", "v1x", "a", "ab", "value", "V12", "12"}
)

func (g *sgen) path() string {
	s := pick(g.r, isvcs...)
	if p := pick(g.r, pkgs...); p != "" {
		s = p + "." + s
	}
	return "/" + s + "/" + pick(g.r, methods...)
}

func (g *sgen) header() HdrSpec {
	h := HdrSpec{N: pick(g.r, hkeys...)}
	switch weighted(g.r, 45, 25, 30) {
	case 0:
		h.K, h.V = "exact", pick(g.r, hvals...)
		if g.p100(6) {
			h.V = ""
		}
	case 1:
		h.K, h.V = "prefix", pick(g.r, "v", "a", "x", "val", "v12", "c", "p")
		if g.p100(6) {
			h.V = ""
		}
	case 2:
		h.K, h.V = "regex", regexes[g.r.Intn(len(regexes))][0]
	}
	return h
}

func (g *sgen) headers() []HdrSpec {
	var out []HdrSpec
	seen := map[string]bool{}
	n := weighted(g.r, 45, 30, 18, 7)
	for i := 0; i < n; i++ {
		h := g.header()
		if seen[h.N] && g.p100(60) {
			continue
		}
		seen[h.N] = true
		out = append(out, h)
	}
	return out
}

func p64(v int64) *int64    { return &v }
func p32(v uint32) *uint32  { return &v }
func ms(n int64) *int64     { return p64(n * 1e6) }
func (g *sgen) clu() string { return pick(g.r, g.clus...) }

func (g *sgen) dests(r *RouteSpec) {
	switch weighted(g.r, 42, 42, 4, 4, 4, 4) {
	case 0:
		r.Act, r.Cl = "cluster", []WCSpec{{N: g.clu()}}
	case 1:
		r.Act = "weighted"
		n := 1 + weighted(g.r, 10, 45, 30, 15)
		if g.p100(4) {
			n = 0
		}
		zero := g.p100(6)
		for i := 0; i < n; i++ {
			w := uint32(pick(g.r, 0, 0, 1, 1, 2, 3, 5, 10, 20, 50, 70, 90, 100))
			if (g.prop == "C09" || g.prop == "C11" || g.prop == "C08") && g.p100(10) {
				w = uint32(pick(g.r, 1000, 99999, 1000000, 500000000, 1000000000))
			}
			if zero {
				w = 0
			}
			if n == 1 && w == 0 {
				w = 7
			}
			x := WCSpec{N: g.clus[(g.r.Intn(2)+i)%len(g.clus)], W: w}
			if w == 0 && g.p100(30) {
				x.NoW = true
			}
			r.Cl = append(r.Cl, x)
		}
	case 2:
		r.Act = "clheader"
	case 3:
		r.Act = "redirect"
	case 4:
		r.Act = "direct"
	case 5:
		r.Act = "nonfwd"
	}
}

func (g *sgen) route() RouteSpec {
	r := RouteSpec{}
	if g.p100(30) {
		r.Name = pick(g.r, "default", "r1", "r2")
	}
	switch weighted(g.r, 52, 34, 8, 6) {
	case 0:
		r.PK, r.P = "path", g.path()
		if g.p100(20) {
			r.P = pick(g.r, r.P+"x", r.P[1:], strings.ToUpper(r.P), strings.TrimSuffix(r.P, "o"), r.P+"/", "/Svc", "/Echo", "/pkg/Svc/Echo")
		}
	case 1:
		r.PK, r.P = "prefix", "/"
	case 2:
		r.PK, r.P = "prefix", pick(g.r, "/zzz", "/none.Svc/", "x", "")
		if g.prop == "C08" && g.p100(60) { // a prefix of the path, but not the catch-all one
			p := g.path()
			r.P = p[:2+g.r.Intn(len(p)-1)]
		}
	case 3:
		r.PK, r.P = "regex", "^/zzz.*$"
	}
	r.Headers = g.headers()
	g.dests(&r)
	if r.Act == "cluster" || r.Act == "weighted" {
		if g.p100(60) {
			r.TO = p64(pick(g.r, int64(0), 1e6, 5e8, 1e9, 3e9, 1500e6, 999999))
		}
		if g.prop == "C17" && g.p100(80) || g.p100(30) {
			r.Retry = g.retry()
		}
	}
	return r
}

func (g *sgen) retry() *RetrySpec {
	t := &RetrySpec{Num: uint32(g.r.Intn(6)), On: pick(g.r, "", "5xx", "5xx,reset")}
	if g.p100(75) {
		t.Per = ms(pick(g.r, int64(1), 10, 100, 250, 1000, 3000))
	}
	if g.p100(25) {
		t.PerIdle = ms(pick(g.r, int64(5), 700))
	}
	if g.p100(50) {
		t.Rate = pick(g.r, "0.1", "0.05", "0.3", "0.25", "0.01", "1e-2")
		if g.prop != "C17" && g.p100(25) { // Kitex refuses a ceiling above 0.3 there
			t.Rate = pick(g.r, "1", "0.999", "0.31", "2.5")
		}
	}
	if g.p100(45) {
		t.Methods = pick(g.r, "Echo", "Echo,Get", "Get,echo,Echo")
	}
	t.Noise = g.p100(25)
	t.Blank = g.p100(8)
	if g.p100(55) {
		base := pick(g.r, int64(1), 10, 25, 100)
		t.BO = &BackSpec{Base: base * 1e6}
		if g.p100(65) {
			t.BO.Max = ms(pick(g.r, base, base*2, base*10, base+1))
			if g.p100(8) && base > 1 {
				t.BO.Max = ms(base - 1)
			}
		}
	}
	return t
}

func (g *sgen) rc(name string) *RCSpec {
	rc := &RCSpec{Name: name}
	nv := weighted(g.r, 5, 50, 30, 15)
	for i := 0; i < nv; i++ {
		vh := VHSpec{Name: fmt.Sprintf("vh%d", i), Domains: []string{pick(g.r, "*", "svc0", "other.example.com")}}
		nr := weighted(g.r, 6, 30, 30, 20, 14)
		for j := 0; j < nr; j++ {
			vh.Routes = append(vh.Routes, g.route())
		}
		rc.VHs = append(rc.VHs, vh)
	}
	return rc
}

func (g *sgen) thriftRoute() RouteSpec {
	r := RouteSpec{PK: "method", P: pick(g.r, "Echo", "Get", "echo", "None", ""), Headers: g.headers()}
	if g.prop == "C11" && g.p100(12) {
		r.PK, r.P = "service", pick(g.r, "echo.Echo", "Echo", "svc0", "")
	}
	for {
		r.Act, r.Cl = "", nil
		g.dests(&r)
		if r.Act == "cluster" || r.Act == "weighted" || r.Act == "clheader" {
			break
		}
	}
	return r
}

func (g *sgen) hfs() []HFSpec {
	var out []HFSpec
	if g.p100(30) {
		out = append(out, HFSpec{K: pick(g.r, "nocfg", "tsother", "disc")})
	}
	if g.p100(45) {
		out = append(out, HFSpec{K: pick(g.r, "rl", "ts"), Max: uint32(pick(g.r, g.r.Intn(2000), 4294967295)), Fill: uint32(pick(g.r, g.r.Intn(1000), g.r.Intn(1000), 4294967295, 2147483648))})
	}
	if g.p100(20) {
		out = append(out, HFSpec{K: pick(g.r, "nocfg", "tsother")})
	}
	if g.p100(60) {
		out = append(out, HFSpec{K: "router"})
	}
	if g.p100(15) {
		g.r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	}
	return out
}

func (g *sgen) httpFilt() FiltSpec {
	f := FiltSpec{K: "http"}
	if g.p100(30) {
		f.Inline = g.rc(pick(g.r, "inl", "inl2"))
	} else {
		f.Rds = pick(g.r, g.tabs...)
		if g.p100(5) {
			f.Rds = "ghost-table"
		}
	}
	if g.prop == "C11" || g.prop == "C12" {
		f.HF = g.hfs()
	}
	return f
}

func (g *sgen) thriftFilt() FiltSpec {
	f := FiltSpec{K: "thrift"}
	n := weighted(g.r, 5, 40, 35, 20)
	for i := 0; i < n; i++ {
		f.TR = append(f.TR, g.thriftRoute())
	}
	return f
}

func (g *sgen) filler() []FiltSpec {
	if g.p100(75) {
		return nil
	}
	return []FiltSpec{{K: pick(g.r, "other", "none", "disc")}}
}

// listener is an outbound one, with at most one filter of either kind.
func (g *sgen) listener() *LisSpec {
	l := &LisSpec{}
	http, thrift := g.p100(90), g.p100(35)
	if g.prop == "C11" {
		for n := g.r.Intn(4); n >= 0; n-- {
			c := ChainSpec{Port: uint32(pick(g.r, 0, 80, 8080, 9090+n)), Match: g.p100(30)}
			for m := g.r.Intn(3); m > 0; m-- {
				switch g.r.Intn(4) {
				case 0:
					c.Filters = append(c.Filters, g.thriftFilt())
				case 1, 2:
					c.Filters = append(c.Filters, g.httpFilt())
				default:
					c.Filters = append(c.Filters, g.filler()...)
				}
			}
			l.Chains = append(l.Chains, c)
		}
		if g.p100(30) {
			l.Def, l.Chains = &l.Chains[len(l.Chains)-1], l.Chains[:len(l.Chains)-1]
		}
		return l
	}
	var fs []FiltSpec
	if http {
		fs = append(fs, g.httpFilt())
	}
	if thrift {
		fs = append(fs, g.thriftFilt())
	}
	if len(fs) == 2 && g.p100(50) {
		fs[0], fs[1] = fs[1], fs[0]
	}
	for _, f := range fs {
		if len(l.Chains) > 0 && g.p100(40) {
			c := &l.Chains[len(l.Chains)-1]
			c.Filters = append(c.Filters, f)
			continue
		}
		l.Chains = append(l.Chains, ChainSpec{Filters: append(g.filler(), f)})
	}
	if n := len(l.Chains); n > 0 && g.p100(25) {
		l.Def, l.Chains = &l.Chains[n-1], l.Chains[:n-1]
	}
	return l
}

// inbound is a virtualInbound listener.
func (g *sgen) inbound() *LisSpec {
	l := &LisSpec{}
	ports := []uint32{0, 8080, 9090, 7070}
	g.r.Shuffle(len(ports), func(i, j int) { ports[i], ports[j] = ports[j], ports[i] })
	n := g.r.Intn(4)
	for _, p := range ports[:n] {
		f := FiltSpec{K: "http", Rds: "inbound"}
		if g.p100(50) {
			f.Rds, f.Inline = "", &RCSpec{Name: "inl", VHs: []VHSpec{{Name: "v", Routes: []RouteSpec{{PK: "prefix", P: "/", Act: "cluster", Cl: []WCSpec{{N: "in"}}}}}}}
		}
		if g.p100(75) {
			f.HF = append(f.HF, HFSpec{K: pick(g.r, "rl", "ts"), Max: uint32(g.r.Intn(500)), Fill: uint32(pick(g.r, 0, 1, 10, 100, 250, 9999, 3000000000, 2147483647))})
		}
		if g.p100(40) {
			f.HF = append(f.HF, HFSpec{K: "router"})
		}
		if g.p100(25) {
			f.HF = append([]HFSpec{{K: pick(g.r, "nocfg", "tsother")}}, f.HF...)
		}
		c := ChainSpec{Port: p, Match: g.p100(40), Filters: append(g.filler(), f)}
		if p == 0 && g.p100(40) {
			l.Def = &c
		} else {
			l.Chains = append(l.Chains, c)
		}
	}
	return l
}

func (g *sgen) cluster(name string) *CluSpec {
	c := &CluSpec{Type: pick(g.r, "eds", "eds", "eds", "static", "dns"), Lb: pick(g.r, "rr", "rr", "hash")}
	if g.p100(75) {
		c.EDS = true
		if g.p100(50) {
			c.Svc = pick(g.r, "e0", "e1", name, pick(g.r, g.clus...))
		}
	}
	if g.prop == "C16" && g.p100(75) || g.p100(30) {
		o := &ODSpec{Etc: g.p100(40)}
		if g.p100(85) {
			o.Thr = p32(uint32(pick(g.r, 0, 1, 10, 33, 50, 85, 100)))
		}
		if g.p100(85) {
			o.Vol = p32(uint32(pick(g.r, 0, 1, 5, 20, 100, 1000)))
		}
		c.OD = o
	}
	if g.p100(25) {
		c.Inline = g.locs()
		n := 0
		for _, l := range c.Inline {
			n += len(l.Eps)
		}
		if n == 0 {
			c.Inline = []LocSpec{{Eps: []EpSpec{g.ep()}}}
		}
	}
	return c
}

func (g *sgen) ep() EpSpec {
	e := EpSpec{A: pick(g.r, "10.0.0.1", "10.0.0.2", "10.3.2.1", "192.168.1.7", "fd00::1"), P: uint32(pick(g.r, 80, 8080, 65535, 1, 15001))}
	if g.p100(75) {
		e.W = p32(uint32(pick(g.r, 1, 2, 10, 100, 128, 0, 1000, 65537, 2147483648, 4294967295)))
	}
	if g.p100(12) { // healthy, unhealthy, draining, timeout, degraded
		e.H = int32(1 + g.r.Intn(5))
	}
	e.X = g.p100(5)
	return e
}

func (g *sgen) locs() []LocSpec {
	var ls []LocSpec
	n := weighted(g.r, 8, 43, 28, 12, 6, 3)
	for i := 0; i < n; i++ {
		l := LocSpec{Pri: uint32(pick(g.r, 0, 0, 1, 2)), Z: pick(g.r, "z", "z", "", "z2")}
		if g.p100(15) {
			l.W = p32(uint32(pick(g.r, 0, 1, 100)))
		}
		for m := weighted(g.r, 10, 35, 28, 18, 5, 0, 0, 2, 0, 2); m > 0; m-- {
			l.Eps = append(l.Eps, g.ep())
		}
		ls = append(ls, l)
	}
	return ls
}

func (g *sgen) putLis(n string) Op { return Op{K: "put", T: "lds", N: n, Raw: raw(g.listener())} }
func (g *sgen) putTab(n string) Op { return Op{K: "put", T: "rds", N: n, Raw: raw(g.rc(n))} }
func (g *sgen) putClu(n string) Op { return Op{K: "put", T: "cds", N: n, Raw: raw(g.cluster(n))} }
func (g *sgen) putEds(n string) Op {
	return Op{K: "put", T: "eds", N: n, Raw: raw(&EdsSpec{Locs: g.locs()})}
}
func (g *sgen) putIn() Op { return Op{K: "put", T: "lds", N: reserved, Raw: raw(g.inbound())} }

// ---- operations ----

func (g *sgen) callSpec() CallSpec {
	c := CallSpec{
		Svc: pick(g.r, g.svcs...), Pkg: pick(g.r, pkgs...), ISvc: pick(g.r, isvcs...), Method: pick(g.r, methods...),
		Grpc: g.p100(45), V: g.r.Intn(4), TO: pick(g.r, int64(0), 0, 200, 5000),
	}
	if !c.Grpc {
		c.Tp = g.r.Intn(len(transports))
	}
	if g.p100(4) {
		c.Svc = "ghost:1"
	}
	for _, k := range hkeys {
		if !g.p100(60) {
			continue
		}
		v := pick(g.r, hvals...)
		if g.p100(12) {
			if c.Up == nil {
				c.Up = map[string]string{}
			}
			c.Up[k] = v
			continue
		}
		if c.MD == nil {
			c.MD = map[string]string{}
		}
		c.MD[k] = v
	}
	return c
}

func (g *sgen) suite() {
	g.add(Op{K: "suite", V: g.r.Intn(4), Gap: g.sgap()})
	g.suites++
}

// sgap is a wait between steps.
func (g *sgen) sgap() int64 {
	if g.p.Cfg.Conc {
		return pick(g.r, int64(0), 0, 0, int64(g.r.Intn(2000)), int64(g.r.Intn(3e6)))
	}
	return pick(g.r, int64(1000), g.gap(1000, 2e6), g.gap(1e6, 1e9))
}

// change alters the control plane and (mostly) has it say so.
func (g *sgen) change2() []Op {
	var out []Op
	kind := pick(g.r, "lds", "rds", "rds", "cds", "eds")
	if g.ndsMode && g.p100(10) {
		kind = "nds"
	}
	switch g.prop {
	case "C09", "C08":
		kind = pick(g.r, "lds", "rds", "rds")
	case "C10":
		kind = pick(g.r, "cds", "eds")
	case "C16":
		kind = "cds"
	case "C17":
		kind = pick(g.r, "rds", "rds", "rds", "lds")
	case "C18":
		kind = "lds"
	}
	var names []string
	n := 1 + g.r.Intn(2)
	if kind == "cds" && g.prop == "C16" {
		n = 1 + g.r.Intn(4)
	}
	for i := 0; i < n; i++ {
		o := Op{T: kind}
		switch kind {
		case "nds":
			o = g.table2()
		case "lds":
			o = g.putLis(pick(g.r, g.lis...))
			if g.prop == "C18" || g.p100(10) {
				o = g.putIn()
			}
		case "rds":
			o = g.putTab(pick(g.r, g.tabs...))
		case "cds":
			o = g.putClu(g.clu())
		case "eds":
			o = g.putEds(pick(g.r, g.eds...))
		}
		if kind != "nds" && g.p100(18) {
			o.K, o.Raw = "del", nil
		}
		o.T = kind
		if kind == "nds" {
			o.T = ""
		} else {
			names = append(names, o.N)
		}
		out = append(out, o)
	}
	out[0].Gap = g.sgap()
	if g.p100(88) {
		p := Op{K: "push", T: kind, Gap: pick(g.r, int64(0), 0, g.sgap())}
		if (kind == "rds" || kind == "eds") && g.p100(60) {
			p.Names = names
		} else if kind == "cds" && g.p100(12) {
			p.Names = names
		}
		out = append(out, p)
	}
	return out
}

func (g *sgen) badPush2() Op {
	t := pick(g.r, "lds", "rds", "cds", "eds")
	switch g.prop {
	case "C16":
		t = "cds"
	case "C17":
		t = "rds"
	case "C18":
		t = "lds"
	}
	return Op{K: "push", T: t, X: pick(g.r, "bytes", "url", "urlname", "trunc", "nomatch", "noaction", "nested"), C: g.r.Intn(5), Gap: g.sgap()}
}

func (g *sgen) trouble() Op {
	switch weighted(g.r, 55, 25, 20) {
	case 0:
		o := Op{K: "break", X: pick(g.r, "", "", "send", "void"), V: g.r.Intn(3), Gap: g.sgap()}
		if g.p100(25) {
			o.C = 1 + g.r.Intn(2)
		}
		return o
	case 1:
		return Op{K: "down", D: g.gap(1e6, 2e9), X: pick(g.r, "", "void"), Gap: g.sgap()}
	}
	return Op{K: "stall", D: g.gap(1e6, 2e9), Gap: g.sgap()}
}

// one is one call of the mix of the property.
func (g *sgen) one() Op {
	c := g.callSpec()
	o := Op{Gap: g.sgap()}
	if g.p100(20) {
		o.C = 1
	}
	switch g.prop {
	case "C08":
		o.K = pick(g.r, "route", "route", "mw")
	case "C09":
		o.K = pick(g.r, "dist", "dist", "route", "mw")
		c.N = pick(g.r, 120, 150, 300)
		if o.K == "dist" && g.p100(20) {
			c.N = 40
		}
	case "C10":
		o.K = pick(g.r, "resolve", "resolve", "resolve", "call")
		c.Desc = g.clu()
		if g.p100(5) {
			c.Desc = pick(g.r, "ghost", "")
		}
		if o.K == "call" && g.p100(60) {
			c.Pre, c.PreLock = g.clu(), true
		}
	case "C11":
		t := pick(g.r, "lds", "rds")
		o.T, o.K = t, pick(g.r, "fetch", "decode")
		if o.N = pick(g.r, g.tabs...); t == "lds" {
			o.N = pick(g.r, append([]string{reserved}, g.svcs...)...)
		}
		o.V = g.r.Intn(2)
		if o.K == "decode" {
			return o
		}
	case "C12":
		t := pick(g.r, "cds", "eds", "cds", "eds", "nds")
		o.T, o.K = t, pick(g.r, "fetch", "decode")
		if t == "nds" {
			o.K = "decode"
		}
		o.N = pick(g.r, g.eds...)
		if t == "cds" {
			o.N = g.clu()
		}
		o.V = g.r.Intn(2)
		if o.K == "decode" {
			return o
		}
	default: // C15
		o.K = []string{"mw", "call", "key", "resolve"}[weighted(g.r, 50, 25, 15, 10)]
		c.Desc = g.clu()
		if g.p100(22) && o.K != "resolve" {
			c.Pre, c.PreLock = pick(g.r, g.clu(), "elsewhere"), g.p100(70)
		}
		if g.p100(12) {
			o.Dl = g.gap(1e6, 3e8)
		} else if g.p100(12) {
			o.Cn = pick(g.r, -1, g.gap(1e5, 3e8))
		}
	}
	if o.K != "fetch" {
		o.Raw = raw(&c)
	}
	return o
}

func (g *sgen) callOps() {
	ns := 1 + g.r.Intn(2)
	for i := 0; i < ns; i++ {
		g.suite()
	}
	n := 4 + g.r.Intn(12)
	if g.prop == "C09" {
		n = 3 + g.r.Intn(6)
	}
	if g.p.Cfg.Conc {
		g.concCalls(n)
		return
	}
	for i := 0; i < n; i++ {
		switch weighted(g.r, 70, 20, 4, 4, 2) {
		case 0:
			g.add(g.one())
		case 1:
			for _, o := range g.change2() {
				g.add(o)
			}
		case 2:
			if g.prop == "C15" || g.prop == "C10" {
				g.add(g.trouble())
			}
		case 3:
			g.add(g.badPush2())
		case 4:
			if g.p100(40) {
				g.add(Op{K: "settle", Gap: g.gap(20e9, 70e9)})
			} else {
				g.suite()
			}
		}
		if g.p100(30) {
			g.add(Op{K: "settle"})
		}
	}
}

func (g *sgen) concCalls(n int) {
	acts := 2 + g.r.Intn(3)
	for i := 0; i < n; i++ {
		o := g.one()
		if o.K == "dist" {
			o.K = "route"
		}
		o.A = 1 + g.r.Intn(acts)
		g.add(o)
		if g.p100(35) {
			for _, x := range g.change2() {
				x.A = acts + 1
				g.add(x)
			}
		}
		if g.p100(6) && (g.prop == "C15" || g.prop == "C10") {
			x := g.trouble()
			x.A = acts + 1
			g.add(x)
		}
	}
}

// policyOps: updates, breakers, retry policies and limiters created before, between and during
// them, and looks at the policies when nothing is going on.
func (g *sgen) policyOps() {
	sub := func(a int) Op { // subscribe to something
		o := Op{K: "fetch", A: a, Gap: g.sgap()}
		switch g.prop {
		case "C16":
			o.T, o.N = "cds", g.clu()
		case "C17":
			o.T, o.N = "rds", pick(g.r, g.tabs...)
		case "C18":
			o.T, o.N = "lds", pick(g.r, append([]string{reserved}, g.svcs...)...)
		}
		if g.p100(12) && g.prop != "C18" {
			o.K, o.T, o.N = "mw", "", ""
			c := g.callSpec()
			o.Raw = raw(&c)
		}
		return o
	}
	born := func(a int) Op {
		if g.prop == "C18" {
			return Op{K: "server", A: a, V: pick(g.r, 0, 8080, 9090), Gap: g.sgap()}
		}
		return Op{K: "suite", A: a, V: g.r.Intn(4), Gap: g.sgap()}
	}
	conc := g.p.Cfg.Conc
	if g.p100(65) {
		g.add(born(0))
	}
	rounds := 2 + g.r.Intn(5)
	for i := 0; i < rounds; i++ {
		steps := 1 + g.r.Intn(5)
		for j := 0; j < steps; j++ {
			a := 0
			switch weighted(g.r, 34, 42, 8, 6, 4, 6) {
			case 0:
				o := sub(a)
				if g.p100(40) {
					o.C = 1
				}
				g.add(o)
			case 1:
				for _, o := range g.change2() {
					g.add(o)
				}
			case 2:
				g.add(born(a))
			case 3:
				g.add(g.badPush2())
			case 4:
				g.add(g.trouble())
			case 5:
				if g.prop == "C18" {
					g.add(Op{K: "up", V: g.r.Intn(3), Gap: g.sgap()})
				}
			}
			if conc && len(g.p.Ops) > 0 {
				// creation and hand-over of the limiter run beside everything else
				if o := &g.p.Ops[len(g.p.Ops)-1]; (o.K == "suite" || o.K == "server" || o.K == "up") && g.p100(70) {
					o.X = "beside"
				}
			}
		}
		if g.p100(4) {
			g.add(Op{K: "settle", Gap: g.gap(20e9, 70e9)})
		}
		g.add(Op{K: "snap", Gap: pick(g.r, int64(0), g.sgap())})
	}
}
