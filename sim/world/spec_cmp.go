//go:build go1.21

package world

import (
	"fmt"
	"net"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/kitex-contrib/xds/core/xdsresource"
)

// The comparisons say how a decoded value differs from what its spec means ("": it does not).

func dif(f string, a ...any) string { return fmt.Sprintf(f, a...) }

func first(ds ...string) string {
	for _, d := range ds {
		if d != "" {
			return d
		}
	}
	return ""
}

// cmpSpec compares a decoded resource with its spec.
func cmpSpec(spec any, v any, name string) string {
	if isNilPtr(v) {
		return "nil value"
	}
	switch s := spec.(type) {
	case *LisSpec:
		l, ok := v.(*xdsresource.ListenerResource)
		if !ok {
			return dif("a %T", v)
		}
		return cmpListener(s, l)
	case *RCSpec:
		r, ok := v.(*xdsresource.RouteConfigResource)
		if !ok {
			return dif("a %T", v)
		}
		return cmpTable(s, r)
	case *CluSpec:
		c, ok := v.(*xdsresource.ClusterResource)
		if !ok {
			return dif("a %T", v)
		}
		return cmpCluster(s, c, name)
	case *EdsSpec:
		e, ok := v.(*xdsresource.EndpointsResource)
		if !ok {
			return dif("a %T", v)
		}
		return cmpLocs(s.Locs, e.Localities)
	}
	return ""
}

func cmpListener(s *LisSpec, l *xdsresource.ListenerResource) string {
	type want struct {
		f    *FiltSpec
		port uint32
		at   string
	}
	var ws []want
	add := func(c *ChainSpec, at string) {
		for i := range c.Filters {
			if f := &c.Filters[i]; f.K == "http" || f.K == "thrift" {
				ws = append(ws, want{f, c.Port, fmt.Sprintf("%s filter %d (%s)", at, i, f.K)})
			}
		}
	}
	for i := range s.Chains {
		add(&s.Chains[i], fmt.Sprintf("chain %d", i))
	}
	if s.Def != nil {
		add(s.Def, "default chain")
	}
	if len(ws) != len(l.NetworkFilters) {
		return dif("%d network filters, want %d", len(l.NetworkFilters), len(ws))
	}
	for i, w := range ws {
		if d := cmpFilter(w.f, w.port, l.NetworkFilters[i]); d != "" {
			return w.at + ": " + d
		}
	}
	return ""
}

func cmpFilter(f *FiltSpec, port uint32, nf *xdsresource.NetworkFilter) string {
	if nf == nil {
		return "nil filter"
	}
	if nf.RoutePort != port {
		return dif("destination port %d, want %d", nf.RoutePort, port)
	}
	if f.K == "thrift" {
		if nf.FilterType != xdsresource.NetworkFilterTypeThrift {
			return "not a Thrift filter"
		}
		if nf.InlineRouteConfig == nil || nf.InlineRouteConfig.ThriftRouteConfig == nil {
			if len(f.TR) == 0 {
				return ""
			}
			return "no Thrift routes"
		}
		return cmpRoutes(f.TR, nf.InlineRouteConfig.ThriftRouteConfig.Routes, true)
	}
	if nf.FilterType != xdsresource.NetworkFilterTypeHTTP {
		return "not an HTTP filter"
	}
	mx, fill := f.bucket()
	var gm, gf uint32
	if nf.InlineRouteConfig != nil {
		gm, gf = nf.InlineRouteConfig.MaxTokens, nf.InlineRouteConfig.TokensPerFill
	}
	if gm != mx || gf != fill {
		return dif("rate limit bucket max %d fill %d, want %d %d", gm, gf, mx, fill)
	}
	if f.Inline == nil {
		if nf.RouteConfigName != f.Rds {
			return dif("route table name %q, want %q", nf.RouteConfigName, f.Rds)
		}
		if nf.InlineRouteConfig != nil && nf.InlineRouteConfig.HTTPRouteConfig != nil {
			return "an inline route table that was not sent"
		}
		return ""
	}
	if nf.RouteConfigName != f.Inline.Name {
		return dif("inline route table name %q, want %q", nf.RouteConfigName, f.Inline.Name)
	}
	if nf.InlineRouteConfig == nil {
		return "no inline route table"
	}
	return cmpTable(f.Inline, nf.InlineRouteConfig)
}

func cmpTable(s *RCSpec, r *xdsresource.RouteConfigResource) string {
	if r.HTTPRouteConfig == nil {
		if len(s.VHs) == 0 {
			return ""
		}
		return "no HTTP routes"
	}
	vhs := r.HTTPRouteConfig.VirtualHosts
	if len(vhs) != len(s.VHs) {
		return dif("%d virtual hosts, want %d", len(vhs), len(s.VHs))
	}
	for i := range s.VHs {
		if vhs[i] == nil {
			return dif("virtual host %d is nil", i)
		}
		if vhs[i].Name != s.VHs[i].Name {
			return dif("virtual host %d is %q, want %q", i, vhs[i].Name, s.VHs[i].Name)
		}
		if d := cmpRoutes(s.VHs[i].Routes, vhs[i].Routes, false); d != "" {
			return dif("virtual host %d: %s", i, d)
		}
	}
	return ""
}

func cmpRoutes(ss []RouteSpec, rs []*xdsresource.Route, thrift bool) string {
	if len(ss) != len(rs) {
		return dif("%d routes, want %d", len(rs), len(ss))
	}
	for i := range ss {
		if rs[i] == nil {
			return dif("route %d is nil", i)
		}
		if d := cmpRoute(&ss[i], rs[i], thrift); d != "" {
			return dif("route %d: %s", i, d)
		}
	}
	return ""
}

func cmpRoute(s *RouteSpec, r *xdsresource.Route, thrift bool) string {
	if r.Match == nil {
		return "no match"
	}
	// path
	probes := []string{s.P, s.P + "x", "/", "/zz.Q/zz", "zzz", "", strings.ToUpper(s.P) + "U"}
	if len(s.P) > 1 {
		probes = append(probes, s.P[:len(s.P)-1], s.P[1:])
	}
	for _, p := range probes {
		if s.PK == "prefix" && s.P != "/" && strings.HasPrefix(p, s.P) || s.PK == "regex" && p == s.P {
			continue // unsupported conditions
		}
		if s.PK == "service" {
			break // the router has no say on it
		}
		if got, want := r.Match.MatchPath(p), s.pathHolds(p); got != want {
			return dif("%s condition %q: MatchPath(%q) = %v", s.PK, s.P, p, got)
		}
	}
	if m, ok := r.Match.(*xdsresource.HTTPRouteMatch); ok {
		path, prefix := "", ""
		if s.PK == "path" {
			path = s.P
		} else if s.PK == "prefix" {
			prefix = s.P
		}
		if m.Path != path || m.Prefix != prefix {
			return dif("path %q prefix %q, want %q %q", m.Path, m.Prefix, path, prefix)
		}
	}
	if m, ok := r.Match.(*xdsresource.ThriftRouteMatch); ok && thrift {
		method, service := s.P, ""
		if s.PK == "service" {
			method, service = "", s.P
		}
		if m.Method != method || m.ServiceName != service {
			return dif("method %q service %q, want %q %q", m.Method, m.ServiceName, method, service)
		}
	}
	if d := cmpHeaders(s.Headers, r.Match.MatchMeta); d != "" {
		return d
	}
	// destinations
	if len(r.WeightedClusters) != len(s.clusters()) {
		return dif("%d clusters, want %d", len(r.WeightedClusters), len(s.clusters()))
	}
	for i, c := range s.clusters() {
		g := r.WeightedClusters[i]
		if g == nil || g.Name != c.N {
			return dif("cluster %d is %v, want %q", i, g, c.N)
		}
		if s.Act == "weighted" && g.Weight != c.W {
			return dif("cluster %q has weight %d, want %d", c.N, g.Weight, c.W)
		}
	}
	if thrift {
		return ""
	}
	if r.Timeout != s.timeout() {
		return dif("timeout %s, want %s", r.Timeout, s.timeout())
	}
	return cmpRetry(s.Retry, s.forwards(), &r.RetryPolicy)
}

func (s *RouteSpec) forwards() bool {
	return s.Act == "cluster" || s.Act == "weighted" || s.Act == "clheader"
}

// clusters are the destinations of a route.
func (s *RouteSpec) clusters() []WCSpec {
	switch s.Act {
	case "cluster":
		return s.Cl[:1]
	case "weighted":
		return s.Cl
	}
	return nil
}

func (s *RouteSpec) timeout() time.Duration {
	if s.forwards() && s.TO != nil {
		return time.Duration(*s.TO)
	}
	return 0
}

// pathHolds evaluates the path (or method) condition.
func (s *RouteSpec) pathHolds(p string) bool {
	switch s.PK {
	case "path":
		return p == s.P
	case "prefix":
		return s.P == "/"
	case "method":
		return s.P == "" || s.P == p
	}
	return false
}

// holds evaluates one header condition.
func (h *HdrSpec) holds(md map[string]string) bool {
	v, ok := md[h.N]
	if !ok {
		return false
	}
	switch h.K {
	case "exact":
		return v == h.V
	case "prefix":
		return strings.HasPrefix(v, h.V)
	case "regex":
		return regexp.MustCompile(h.V).MatchString(v)
	}
	return true
}

func headersHold(hs []HdrSpec, md map[string]string) bool {
	for i := range hs {
		if !hs[i].holds(md) {
			return false
		}
	}
	return true
}

// example is a value for which the condition holds.
func (h *HdrSpec) example() string {
	switch h.K {
	case "exact":
		return h.V
	case "prefix":
		return h.V + "tail"
	case "regex":
		for _, r := range regexes {
			if r[0] == h.V {
				return r[1]
			}
		}
	}
	return "v"
}

// regexes are the regular expressions in use, with a value that matches.
var regexes = [][2]string{
	{"^v[0-9]+$", "v12"}, {"^(a|b|cc)$", "cc"}, {"^x.*y$", "xay"}, {"^[a-z]{2,4}$", "abc"}, {"^.+$", "q"}, {"^(?i)prod$", "pRod"},
	{"^[a-z]*$", "ab"}, {"v1", "v1x"}, {"b", "abc"}, {"1$", "v1"}, {"^a", "abc"},
}

func cmpHeaders(hs []HdrSpec, match func(map[string]string) bool) string {
	for _, h := range hs {
		if h.K == "present" {
			return "" // not a supported condition
		}
	}
	base := map[string]string{}
	for i := range hs {
		base[hs[i].N] = hs[i].example()
	}
	try := func(md map[string]string) string {
		if got, want := match(md), headersHold(hs, md); got != want {
			return dif("header conditions %+v: MatchMeta(%q) = %v", hs, md, got)
		}
		return ""
	}
	with := func(k, v string) map[string]string {
		m := map[string]string{"other": "o"}
		for a, b := range base {
			m[a] = b
		}
		if v == "\x00" {
			delete(m, k)
		} else {
			m[k] = v
		}
		return m
	}
	if d := first(try(base), try(map[string]string{}), try(nil), try(with("extra", "1"))); d != "" {
		return d
	}
	for i := range hs {
		n := hs[i].N
		for _, v := range []string{"\x00", "", hs[i].V, hs[i].V + "z", "z" + hs[i].V, "nope", strings.ToUpper(hs[i].example()), hs[i].example() + "\n", "V12"} {
			if d := try(with(n, v)); d != "" {
				return d
			}
		}
	}
	return ""
}

func cmpRetry(s *RetrySpec, fwd bool, r *xdsresource.RetryPolicy) string {
	if s == nil || !fwd {
		s = &RetrySpec{}
	}
	if r.NumRetries != int(s.Num) {
		return dif("%d retries, want %d", r.NumRetries, s.Num)
	}
	if r.RetryOn != s.On {
		return dif("retry on %q, want %q", r.RetryOn, s.On)
	}
	d := func(p *int64) time.Duration {
		if p == nil {
			return 0
		}
		return time.Duration(*p)
	}
	if r.PerTryTimeout != d(s.Per) {
		return dif("per-try timeout %s, want %s", r.PerTryTimeout, d(s.Per))
	}
	if r.PerTryIdleTimeout != d(s.PerIdle) {
		return dif("per-try idle timeout %s, want %s", r.PerTryIdleTimeout, d(s.PerIdle))
	}
	if r.CBErrorRate != s.rate() {
		return dif("error rate %v, want %v", r.CBErrorRate, s.rate())
	}
	if strings.Join(r.Methods, ",") != s.Methods || len(r.Methods) != len(s.methods()) {
		return dif("methods %q, want %q", r.Methods, s.Methods)
	}
	switch {
	case s.BO == nil && r.RetryBackOff != nil:
		return dif("back-off %v, want none", *r.RetryBackOff)
	case s.BO != nil && r.RetryBackOff == nil:
		return "no back-off"
	case s.BO != nil:
		if r.RetryBackOff.BaseInterval != time.Duration(s.BO.Base) || r.RetryBackOff.MaxInterval != d(s.BO.Max) {
			return dif("back-off %v, want base %s max %s", *r.RetryBackOff, time.Duration(s.BO.Base), d(s.BO.Max))
		}
	}
	return ""
}

func (s *RetrySpec) rate() float64 {
	if s.Rate == "" {
		return 0
	}
	f, err := strconv.ParseFloat(s.Rate, 64)
	if err != nil {
		panic(err)
	}
	return f
}

func (s *RetrySpec) methods() []string {
	if s.Methods == "" {
		return nil
	}
	return strings.Split(s.Methods, ",")
}

func cmpCluster(s *CluSpec, c *xdsresource.ClusterResource, name string) string {
	dt := map[string]xdsresource.ClusterDiscoveryType{"static": xdsresource.ClusterDiscoveryTypeStatic, "dns": xdsresource.ClusterDiscoveryTypeLogicalDNS}[s.Type]
	if c.DiscoveryType != dt {
		return dif("discovery type %v, want %v", c.DiscoveryType, dt)
	}
	lb := xdsresource.ClusterLbRoundRobin
	if s.Lb == "hash" {
		lb = xdsresource.ClusterLbRingHash
	}
	if c.LbPolicy != lb {
		return dif("load-balancing policy %v, want %v", c.LbPolicy, lb)
	}
	if c.EndpointName != s.edsName(name) {
		return dif("EDS service name %q, want %q", c.EndpointName, s.edsName(name))
	}
	switch {
	case s.OD == nil && c.OutlierDetection != nil:
		return dif("outlier detection %+v, want none", *c.OutlierDetection)
	case s.OD != nil && c.OutlierDetection == nil:
		return "no outlier detection"
	case s.OD != nil:
		thr, vol := s.OD.values()
		if c.OutlierDetection.FailurePercentageThreshold != thr || c.OutlierDetection.FailurePercentageRequestVolume != vol {
			return dif("outlier detection %+v, want threshold %d volume %d", *c.OutlierDetection, thr, vol)
		}
	}
	in := c.InlineEDS()
	if len(s.Inline) == 0 {
		if in != nil && len(in.Localities) > 0 {
			return "inline endpoints that were not sent"
		}
		return ""
	}
	if in == nil {
		return "no inline endpoints"
	}
	return cmpLocs(s.Inline, in.Localities)
}

func (s *CluSpec) edsName(name string) string {
	if s.EDS && s.Svc != "" {
		return s.Svc
	}
	return name
}

func (e *EpSpec) addr() string { return net.JoinHostPort(e.A, strconv.Itoa(int(e.P))) }

func (e *EpSpec) weight() uint32 {
	if e.W == nil {
		return 0
	}
	return *e.W
}

func cmpLocs(ss []LocSpec, ls []*xdsresource.Locality) string {
	if len(ss) != len(ls) {
		return dif("%d localities, want %d", len(ls), len(ss))
	}
	for i := range ss {
		if ls[i] == nil || len(ls[i].Endpoints) != len(ss[i].Eps) {
			return dif("locality %d does not have %d endpoints", i, len(ss[i].Eps))
		}
		for j := range ss[i].Eps {
			e, w := ls[i].Endpoints[j], &ss[i].Eps[j]
			if e == nil || e.Addr() == nil {
				return dif("locality %d endpoint %d has no address", i, j)
			}
			if e.Addr().String() != w.addr() || e.Addr().Network() != "tcp" || e.Weight() != w.weight() {
				return dif("locality %d endpoint %d is %s %s weight %d, want tcp %s weight %d", i, j, e.Addr().Network(), e.Addr(), e.Weight(), w.addr(), w.weight())
			}
		}
	}
	return ""
}

func cmpNames(want map[string][]string, got map[string][]string) string {
	if len(want) != len(got) {
		return dif("%d hosts, want %d", len(got), len(want))
	}
	for h, ips := range want {
		g, ok := got[h]
		if !ok {
			return dif("host %q is missing", h)
		}
		if strings.Join(g, " ") != strings.Join(ips, " ") || len(g) != len(ips) {
			return dif("host %q has addresses %q, want %q", h, g, ips)
		}
	}
	return ""
}
