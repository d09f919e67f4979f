//go:build go1.21

package world

import (
	"time"

	udpatypev1 "github.com/cncf/xds/go/udpa/type/v1"
	v3clusterpb "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	v3endpointpb "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	v3listenerpb "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3routepb "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	ratelimitv3 "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/http/local_ratelimit/v3"
	v3router "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/http/router/v3"
	v3httppb "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	v3thrift "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"
	v3matcher "github.com/envoyproxy/go-control-plane/envoy/type/matcher/v3"
	v3type "github.com/envoyproxy/go-control-plane/envoy/type/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/wrapperspb"
)

// Specs describe resources in the terms of the properties. The resources sent are built from them,
// and the oracles are computed from them: neither goes through the decoders.

const (
	urlRateLimit   = "type.googleapis.com/envoy.extensions.filters.http.local_ratelimit.v3.LocalRateLimit"
	urlTypedStruct = "type.googleapis.com/udpa.type.v1.TypedStruct"
	urlRouter      = "type.googleapis.com/envoy.extensions.filters.http.router.v3.Router"
)

// LisSpec is a listener.
type LisSpec struct {
	Chains []ChainSpec `json:"chains,omitempty"`
	Def    *ChainSpec  `json:"def,omitempty"`
}

// ChainSpec is a filter chain.
type ChainSpec struct {
	Port    uint32     `json:"port,omitempty"`
	Match   bool       `json:"match,omitempty"` // a match without a port
	Filters []FiltSpec `json:"filters,omitempty"`
}

// FiltSpec is a network filter.
type FiltSpec struct {
	K      string      `json:"k"` // http thrift other none disc
	Rds    string      `json:"rds,omitempty"`
	Inline *RCSpec     `json:"inline,omitempty"`
	HF     []HFSpec    `json:"hf,omitempty"`
	TR     []RouteSpec `json:"tr,omitempty"`
}

// HFSpec is an HTTP filter.
type HFSpec struct {
	K    string `json:"k"` // rl ts router nocfg tsother rlnobucket
	Max  uint32 `json:"max,omitempty"`
	Fill uint32 `json:"fill,omitempty"`
}

// RCSpec is a route table.
type RCSpec struct {
	Name string   `json:"name,omitempty"`
	VHs  []VHSpec `json:"vhs,omitempty"`
}

// VHSpec is a virtual host.
type VHSpec struct {
	Name    string      `json:"name,omitempty"`
	Domains []string    `json:"domains,omitempty"`
	Routes  []RouteSpec `json:"routes,omitempty"`
}

// RouteSpec is a route, HTTP or Thrift.
type RouteSpec struct {
	Name    string     `json:"name,omitempty"`
	PK      string     `json:"pk"` // prefix path regex ; method service (Thrift)
	P       string     `json:"p,omitempty"`
	Headers []HdrSpec  `json:"headers,omitempty"`
	Act     string     `json:"act"` // cluster weighted redirect direct clheader nonfwd
	Cl      []WCSpec   `json:"cl,omitempty"`
	TO      *int64     `json:"to,omitempty"`
	Retry   *RetrySpec `json:"retry,omitempty"`
}

// WCSpec is a destination.
type WCSpec struct {
	N   string `json:"n"`
	W   uint32 `json:"w,omitempty"`
	NoW bool   `json:"no_w,omitempty"`
}

// HdrSpec is a header condition.
type HdrSpec struct {
	N string `json:"n"`
	K string `json:"k"` // exact prefix regex present
	V string `json:"v,omitempty"`
}

// RetrySpec is a retry policy.
type RetrySpec struct {
	On      string    `json:"on,omitempty"`
	Num     uint32    `json:"num"`
	Per     *int64    `json:"per,omitempty"`
	PerIdle *int64    `json:"per_idle,omitempty"`
	Rate    string    `json:"rate,omitempty"`
	Methods string    `json:"methods,omitempty"`
	Noise   bool      `json:"noise,omitempty"` // other retriable headers as well
	Blank   bool      `json:"blank,omitempty"` // extensions that are not configured are there, with no value
	BO      *BackSpec `json:"bo,omitempty"`
}

// BackSpec is a retry back-off.
type BackSpec struct {
	Base int64  `json:"base"`
	Max  *int64 `json:"max,omitempty"`
}

// CluSpec is a cluster.
type CluSpec struct {
	Type   string    `json:"type,omitempty"` // eds static dns
	Lb     string    `json:"lb,omitempty"`   // rr hash
	EDS    bool      `json:"eds,omitempty"`  // has an EDS configuration
	Svc    string    `json:"svc,omitempty"`  // its service name
	OD     *ODSpec   `json:"od,omitempty"`
	Inline []LocSpec `json:"inline,omitempty"`
}

// ODSpec is the outlier detection of a cluster.
type ODSpec struct {
	Thr *uint32 `json:"thr,omitempty"`
	Vol *uint32 `json:"vol,omitempty"`
	Etc bool    `json:"etc,omitempty"` // other fields as well
}

// LocSpec is a locality.
type LocSpec struct {
	Eps []EpSpec `json:"eps,omitempty"`
	Pri uint32   `json:"pri,omitempty"`
	Z   string   `json:"z,omitempty"` // zone
	W   *uint32  `json:"w,omitempty"` // weight of the locality
}

// EpSpec is an endpoint.
type EpSpec struct {
	A string  `json:"a"`
	P uint32  `json:"p"`
	W *uint32 `json:"w,omitempty"`
	H int32   `json:"h,omitempty"` // health status
	X bool    `json:"x,omitempty"` // with fields that mean nothing here
}

// EdsSpec is a load assignment.
type EdsSpec struct {
	Locs []LocSpec `json:"locs,omitempty"`
}

func dur(ns int64) *durationpb.Duration { return durationpb.New(time.Duration(ns)) }

func durP(ns *int64) *durationpb.Duration {
	if ns == nil {
		return nil
	}
	return dur(*ns)
}

func (s *LisSpec) proto(name string) *v3listenerpb.Listener {
	l := &v3listenerpb.Listener{Name: name}
	for i := range s.Chains {
		l.FilterChains = append(l.FilterChains, s.Chains[i].proto())
	}
	if s.Def != nil {
		l.DefaultFilterChain = s.Def.proto()
	}
	return l
}

func (s *ChainSpec) proto() *v3listenerpb.FilterChain {
	c := &v3listenerpb.FilterChain{}
	if s.Match || s.Port != 0 {
		c.FilterChainMatch = &v3listenerpb.FilterChainMatch{}
	}
	if s.Port != 0 {
		c.FilterChainMatch.DestinationPort = wrapperspb.UInt32(s.Port)
	}
	for i := range s.Filters {
		f := &s.Filters[i]
		switch f.K {
		case "http":
			c.Filters = append(c.Filters, filterOf(urlHCM, f.hcm()))
		case "thrift":
			c.Filters = append(c.Filters, filterOf(urlThrift, f.thrift()))
		case "other":
			c.Filters = append(c.Filters, filterOf("type.googleapis.com/envoy.extensions.filters.network.tcp_proxy.v3.TcpProxy", &v3core.Node{Id: "x"}))
		case "none":
			c.Filters = append(c.Filters, &v3listenerpb.Filter{Name: "n"})
		case "disc":
			c.Filters = append(c.Filters, &v3listenerpb.Filter{Name: "d", ConfigType: &v3listenerpb.Filter_ConfigDiscovery{ConfigDiscovery: &v3core.ExtensionConfigSource{TypeUrls: []string{urlHCM}}}})
		}
	}
	return c
}

func (f *FiltSpec) hcm() *v3httppb.HttpConnectionManager {
	h := &v3httppb.HttpConnectionManager{StatPrefix: "s"}
	if f.Inline != nil {
		h.RouteSpecifier = &v3httppb.HttpConnectionManager_RouteConfig{RouteConfig: f.Inline.proto(f.Inline.Name)}
	} else {
		h.RouteSpecifier = &v3httppb.HttpConnectionManager_Rds{Rds: &v3httppb.Rds{RouteConfigName: f.Rds}}
	}
	for _, x := range f.HF {
		h.HttpFilters = append(h.HttpFilters, x.proto())
	}
	return h
}

func httpFilter(name, url string, m proto.Message) *v3httppb.HttpFilter {
	return &v3httppb.HttpFilter{Name: name, ConfigType: &v3httppb.HttpFilter_TypedConfig{TypedConfig: mustAny(url, m)}}
}

func (x HFSpec) proto() *v3httppb.HttpFilter {
	switch x.K {
	case "rl":
		return httpFilter("envoy.filters.http.local_ratelimit", urlRateLimit, &ratelimitv3.LocalRateLimit{
			StatPrefix:  "rl",
			TokenBucket: &v3type.TokenBucket{MaxTokens: x.Max, TokensPerFill: wrapperspb.UInt32(x.Fill), FillInterval: dur(1e9)},
		})
	case "rlnobucket":
		return httpFilter("envoy.filters.http.local_ratelimit", urlRateLimit, &ratelimitv3.LocalRateLimit{StatPrefix: "nb"})
	case "ts":
		return httpFilter("envoy.filters.http.local_ratelimit", urlTypedStruct, &udpatypev1.TypedStruct{
			TypeUrl: urlRateLimit,
			Value: &structpb.Struct{Fields: map[string]*structpb.Value{
				"stat_prefix": structpb.NewStringValue("rl"),
				"token_bucket": structpb.NewStructValue(&structpb.Struct{Fields: map[string]*structpb.Value{
					"max_tokens": structpb.NewNumberValue(float64(x.Max)), "tokens_per_fill": structpb.NewNumberValue(float64(x.Fill)),
					"fill_interval": structpb.NewStringValue("1s"),
				}}),
			}},
		})
	case "tsother":
		return httpFilter("istio.metadata", urlTypedStruct, &udpatypev1.TypedStruct{
			TypeUrl: "type.googleapis.com/foo.Bar",
			Value:   &structpb.Struct{Fields: map[string]*structpb.Value{"k": structpb.NewBoolValue(true)}},
		})
	case "nocfg":
		return &v3httppb.HttpFilter{Name: "nocfg"}
	case "disc":
		return &v3httppb.HttpFilter{Name: "d", ConfigType: &v3httppb.HttpFilter_ConfigDiscovery{ConfigDiscovery: &v3core.ExtensionConfigSource{}}}
	}
	return httpFilter("envoy.filters.http.router", urlRouter, &v3router.Router{})
}

// bucket is the local rate limit of the HTTP filters: maximum, per fill.
func (f *FiltSpec) bucket() (uint32, uint32) {
	for _, x := range f.HF {
		if x.K == "rl" || x.K == "ts" {
			return x.Max, x.Fill
		}
	}
	return 0, 0
}

func (f *FiltSpec) thrift() *v3thrift.ThriftProxy {
	p := &v3thrift.ThriftProxy{StatPrefix: "t", RouteConfig: &v3thrift.RouteConfiguration{Name: "t"}}
	for i := range f.TR {
		r := &f.TR[i]
		x := &v3thrift.Route{
			Match: &v3thrift.RouteMatch{MatchSpecifier: &v3thrift.RouteMatch_MethodName{MethodName: r.P}, Headers: hdrProtos(r.Headers)},
			Route: &v3thrift.RouteAction{},
		}
		if r.PK == "service" {
			x.Match.MatchSpecifier = &v3thrift.RouteMatch_ServiceName{ServiceName: r.P}
		}
		switch r.Act {
		case "cluster":
			x.Route.ClusterSpecifier = &v3thrift.RouteAction_Cluster{Cluster: r.Cl[0].N}
		case "weighted":
			wc := &v3thrift.WeightedCluster{}
			for _, c := range r.Cl {
				k := &v3thrift.WeightedCluster_ClusterWeight{Name: c.N}
				if !c.NoW {
					k.Weight = wrapperspb.UInt32(c.W)
				}
				wc.Clusters = append(wc.Clusters, k)
			}
			x.Route.ClusterSpecifier = &v3thrift.RouteAction_WeightedClusters{WeightedClusters: wc}
		case "clheader":
			x.Route.ClusterSpecifier = &v3thrift.RouteAction_ClusterHeader{ClusterHeader: "h"}
		}
		p.RouteConfig.Routes = append(p.RouteConfig.Routes, x)
	}
	return p
}

func hdrProtos(hs []HdrSpec) []*v3routepb.HeaderMatcher {
	var out []*v3routepb.HeaderMatcher
	for _, h := range hs {
		m := &v3routepb.HeaderMatcher{Name: h.N}
		sm := &v3matcher.StringMatcher{}
		switch h.K {
		case "exact":
			sm.MatchPattern = &v3matcher.StringMatcher_Exact{Exact: h.V}
		case "prefix":
			sm.MatchPattern = &v3matcher.StringMatcher_Prefix{Prefix: h.V}
		case "regex":
			sm.MatchPattern = &v3matcher.StringMatcher_SafeRegex{SafeRegex: &v3matcher.RegexMatcher{Regex: h.V}}
		}
		m.HeaderMatchSpecifier = &v3routepb.HeaderMatcher_StringMatch{StringMatch: sm}
		if h.K == "present" {
			m.HeaderMatchSpecifier = &v3routepb.HeaderMatcher_PresentMatch{PresentMatch: true}
		}
		out = append(out, m)
	}
	return out
}

func (s *RCSpec) proto(name string) *v3routepb.RouteConfiguration {
	rc := &v3routepb.RouteConfiguration{Name: name}
	for i := range s.VHs {
		v := &s.VHs[i]
		vh := &v3routepb.VirtualHost{Name: v.Name, Domains: v.Domains}
		for j := range v.Routes {
			vh.Routes = append(vh.Routes, v.Routes[j].proto())
		}
		rc.VirtualHosts = append(rc.VirtualHosts, vh)
	}
	return rc
}

func (r *RouteSpec) proto() *v3routepb.Route {
	x := &v3routepb.Route{Name: r.Name, Match: &v3routepb.RouteMatch{Headers: hdrProtos(r.Headers)}}
	switch r.PK {
	case "prefix":
		x.Match.PathSpecifier = &v3routepb.RouteMatch_Prefix{Prefix: r.P}
	case "path":
		x.Match.PathSpecifier = &v3routepb.RouteMatch_Path{Path: r.P}
	case "regex":
		x.Match.PathSpecifier = &v3routepb.RouteMatch_SafeRegex{SafeRegex: &v3matcher.RegexMatcher{Regex: r.P}}
	}
	switch r.Act {
	case "redirect":
		x.Action = &v3routepb.Route_Redirect{Redirect: &v3routepb.RedirectAction{HostRedirect: "h"}}
		return x
	case "direct":
		x.Action = &v3routepb.Route_DirectResponse{DirectResponse: &v3routepb.DirectResponseAction{Status: 503}}
		return x
	case "nonfwd":
		x.Action = &v3routepb.Route_NonForwardingAction{NonForwardingAction: &v3routepb.NonForwardingAction{}}
		return x
	}
	a := &v3routepb.RouteAction{Timeout: durP(r.TO)}
	switch r.Act {
	case "cluster":
		a.ClusterSpecifier = &v3routepb.RouteAction_Cluster{Cluster: r.Cl[0].N}
	case "weighted":
		wc := &v3routepb.WeightedCluster{}
		for _, c := range r.Cl {
			k := &v3routepb.WeightedCluster_ClusterWeight{Name: c.N}
			if !c.NoW {
				k.Weight = wrapperspb.UInt32(c.W)
			}
			wc.Clusters = append(wc.Clusters, k)
		}
		a.ClusterSpecifier = &v3routepb.RouteAction_WeightedClusters{WeightedClusters: wc}
	case "clheader":
		a.ClusterSpecifier = &v3routepb.RouteAction_ClusterHeader{ClusterHeader: "h"}
	}
	if t := r.Retry; t != nil {
		p := &v3routepb.RetryPolicy{
			RetryOn: t.On, NumRetries: wrapperspb.UInt32(t.Num), PerTryTimeout: durP(t.Per), PerTryIdleTimeout: durP(t.PerIdle),
		}
		ex := func(n, v string) *v3routepb.HeaderMatcher {
			return &v3routepb.HeaderMatcher{Name: n, HeaderMatchSpecifier: &v3routepb.HeaderMatcher_StringMatch{StringMatch: &v3matcher.StringMatcher{MatchPattern: &v3matcher.StringMatcher_Exact{Exact: v}}}}
		}
		if t.Noise {
			p.RetriableHeaders = append(p.RetriableHeaders, ex("x-other", "1"), &v3routepb.HeaderMatcher{Name: "x-p", HeaderMatchSpecifier: &v3routepb.HeaderMatcher_PresentMatch{PresentMatch: true}})
		}
		if t.Rate != "" {
			p.RetriableHeaders = append(p.RetriableHeaders, ex("kitexRetryErrorRate", t.Rate))
		}
		if t.Blank && t.Rate == "" {
			p.RetriableHeaders = append(p.RetriableHeaders, ex("kitexRetryErrorRate", ""))
		}
		if t.Blank && t.Methods == "" {
			p.RetriableHeaders = append(p.RetriableHeaders, ex("kitexRetryMethods", ""))
		}
		if t.Methods != "" {
			p.RetriableHeaders = append(p.RetriableHeaders, ex("kitexRetryMethods", t.Methods))
		}
		if t.Noise {
			p.RetriableHeaders = append(p.RetriableHeaders, ex("x-more", "2"))
		}
		if t.BO != nil {
			p.RetryBackOff = &v3routepb.RetryPolicy_RetryBackOff{BaseInterval: dur(t.BO.Base), MaxInterval: durP(t.BO.Max)}
		}
		a.RetryPolicy = p
	}
	x.Action = &v3routepb.Route_Route{Route: a}
	return x
}

func locProtos(ls []LocSpec) []*v3endpointpb.LocalityLbEndpoints {
	var out []*v3endpointpb.LocalityLbEndpoints
	for i := range ls {
		l := &v3endpointpb.LocalityLbEndpoints{Priority: ls[i].Pri, Locality: &v3core.Locality{Zone: ls[i].Z}}
		if ls[i].W != nil {
			l.LoadBalancingWeight = wrapperspb.UInt32(*ls[i].W)
		}
		for _, e := range ls[i].Eps {
			x := endpoint(e.A, e.P, 0)
			x.LoadBalancingWeight = nil
			if e.W != nil {
				x.LoadBalancingWeight = wrapperspb.UInt32(*e.W)
			}
			x.HealthStatus = v3core.HealthStatus(e.H)
			if e.X {
				x.Metadata = &v3core.Metadata{FilterMetadata: map[string]*structpb.Struct{"envoy.lb": {}}}
				x.GetEndpoint().Hostname = "h.example.com"
				x.GetEndpoint().HealthCheckConfig = &v3endpointpb.Endpoint_HealthCheckConfig{PortValue: 9}
			}
			l.LbEndpoints = append(l.LbEndpoints, x)
		}
		out = append(out, l)
	}
	return out
}

func (s *CluSpec) proto(name string) *v3clusterpb.Cluster {
	c := &v3clusterpb.Cluster{Name: name}
	switch s.Type {
	case "static":
		c.ClusterDiscoveryType = &v3clusterpb.Cluster_Type{Type: v3clusterpb.Cluster_STATIC}
	case "dns":
		c.ClusterDiscoveryType = &v3clusterpb.Cluster_Type{Type: v3clusterpb.Cluster_LOGICAL_DNS}
	default:
		c.ClusterDiscoveryType = &v3clusterpb.Cluster_Type{Type: v3clusterpb.Cluster_EDS}
	}
	if s.Lb == "hash" {
		c.LbPolicy = v3clusterpb.Cluster_RING_HASH
	}
	if s.EDS {
		c.EdsClusterConfig = &v3clusterpb.Cluster_EdsClusterConfig{ServiceName: s.Svc}
	}
	if s.OD != nil {
		c.OutlierDetection = &v3clusterpb.OutlierDetection{}
		if s.OD.Thr != nil {
			c.OutlierDetection.FailurePercentageThreshold = wrapperspb.UInt32(*s.OD.Thr)
		}
		if s.OD.Vol != nil {
			c.OutlierDetection.FailurePercentageRequestVolume = wrapperspb.UInt32(*s.OD.Vol)
		}
		if s.OD.Etc {
			c.OutlierDetection.Consecutive_5Xx = wrapperspb.UInt32(5)
			c.OutlierDetection.SuccessRateRequestVolume = wrapperspb.UInt32(77)
			c.OutlierDetection.FailurePercentageMinimumHosts = wrapperspb.UInt32(3)
			c.OutlierDetection.EnforcingFailurePercentage = wrapperspb.UInt32(100)
		}
	}
	if s.Inline != nil {
		c.LoadAssignment = &v3endpointpb.ClusterLoadAssignment{ClusterName: name, Endpoints: locProtos(s.Inline)}
	}
	return c
}

func (s *EdsSpec) proto(name string) *v3endpointpb.ClusterLoadAssignment {
	return &v3endpointpb.ClusterLoadAssignment{ClusterName: name, Endpoints: locProtos(s.Locs)}
}

func (o *ODSpec) values() (thr, vol uint32) {
	if o.Thr != nil {
		thr = *o.Thr
	}
	if o.Vol != nil {
		vol = *o.Vol
	}
	return
}
