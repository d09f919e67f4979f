//go:build go1.21

// Package world runs the real xDS client stack under the deterministic scheduler, against a
// simulated control plane, and decides the listed properties over the recorded histories.
package world

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	v3clusterpb "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3core "github.com/envoyproxy/go-control-plane/envoy/config/core/v3"
	v3endpointpb "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	v3listenerpb "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3routepb "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	v3httppb "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	v3thrift "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/wrapperspb"

	dns "github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
	"github.com/kitex-contrib/xds/core/xdsresource"
)

// RType is the resource type of the code under test.
type RType = xdsresource.ResourceType

const (
	LDS = xdsresource.ListenerType
	RDS = xdsresource.RouteConfigType
	CDS = xdsresource.ClusterType
	EDS = xdsresource.EndpointsType
	NDS = xdsresource.NameTableType
)

// The type URLs are spelled out here, independently of the code under test.
var urlOf = map[RType]string{
	LDS: "type.googleapis.com/envoy.config.listener.v3.Listener",
	RDS: "type.googleapis.com/envoy.config.route.v3.RouteConfiguration",
	CDS: "type.googleapis.com/envoy.config.cluster.v3.Cluster",
	EDS: "type.googleapis.com/envoy.config.endpoint.v3.ClusterLoadAssignment",
	NDS: "type.googleapis.com/istio.networking.nds.v1.NameTable",
}

var typeOf = map[string]RType{}

var typeName = map[RType]string{LDS: "Listener", RDS: "RouteConfig", CDS: "Cluster", EDS: "ClusterLoadAssignment", NDS: "NameTable"}

var allTypes = []RType{LDS, RDS, CDS, EDS, NDS}

const (
	urlHCM    = "type.googleapis.com/envoy.extensions.filters.network.http_connection_manager.v3.HttpConnectionManager"
	urlThrift = "type.googleapis.com/envoy.extensions.filters.network.thrift_proxy.v3.ThriftProxy"
	reserved  = "virtualInbound"
)

func init() {
	for t, u := range urlOf {
		typeOf[u] = t
	}
}

func mustAny(url string, m proto.Message) *anypb.Any {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		panic(err)
	}
	return &anypb.Any{TypeUrl: url, Value: b}
}

// stampedRes is a resource whose decoded form can be told apart from any other by sigOf.
type stampedRes struct {
	any *anypb.Any
	sig string
}

// coreRes makes the resource (t, name) with content number stamp; variant selects its shape.
func coreRes(t RType, name string, stamp, variant int) stampedRes {
	tag := fmt.Sprintf("s%d", stamp)
	switch t {
	case LDS:
		return coreListener(name, tag, variant)
	case RDS:
		rc := &v3routepb.RouteConfiguration{Name: name}
		if variant%4 == 3 {
			return stampedRes{mustAny(urlOf[RDS], rc), "R:empty"}
		}
		rc.VirtualHosts = []*v3routepb.VirtualHost{{Name: tag, Routes: []*v3routepb.Route{plainRoute("/", tag)}}}
		return stampedRes{mustAny(urlOf[RDS], rc), "R:" + tag}
	case CDS:
		c := &v3clusterpb.Cluster{
			Name:                 name,
			ClusterDiscoveryType: &v3clusterpb.Cluster_Type{Type: v3clusterpb.Cluster_EDS},
			EdsClusterConfig:     &v3clusterpb.Cluster_EdsClusterConfig{ServiceName: tag},
		}
		if variant%4 == 2 {
			c.LbPolicy = v3clusterpb.Cluster_RING_HASH
		}
		return stampedRes{mustAny(urlOf[CDS], c), "C:" + tag}
	case EDS:
		cla := &v3endpointpb.ClusterLoadAssignment{ClusterName: name}
		if variant%4 == 3 {
			return stampedRes{mustAny(urlOf[EDS], cla), "E:empty"}
		}
		cla.Endpoints = []*v3endpointpb.LocalityLbEndpoints{{LbEndpoints: []*v3endpointpb.LbEndpoint{endpoint(tag+".ep", 80, 1)}}}
		return stampedRes{mustAny(urlOf[EDS], cla), "E:" + tag}
	}
	panic("coreRes")
}

func endpoint(addr string, port, weight uint32) *v3endpointpb.LbEndpoint {
	return &v3endpointpb.LbEndpoint{
		HostIdentifier: &v3endpointpb.LbEndpoint_Endpoint{Endpoint: &v3endpointpb.Endpoint{Address: &v3core.Address{
			Address: &v3core.Address_SocketAddress{SocketAddress: &v3core.SocketAddress{
				Address: addr, PortSpecifier: &v3core.SocketAddress_PortValue{PortValue: port},
			}},
		}}},
		LoadBalancingWeight: &wrapperspb.UInt32Value{Value: weight},
	}
}

func plainRoute(prefix, cluster string) *v3routepb.Route {
	return &v3routepb.Route{
		Match:  &v3routepb.RouteMatch{PathSpecifier: &v3routepb.RouteMatch_Prefix{Prefix: prefix}},
		Action: &v3routepb.Route_Route{Route: &v3routepb.RouteAction{ClusterSpecifier: &v3routepb.RouteAction_Cluster{Cluster: cluster}}},
	}
}

func filterOf(url string, m proto.Message) *v3listenerpb.Filter {
	return &v3listenerpb.Filter{Name: "f", ConfigType: &v3listenerpb.Filter_TypedConfig{TypedConfig: mustAny(url, m)}}
}

func coreListener(name, tag string, variant int) stampedRes {
	l := &v3listenerpb.Listener{Name: name}
	switch variant % 4 {
	case 0, 3:
		l.FilterChains = []*v3listenerpb.FilterChain{{Filters: []*v3listenerpb.Filter{filterOf(urlHCM, &v3httppb.HttpConnectionManager{
			RouteSpecifier: &v3httppb.HttpConnectionManager_Rds{Rds: &v3httppb.Rds{RouteConfigName: tag}},
		})}}}
	case 1:
		l.FilterChains = []*v3listenerpb.FilterChain{{Filters: []*v3listenerpb.Filter{filterOf(urlHCM, &v3httppb.HttpConnectionManager{
			RouteSpecifier: &v3httppb.HttpConnectionManager_RouteConfig{RouteConfig: &v3routepb.RouteConfiguration{
				Name: tag, VirtualHosts: []*v3routepb.VirtualHost{{Name: "vh", Routes: []*v3routepb.Route{plainRoute("/", "inl")}}},
			}},
		})}}}
	case 2:
		l.DefaultFilterChain = &v3listenerpb.FilterChain{Filters: []*v3listenerpb.Filter{filterOf(urlThrift, &v3thrift.ThriftProxy{
			RouteConfig: &v3thrift.RouteConfiguration{Name: "t", Routes: []*v3thrift.Route{{
				Match: &v3thrift.RouteMatch{MatchSpecifier: &v3thrift.RouteMatch_MethodName{MethodName: ""}},
				Route: &v3thrift.RouteAction{ClusterSpecifier: &v3thrift.RouteAction_Cluster{Cluster: tag}},
			}}},
		})}}
	}
	return stampedRes{mustAny(urlOf[LDS], l), "L:" + tag}
}

func ndsRes(table map[string][]string) *anypb.Any {
	nt := &dns.NameTable{Table: map[string]*dns.NameTable_NameInfo{}}
	for h, ips := range table {
		nt.Table[h] = &dns.NameTable_NameInfo{Ips: ips}
	}
	return mustAny(urlOf[NDS], nt)
}

func isNilPtr(v any) bool {
	if v == nil {
		return true
	}
	rv := reflect.ValueOf(v)
	return rv.Kind() == reflect.Ptr && rv.IsNil()
}

// sigOf reads the content stamp back from a decoded resource. A nil value is "NIL", a value of
// another kind "KIND:<type>".
func sigOf(t RType, v any) string {
	if isNilPtr(v) {
		return "NIL"
	}
	switch t {
	case LDS:
		if l, ok := v.(*xdsresource.ListenerResource); ok {
			for _, nf := range l.NetworkFilters {
				if nf == nil {
					continue
				}
				if nf.FilterType == xdsresource.NetworkFilterTypeThrift {
					if nf.InlineRouteConfig != nil && nf.InlineRouteConfig.ThriftRouteConfig != nil {
						for _, r := range nf.InlineRouteConfig.ThriftRouteConfig.Routes {
							if r != nil && len(r.WeightedClusters) > 0 {
								return "L:" + r.WeightedClusters[0].Name
							}
						}
					}
					continue
				}
				return "L:" + nf.RouteConfigName
			}
			return "L:empty"
		}
	case RDS:
		if r, ok := v.(*xdsresource.RouteConfigResource); ok {
			if r.HTTPRouteConfig == nil || len(r.HTTPRouteConfig.VirtualHosts) == 0 {
				return "R:empty"
			}
			return "R:" + r.HTTPRouteConfig.VirtualHosts[0].Name
		}
	case CDS:
		if c, ok := v.(*xdsresource.ClusterResource); ok {
			return "C:" + c.EndpointName
		}
	case EDS:
		if e, ok := v.(*xdsresource.EndpointsResource); ok {
			for _, l := range e.Localities {
				for _, ep := range l.Endpoints {
					s := ep.Addr().String()
					if i := strings.Index(s, ".ep:"); i >= 0 {
						s = s[:i]
					}
					return "E:" + s
				}
			}
			return "E:empty"
		}
	}
	return fmt.Sprintf("KIND:%T", v)
}

// invalidAny makes a resource slot that no decoder of type t may accept.
func invalidAny(t RType, kind, name string) *anypb.Any {
	switch kind {
	case "url": // another type's resource
		o := CDS
		if t == CDS {
			o = EDS
		}
		return coreRes(o, name, 0, 0).any
	case "urlname": // right bytes under a foreign URL
		if t == NDS {
			a := ndsRes(map[string][]string{"x": {"1.1.1.1"}})
			a.TypeUrl += "X"
			return a
		}
		a := coreRes(t, name, 0, 0).any
		a.TypeUrl = "type.googleapis.com/envoy.service.unknown.v3.Thing"
		return a
	case "bytes": // a length-delimited field running past the end
		return &anypb.Any{TypeUrl: urlOf[t], Value: []byte{0x0a, 0x7f, 'x'}}
	case "trunc":
		var a *anypb.Any
		if t == NDS {
			a = ndsRes(map[string][]string{"h": {"1.1.1.1"}})
		} else {
			a = coreRes(t, name, 0, 0).any
		}
		a.Value = a.Value[:len(a.Value)-1] // the last field is length-delimited in all of them
		return a
	case "nomatch":
		if t == RDS {
			return mustAny(urlOf[RDS], &v3routepb.RouteConfiguration{Name: name, VirtualHosts: []*v3routepb.VirtualHost{{Name: "v", Routes: []*v3routepb.Route{
				plainRoute("/", "c"), {Action: plainRoute("/", "c").Action},
			}}}})
		}
		if t == LDS {
			return mustAny(urlOf[LDS], &v3listenerpb.Listener{Name: name, FilterChains: []*v3listenerpb.FilterChain{{Filters: []*v3listenerpb.Filter{filterOf(urlHCM, &v3httppb.HttpConnectionManager{
				RouteSpecifier: &v3httppb.HttpConnectionManager_RouteConfig{RouteConfig: &v3routepb.RouteConfiguration{Name: "x", VirtualHosts: []*v3routepb.VirtualHost{{Name: "v", Routes: []*v3routepb.Route{{Action: plainRoute("/", "c").Action}}}}}},
			})}}}})
		}
	case "noaction":
		if t == RDS {
			return mustAny(urlOf[RDS], &v3routepb.RouteConfiguration{Name: name, VirtualHosts: []*v3routepb.VirtualHost{{Name: "v", Routes: []*v3routepb.Route{{Match: plainRoute("/", "c").Match}}}}})
		}
		if t == LDS {
			return mustAny(urlOf[LDS], &v3listenerpb.Listener{Name: name, FilterChains: []*v3listenerpb.FilterChain{{Filters: []*v3listenerpb.Filter{filterOf(urlHCM, &v3httppb.HttpConnectionManager{
				RouteSpecifier: &v3httppb.HttpConnectionManager_RouteConfig{RouteConfig: &v3routepb.RouteConfiguration{Name: "x", VirtualHosts: []*v3routepb.VirtualHost{{Name: "v", Routes: []*v3routepb.Route{{Match: plainRoute("/", "c").Match}}}}}},
			})}}}})
		}
	case "nested": // the wrapper decodes, the filter inside does not
		if t == LDS {
			return mustAny(urlOf[LDS], &v3listenerpb.Listener{Name: name, FilterChains: []*v3listenerpb.FilterChain{{Filters: []*v3listenerpb.Filter{{
				Name: "f", ConfigType: &v3listenerpb.Filter_TypedConfig{TypedConfig: &anypb.Any{TypeUrl: urlHCM, Value: []byte{0x0a, 0x7f}}},
			}}}}})
		}
	}
	return &anypb.Any{TypeUrl: urlOf[t], Value: []byte{0x0a, 0x7f, 'x'}}
}

var invalidKinds = []string{"url", "urlname", "bytes", "trunc", "nomatch", "noaction", "nested"}

func sortedSet(m map[string]bool) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
