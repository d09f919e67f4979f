//go:build go1.21

package world

import (
	"fmt"
	"math"
	"math/rand"
	"regexp"
	"strings"

	udpatypev1 "github.com/cncf/xds/go/udpa/type/v1"
	v3clusterpb "github.com/envoyproxy/go-control-plane/envoy/config/cluster/v3"
	v3endpointpb "github.com/envoyproxy/go-control-plane/envoy/config/endpoint/v3"
	v3listenerpb "github.com/envoyproxy/go-control-plane/envoy/config/listener/v3"
	v3routepb "github.com/envoyproxy/go-control-plane/envoy/config/route/v3"
	ratelimitv3 "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/http/local_ratelimit/v3"
	v3httppb "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/http_connection_manager/v3"
	v3thrift "github.com/envoyproxy/go-control-plane/envoy/extensions/filters/network/thrift_proxy/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/anypb"

	dns "github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
)

func newMsg(t RType) proto.Message {
	switch t {
	case LDS:
		return &v3listenerpb.Listener{}
	case RDS:
		return &v3routepb.RouteConfiguration{}
	case CDS:
		return &v3clusterpb.Cluster{}
	case EDS:
		return &v3endpointpb.ClusterLoadAssignment{}
	}
	return &dns.NameTable{}
}

var nestedMsg = map[string]func() proto.Message{
	urlHCM:         func() proto.Message { return &v3httppb.HttpConnectionManager{} },
	urlThrift:      func() proto.Message { return &v3thrift.ThriftProxy{} },
	urlRateLimit:   func() proto.Message { return &ratelimitv3.LocalRateLimit{} },
	urlTypedStruct: func() proto.Message { return &udpatypev1.TypedStruct{} },
}

// fields the decoders read; the others are filled in now and then.
var readFields = map[protoreflect.Name]bool{}

func init() {
	for _, n := range strings.Fields(`name filter_chains default_filter_chain filters typed_config filter_chain_match destination_port value
		route_config rds route_config_name http_filters virtual_hosts routes match route prefix path headers string_match exact safe_regex regex
		cluster weighted_clusters clusters weight timeout retry_policy retry_on num_retries per_try_timeout per_try_idle_timeout retriable_headers
		retry_back_off base_interval max_interval method_name service_name token_bucket max_tokens tokens_per_fill fields struct_value number_value
		type lb_policy eds_cluster_config load_assignment outlier_detection failure_percentage_threshold failure_percentage_request_volume
		cluster_name endpoints lb_endpoints endpoint address socket_address port_value load_balancing_weight table ips seconds nanos`) {
		readFields[protoreflect.Name(n)] = true
	}
}

// fuzz makes up messages.
type fuzz struct {
	r    *rand.Rand
	left int // size allowance
	dens int // how often a field the decoders read is set, in percent
}

var fuzzStrs = []string{"", "/", "/echo", "a", "k1", "svc0:8080", "rt0", "outbound|80||c0", "10.0.0.1", "fd00::1", "240.0.0.1", "kitexRetryErrorRate", "kitexRetryMethods", "0.1", "NaN", "1e999", ",,", "(", "[a-z]+", "^$", "*", "é€😀", "%00", "\x00", "virtualInbound", "envoy.filters.network.http_connection_manager"}

func (f *fuzz) str() string {
	switch f.r.Intn(8) {
	case 0:
		return strings.Repeat(pick(f.r, fuzzStrs...), 1+f.r.Intn(6))
	case 1:
		b := make([]rune, f.r.Intn(12))
		for i := range b {
			b[i] = rune(f.r.Intn(0x500))
		}
		return string(b)
	}
	return pick(f.r, fuzzStrs...)
}

func (f *fuzz) u64() uint64 {
	switch f.r.Intn(6) {
	case 0:
		return 0
	case 1:
		return math.MaxUint64
	case 2:
		return 1 << uint(f.r.Intn(64))
	case 3:
		return f.r.Uint64()
	}
	return uint64(f.r.Intn(70000))
}

func (f *fuzz) float() float64 {
	return []float64{0, 1, -1, math.NaN(), math.Inf(1), math.Inf(-1), 1e300, 0.5, 4294967296, 100}[f.r.Intn(10)]
}

func (f *fuzz) scalar(fd protoreflect.FieldDescriptor) protoreflect.Value {
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(f.r.Intn(2) == 0)
	case protoreflect.EnumKind:
		if vs := fd.Enum().Values(); f.r.Intn(8) > 0 {
			return protoreflect.ValueOfEnum(vs.Get(f.r.Intn(vs.Len())).Number())
		}
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(int32(f.u64())))
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(f.u64()))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(int64(f.u64()))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(f.u64()))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(f.u64())
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(f.float()))
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(f.float())
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(f.str())
	case protoreflect.BytesKind:
		b := make([]byte, f.r.Intn(10))
		f.r.Read(b)
		return protoreflect.ValueOfBytes(b)
	}
	panic("scalar")
}

// msg fills in a message.
func (f *fuzz) msg(m protoreflect.Message, depth int) {
	f.left--
	d := m.Descriptor()
	if d.FullName() == "google.protobuf.Any" {
		f.any(m, depth)
		return
	}
	fds := d.Fields()
	for i := 0; i < fds.Len() && f.left > 0; i++ {
		fd := fds.Get(i)
		p := 3
		if readFields[fd.Name()] {
			p = f.dens
		}
		sub := fd.Kind() == protoreflect.MessageKind || fd.Kind() == protoreflect.GroupKind
		if f.r.Intn(100) >= p || sub && depth > 24 {
			continue
		}
		switch {
		case fd.IsMap():
			mp := m.Mutable(fd).Map()
			for j := f.r.Intn(4); j > 0 && f.left > 0; j-- {
				k := f.scalar(fd.MapKey()).MapKey()
				if d.FullName() == "google.protobuf.Struct" && f.r.Intn(4) > 0 {
					k = protoreflect.ValueOfString(pick(f.r, "token_bucket", "max_tokens", "tokens_per_fill")).MapKey()
				}
				if fd.MapValue().Kind() == protoreflect.MessageKind {
					v := mp.NewValue()
					f.msg(v.Message(), depth+1)
					mp.Set(k, v)
				} else {
					mp.Set(k, f.scalar(fd.MapValue()))
				}
			}
		case fd.IsList():
			l := m.Mutable(fd).List()
			for j := f.r.Intn(4); j > 0 && f.left > 0; j-- {
				if sub {
					f.msg(l.AppendMutable().Message(), depth+1)
				} else {
					l.Append(f.scalar(fd))
				}
			}
		case sub:
			f.msg(m.Mutable(fd).Message(), depth+1)
		default:
			m.Set(fd, f.scalar(fd))
		}
	}
}

// any fills in an Any, mostly with what the decoders look for.
func (f *fuzz) any(m protoreflect.Message, depth int) {
	u := pick(f.r, urlHCM, urlHCM, urlThrift, urlRateLimit, urlRateLimit, urlTypedStruct, urlRouter, "")
	var b []byte
	if mk := nestedMsg[u]; mk != nil {
		x := mk()
		f.msg(x.ProtoReflect(), depth+1)
		b, _ = proto.MarshalOptions{Deterministic: true, AllowPartial: true}.Marshal(x)
	} else if f.r.Intn(2) == 0 {
		b = make([]byte, f.r.Intn(20))
		f.r.Read(b)
	}
	fs := m.Descriptor().Fields()
	m.Set(fs.ByName("type_url"), protoreflect.ValueOfString(u))
	m.Set(fs.ByName("value"), protoreflect.ValueOfBytes(b))
}

// deep makes a struct value that nests deeply.
func (f *fuzz) deep() []byte {
	n := pick(f.r, 50, 500, 4990, 5010, 10050)
	b := []byte{0x08, 0x00} // null value
	// Value{list_value{values: [...]}} nested
	return nest([]byte{0x0a, 0x32}, n, b) // ListValue.values, Value.list_value
}

// nest wraps an encoding n times in fields of the given tags.
func nest(tags []byte, n int, in []byte) []byte {
	const max = 50000
	b := make([]byte, max+16)
	at := len(b) - len(in)
	copy(b[at:], in)
	for i := 0; i < n && len(b)-at < max; i++ {
		for _, t := range tags {
			l := wrap(t, nil)[:1]
			for k := uint64(len(b) - at); ; k >>= 7 {
				if k < 0x80 {
					l = append(l, byte(k))
					break
				}
				l = append(l, byte(k)|0x80)
			}
			at -= len(l)
			copy(b[at:], l)
		}
	}
	return b[at:]
}

func wrap(tag byte, b []byte) []byte {
	out := []byte{tag}
	for n := uint64(len(b)); ; {
		if n < 0x80 {
			out = append(out, byte(n))
			break
		}
		out = append(out, byte(n)|0x80)
		n >>= 7
	}
	return append(out, b...)
}

// ---- validity, independently of the decoders ----

type verdict struct {
	bad  string // surely to be reported as an error
	odd  string // may be reported as an error
	keys []string
}

func (v *verdict) no(f string, a ...any) {
	if v.bad == "" {
		v.bad = fmt.Sprintf(f, a...)
	}
}

func (v *verdict) maybe(f string, a ...any) {
	if v.odd == "" {
		v.odd = fmt.Sprintf(f, a...)
	}
}

func judge(t RType, slots []RawSlot) *verdict {
	v := &verdict{}
	if t == NDS {
		if len(slots) == 0 {
			v.no("empty name-table response")
		}
		if len(slots) > 1 {
			v.maybe("several name tables")
		}
	}
	seen := map[string]bool{}
	for i, s := range slots {
		no := v.no
		if t == NDS && i > 0 {
			no = v.maybe
		}
		if s.U != urlOf[t] {
			if s.U[strings.LastIndex(s.U, "/")+1:] == urlOf[t][strings.LastIndex(urlOf[t], "/")+1:] {
				v.maybe("unusual prefix of the type URL")
			} else {
				no("wrong type URL %q", s.U)
			}
			continue
		}
		m := newMsg(t)
		if err := proto.Unmarshal(s.B, m); err != nil {
			no("not an encoding of its type")
			continue
		}
		name := ""
		switch x := m.(type) {
		case *v3listenerpb.Listener:
			name = x.GetName()
			for _, fc := range x.GetFilterChains() {
				v.chain(fc)
			}
			if x.GetDefaultFilterChain() != nil {
				v.chain(x.GetDefaultFilterChain())
			}
		case *v3routepb.RouteConfiguration:
			name = x.GetName()
			v.table(x)
		case *v3clusterpb.Cluster:
			name = x.GetName()
		case *v3endpointpb.ClusterLoadAssignment:
			name = x.GetClusterName()
		default:
			continue
		}
		if name == "" {
			v.maybe("a resource without a name")
		}
		if seen[name] {
			v.maybe("two resources of one name")
		}
		seen[name] = true
		v.keys = append(v.keys, name)
	}
	return v
}

func (v *verdict) headers(hs []*v3routepb.HeaderMatcher) {
	for _, h := range hs {
		if re := h.GetStringMatch().GetSafeRegex(); re != nil {
			if _, err := regexp.Compile(re.GetRegex()); err != nil {
				v.maybe("an invalid regular expression")
			}
		}
		if re := h.GetSafeRegexMatch(); re != nil {
			if _, err := regexp.Compile(re.GetRegex()); err != nil {
				v.maybe("an invalid regular expression")
			}
		}
		if h.GetHeaderMatchSpecifier() == nil || h.GetName() == "" {
			v.maybe("an empty header condition")
		}
	}
}

func (v *verdict) table(rc *v3routepb.RouteConfiguration) {
	for _, vh := range rc.GetVirtualHosts() {
		for _, r := range vh.GetRoutes() {
			m := r.GetMatch()
			switch {
			case m == nil:
				v.no("a route without match")
				continue
			case r.GetAction() == nil:
				v.no("a route without action")
				continue
			case m.GetPathSpecifier() == nil:
				v.maybe("a match without path")
			}
			if re := m.GetSafeRegex(); re != nil {
				if _, err := regexp.Compile(re.GetRegex()); err != nil {
					v.maybe("an invalid regular expression")
				}
			}
			v.headers(m.GetHeaders())
			if a := r.GetRoute(); a != nil {
				if a.GetClusterSpecifier() == nil {
					v.maybe("a route to no cluster")
				}
				if rp := a.GetRetryPolicy(); rp != nil {
					v.headers(rp.GetRetriableHeaders())
				}
			}
		}
	}
}

func (v *verdict) chain(fc *v3listenerpb.FilterChain) {
	for _, f := range fc.GetFilters() {
		a := f.GetTypedConfig()
		if a == nil {
			continue
		}
		switch {
		case a.GetTypeUrl() == urlHCM:
			h := &v3httppb.HttpConnectionManager{}
			if err := proto.Unmarshal(a.GetValue(), h); err != nil {
				v.no("a connection manager that does not decode")
				continue
			}
			v.limits(h)
			switch s := h.GetRouteSpecifier().(type) {
			case *v3httppb.HttpConnectionManager_Rds:
				if s.Rds.GetRouteConfigName() == "" {
					v.maybe("no name of a route table")
				}
			case *v3httppb.HttpConnectionManager_RouteConfig:
				v.table(s.RouteConfig)
			case nil:
				v.maybe("a connection manager without routes")
			}
		case a.GetTypeUrl() == urlThrift:
			tp := &v3thrift.ThriftProxy{}
			if err := proto.Unmarshal(a.GetValue(), tp); err != nil {
				v.no("a Thrift proxy that does not decode")
				continue
			}
			for _, r := range tp.GetRouteConfig().GetRoutes() {
				switch {
				case r.GetMatch() == nil:
					v.no("a Thrift route without match")
					continue
				case r.GetRoute() == nil:
					v.no("a Thrift route without action")
					continue
				case r.GetMatch().GetMatchSpecifier() == nil:
					v.maybe("a Thrift match of nothing")
				case r.GetRoute().GetClusterSpecifier() == nil:
					v.maybe("a Thrift route to no cluster")
				}
				v.headers(r.GetMatch().GetHeaders())
			}
		case a.GetTypeUrl() == "" || strings.HasSuffix(a.GetTypeUrl(), urlHCM[strings.LastIndex(urlHCM, "/"):]) || strings.HasSuffix(a.GetTypeUrl(), urlThrift[strings.LastIndex(urlThrift, "/"):]):
			v.maybe("an unusual type URL inside")
		}
	}
}

func (v *verdict) limits(h *v3httppb.HttpConnectionManager) {
	for i, hf := range h.GetHttpFilters() {
		a := hf.GetTypedConfig()
		switch a.GetTypeUrl() {
		case urlRateLimit:
			if err := proto.Unmarshal(a.GetValue(), &ratelimitv3.LocalRateLimit{}); err != nil {
				if i == 0 {
					v.no("a rate limit that does not decode")
				} else {
					v.maybe("a rate limit that does not decode")
				}
			}
		case urlTypedStruct:
			ts := &udpatypev1.TypedStruct{}
			if err := proto.Unmarshal(a.GetValue(), ts); err != nil {
				v.maybe("a typed struct that does not decode")
			}
			if ts.GetValue().GetFields()["token_bucket"] != nil {
				tb := ts.GetValue().GetFields()["token_bucket"].GetStructValue().GetFields()
				for _, n := range []string{"max_tokens", "tokens_per_fill"} {
					if x := tb[n].GetNumberValue(); !(x > 0 && x < math.MaxUint32 && x == math.Trunc(x)) {
						v.maybe("an odd bucket")
					}
				}
			}
		}
	}
}

// ---- generation ----

// anysOf lists the Any fields in a message, depth first.
func anysOf(m protoreflect.Message, out *[]protoreflect.Message) {
	if m.Descriptor().FullName() == "google.protobuf.Any" {
		*out = append(*out, m)
		return
	}
	each(m, func(x protoreflect.Message) { anysOf(x, out) })
}

// each visits the sub-messages of a message in the order of the fields.
func each(m protoreflect.Message, f func(protoreflect.Message)) {
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if fd.Kind() != protoreflect.MessageKind || !m.Has(fd) {
			continue
		}
		switch {
		case fd.IsMap():
			if fd.MapValue().Kind() != protoreflect.MessageKind {
				continue
			}
			mp := m.Get(fd).Map()
			byKey := map[string]protoreflect.Message{}
			mp.Range(func(k protoreflect.MapKey, v protoreflect.Value) bool {
				byKey[k.String()] = v.Message()
				return true
			})
			for _, k := range sortedKeys(byKey) {
				f(byKey[k])
			}
		case fd.IsList():
			l := m.Get(fd).List()
			for j := 0; j < l.Len(); j++ {
				f(l.Get(j).Message())
			}
		default:
			f(m.Get(fd).Message())
		}
	}
}

func allMsgs(m protoreflect.Message, out *[]protoreflect.Message) {
	*out = append(*out, m)
	each(m, func(x protoreflect.Message) { allMsgs(x, out) })
}

// valid makes a well-formed resource.
func (g *sgen) validAny(t RType) *anypb.Any {
	n := pick(g.r, "x0", "x1", "x2", "rt0", "e0")
	switch t {
	case LDS:
		n = pick(g.r, append([]string{"x0", reserved}, g.lis...)...)
		if n == reserved {
			return specAny(t, n, g.inbound())
		}
		return specAny(t, n, g.listener())
	case RDS:
		n = pick(g.r, append([]string{"x0"}, g.tabs...)...)
		return specAny(t, n, g.rc(n))
	case CDS:
		n = pick(g.r, append([]string{"x0"}, g.clus...)...)
		return specAny(t, n, g.cluster(n))
	case EDS:
		n = pick(g.r, append([]string{"x0"}, g.eds...)...)
		o := g.putEds(n)
		return specAny(t, n, parseSpec(t, o.Raw))
	}
	o := g.table2()
	return ndsRes(o.Table)
}

func (g *sgen) fuzz() *fuzz {
	return &fuzz{r: g.r, left: pick(g.r, 20, 60, 200, 600), dens: pick(g.r, 25, 60, 85, 97)}
}

// mutateBytes damages an encoding.
func (g *sgen) mutateBytes(b []byte) []byte {
	b = append([]byte{}, b...)
	for k := 1 + g.r.Intn(3); k > 0; k-- {
		n := len(b)
		if n == 0 {
			return []byte{byte(g.r.Intn(256))}
		}
		i := g.r.Intn(n)
		switch g.r.Intn(7) {
		case 0:
			b = b[:i]
		case 1, 2:
			b[i] ^= 1 << uint(g.r.Intn(8))
		case 3:
			b[i] = byte(g.r.Intn(256))
		case 4:
			b = append(b[:i], append([]byte{byte(g.r.Intn(256))}, b[i:]...)...)
		case 5:
			b = append(b[:i], b[i+1:]...)
		case 6:
			j := i + g.r.Intn(n-i+1)
			b = append(b[:j:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
		}
	}
	return b
}

// mutate changes the structure of a resource.
func (g *sgen) mutate(t RType, a *anypb.Any) ([]byte, string) {
	m := newMsg(t)
	if proto.Unmarshal(a.Value, m) != nil {
		return a.Value, "as it is"
	}
	why := ""
	for k := 1 + g.r.Intn(2); k > 0; k-- {
		var anys []protoreflect.Message
		anysOf(m.ProtoReflect(), &anys)
		if len(anys) > 0 && g.p100(55) {
			x := anys[g.r.Intn(len(anys))]
			fs := x.Descriptor().Fields()
			u := x.Get(fs.ByName("type_url")).String()
			b := x.Get(fs.ByName("value")).Bytes()
			switch g.r.Intn(5) {
			case 0:
				u, why = pick(g.r, urlHCM, urlThrift, urlRateLimit, urlTypedStruct, "", urlOf[RDS], "x"+u), why+" type URL inside swapped"
			case 1, 2:
				b, why = g.mutateBytes(b), why+" encoding inside damaged"
			default: // change the structure of what is inside
				why += " structure inside changed"
				if mk := nestedMsg[u]; mk != nil {
					in := mk()
					if proto.Unmarshal(b, in) == nil {
						var as []protoreflect.Message
						anysOf(in.ProtoReflect(), &as)
						if len(as) > 0 && g.p100(50) {
							y := as[g.r.Intn(len(as))]
							yf := y.Descriptor().Fields()
							if g.p100(50) {
								y.Set(yf.ByName("value"), protoreflect.ValueOfBytes(g.mutateBytes(y.Get(yf.ByName("value")).Bytes())))
							} else {
								y.Set(yf.ByName("type_url"), protoreflect.ValueOfString(pick(g.r, urlRateLimit, urlTypedStruct, urlHCM, "")))
							}
						} else {
							g.prune(in)
						}
						b, _ = proto.MarshalOptions{Deterministic: true}.Marshal(in)
					}
				}
			}
			x.Set(fs.ByName("type_url"), protoreflect.ValueOfString(u))
			x.Set(fs.ByName("value"), protoreflect.ValueOfBytes(b))
			continue
		}
		g.prune(m)
		why += " structure changed"
	}
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		return a.Value, "as it is"
	}
	return b, why
}

// prune removes, empties, adds or repeats a field of some message in m.
func (g *sgen) prune(m proto.Message) {
	var ms []protoreflect.Message
	allMsgs(m.ProtoReflect(), &ms)
	x := ms[g.r.Intn(len(ms))]
	var set []protoreflect.FieldDescriptor
	fds := x.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		if x.Has(fds.Get(i)) {
			set = append(set, fds.Get(i))
		}
	}
	f := g.fuzz()
	f.left = 30
	if len(set) == 0 || g.p100(25) {
		f.msg(x, 20)
		return
	}
	fd := set[g.r.Intn(len(set))]
	isMsg := fd.Kind() == protoreflect.MessageKind
	switch {
	case fd.IsList() && isMsg && g.p100(60):
		l := x.Mutable(fd).List()
		switch g.r.Intn(3) {
		case 0:
			l.AppendMutable()
		case 1:
			l.Append(protoreflect.ValueOfMessage(proto.Clone(l.Get(0).Message().Interface()).ProtoReflect()))
		default:
			l.Truncate(l.Len() - 1)
		}
	case !fd.IsList() && !fd.IsMap() && isMsg && g.p100(40):
		x.Clear(fd)
		x.Mutable(fd) // present, but empty
	case !fd.IsList() && !fd.IsMap() && !isMsg && g.p100(60):
		x.Set(fd, f.scalar(fd))
	default:
		x.Clear(fd)
	}
}

// payload makes the slots of a response.
func (g *sgen) payload(t RType) *RawPush {
	p := &RawPush{}
	n := weighted(g.r, 5, 60, 20, 10, 5)
	var whys []string
	for i := 0; i < n; i++ {
		s := RawSlot{U: urlOf[t]}
		why := "well-formed"
		a := g.validAny(t)
		switch weighted(g.r, 22, 20, 14, 24, 8, 5, 4, 3) {
		case 0:
			s.B = a.Value
		case 1: // made up
			m := newMsg(t)
			g.fuzz().msg(m.ProtoReflect(), 0)
			s.B, _ = proto.MarshalOptions{Deterministic: true}.Marshal(m)
			why = "made up"
		case 2:
			s.B, why = g.mutateBytes(a.Value), "encoding damaged"
		case 3:
			s.B, why = g.mutate(t, a)
		case 4:
			why = "type URL swapped"
			s.B, s.U = a.Value, pick(g.r, urlOf[LDS], urlOf[RDS], urlOf[CDS], urlOf[EDS], urlOf[NDS], "", "/", urlHCM, strings.TrimPrefix(urlOf[t], "type.googleapis.com/"), "t"+urlOf[t], urlOf[t]+"x", strings.ToUpper(urlOf[t]))
			if g.p100(25) {
				s.B = nil
			}
		case 5:
			s.B, why = make([]byte, g.r.Intn(60)), "random bytes"
			g.r.Read(s.B)
		case 6:
			why = "empty"
		case 7:
			why = "nested deeply"
			m := newMsg(t)
			if t == LDS {
				h := &v3httppb.HttpConnectionManager{HttpFilters: []*v3httppb.HttpFilter{{Name: "x", ConfigType: &v3httppb.HttpFilter_TypedConfig{
					TypedConfig: &anypb.Any{TypeUrl: urlTypedStruct, Value: wrap(0x12, wrap(0x0a, append([]byte{0x0a, 1, 'x'}, wrap(0x12, g.fuzz().deep())...)))},
				}}}}
				m = &v3listenerpb.Listener{Name: "x0", FilterChains: []*v3listenerpb.FilterChain{{Filters: []*v3listenerpb.Filter{{
					ConfigType: &v3listenerpb.Filter_TypedConfig{TypedConfig: mustAny(urlHCM, h)},
				}}}}}
				s.B, _ = proto.MarshalOptions{Deterministic: true}.Marshal(m)
			} else {
				s.B = nest([]byte{byte(pick(g.r, 0x0a, 0x12, 0x1a, 0x22))}, pick(g.r, 100, 3000, 12000), a.Value[:min(len(a.Value), 2000)])
			}
		}
		p.Slots = append(p.Slots, s)
		whys = append(whys, strings.TrimSpace(why))
	}
	v := judge(t, p.Slots)
	p.Why = strings.Join(whys, ", ")
	switch {
	case v.bad != "":
		p.V, p.Why = "no", p.Why+": "+v.bad
	case v.odd != "":
		p.V, p.Why = "either", p.Why+": "+v.odd
	default:
		p.V, p.Keys = "yes", v.keys
	}
	return p
}

// hostile makes plans for the totality of the decoders: arbitrary payloads, decoded directly and sent to
// the client among proper updates and lookups.
func (g *sgen) hostile() {
	types := []RType{LDS, RDS, CDS, EDS, LDS, RDS, NDS}
	fetch := func() Op {
		o := Op{K: "fetch", Gap: g.sgap()}
		switch g.r.Intn(4) {
		case 0:
			o.T, o.N = "lds", pick(g.r, append([]string{reserved}, g.svcs...)...)
		case 1:
			o.T, o.N = "rds", pick(g.r, g.tabs...)
		case 2:
			o.T, o.N = "cds", g.clu()
		case 3:
			o.T, o.N = "eds", pick(g.r, g.eds...)
		}
		if g.p100(50) {
			o.C = 1
		}
		return o
	}
	for i := 0; i < 3; i++ {
		g.add(fetch())
	}
	n := 4 + g.r.Intn(10)
	for i := 0; i < n; i++ {
		t := types[g.r.Intn(len(types))]
		switch weighted(g.r, 40, 33, 12, 9, 4, 2) {
		case 0:
			p := g.payload(t)
			g.add(Op{K: "decode", T: shortType[t], Raw: raw(p)})
		case 1:
			if t == NDS && g.p.Cfg.NDSOff {
				continue
			}
			p := g.payload(t)
			if p.V == "either" {
				g.add(Op{K: "decode", T: shortType[t], Raw: raw(p)})
				continue
			}
			g.add(Op{K: "raw", T: shortType[t], Raw: raw(p), Gap: g.sgap()})
			if g.p100(60) {
				g.add(fetch())
			}
		case 2:
			for _, o := range g.change2() {
				g.add(o)
			}
		case 3:
			g.add(fetch())
		case 4:
			g.add(g.trouble())
		case 5:
			g.add(g.badPush2())
		}
	}
}

var shortType = map[RType]string{LDS: "lds", RDS: "rds", CDS: "cds", EDS: "eds", NDS: "nds"}
