//go:build go1.21

package world

import (
	"encoding/json"
	"fmt"

	discoveryv3 "github.com/envoyproxy/go-control-plane/envoy/service/discovery/v3"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	dns "github.com/kitex-contrib/xds/core/api/kitex_gen/istio.io/istio/pkg/dns/proto/istio_networking_nds_v1"
)

// specReg remembers the spec of every content stamp of a run.
type specReg map[string]any

func parseSpec(t RType, raw json.RawMessage) any {
	var s any
	switch t {
	case LDS:
		s = &LisSpec{}
	case RDS:
		s = &RCSpec{}
	case CDS:
		s = &CluSpec{}
	case EDS:
		s = &EdsSpec{}
	default:
		panic("no spec for this type")
	}
	if len(raw) > 0 {
		if err := json.Unmarshal(raw, s); err != nil {
			panic(err)
		}
	}
	return s
}

func specAny(t RType, name string, s any) *anypb.Any {
	switch x := s.(type) {
	case *LisSpec:
		return mustAny(urlOf[t], x.proto(name))
	case *RCSpec:
		return mustAny(urlOf[t], x.proto(name))
	case *CluSpec:
		return mustAny(urlOf[t], x.proto(name))
	case *EdsSpec:
		return mustAny(urlOf[t], x.proto(name))
	}
	panic("specAny")
}

// put gives a resource the content of a spec.
func (cp *CP) put(o *Op) {
	t := typeByName[o.T]
	s := parseSpec(t, o.Raw)
	cp.stamp++
	cp.rev[t]++
	sig := fmt.Sprintf("P%d", cp.stamp)
	if cp.specs == nil {
		cp.specs = specReg{}
	}
	cp.specs[sig] = s
	cp.res[t][o.N] = stampedRes{specAny(t, o.N, s), sig}
}

// RawPush is a response made of arbitrary resource slots.
type RawPush struct {
	Slots []RawSlot `json:"slots,omitempty"`
	V     string    `json:"v"`              // yes no either: whether it has to be accepted
	Why   string    `json:"why,omitempty"`  // how it was made
	Keys  []string  `json:"keys,omitempty"` // names of the resources, if it has to be accepted
}

// RawSlot is one resource slot.
type RawSlot struct {
	U string `json:"u"`
	B []byte `json:"b,omitempty"`
}

func (p *RawPush) anys() []*anypb.Any {
	var out []*anypb.Any
	for _, s := range p.Slots {
		out = append(out, &anypb.Any{TypeUrl: s.U, Value: s.B})
	}
	return out
}

// raw sends a response of arbitrary content.
func (cp *CP) raw(st *Stream, o *Op) {
	t := typeByName[o.T]
	if st.subs[t] == nil {
		return
	}
	p := &RawPush{}
	if err := json.Unmarshal(o.Raw, p); err != nil {
		panic(err)
	}
	cp.bad++
	r := &Resp{T: t, URL: urlOf[t], Valid: p.V == "yes", Ver: cp.badVersion(t, "raw"), extra: p}
	if r.Valid {
		r.Items, r.Table = map[string]string{}, map[string][]string{}
		for _, n := range p.Keys {
			r.Items[n] = "?"
		}
		if t == NDS {
			nt := &dns.NameTable{}
			if err := proto.Unmarshal(p.Slots[0].B, nt); err != nil {
				panic(err)
			}
			for h, x := range nt.Table {
				r.Table[h] = x.GetIps()
			}
		}
	}
	msg := &discoveryv3.DiscoveryResponse{TypeUrl: urlOf[t], VersionInfo: r.Ver, Resources: p.anys()}
	cp.fired["raw-"+p.V]++
	st.seal(r, msg)
	st.send(r)
}
