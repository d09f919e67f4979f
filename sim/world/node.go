//go:build go1.21

package world

import (
	"google.golang.org/protobuf/types/known/structpb"
)

// nodeID spells out the documented identity.
func nodeID(ip, name, ns, domain string) string {
	if domain == "" {
		domain = "cluster.local"
	}
	return "sidecar~" + ip + "~" + name + "." + ns + "~" + ns + ".svc." + domain
}

func wantMeta(c *Cfg) *structpb.Struct {
	str := func(s string) *structpb.Value { return structpb.NewStringValue(s) }
	if c.MetaNS != "" {
		return &structpb.Struct{Fields: map[string]*structpb.Value{"NAMESPACE": str(c.MetaNS), "LABEL": str("x")}}
	}
	return &structpb.Struct{Fields: map[string]*structpb.Value{"ISTIO_VERSION": str("1.13.5")}}
}
