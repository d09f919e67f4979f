//go:build go1.21

package world

import (
	"encoding/json"
	"fmt"

	"github.com/kitex-contrib/xds/verifsim/det"
)

// Plan is one simulated run, fully determined: configuration, workload, faults and schedule source.
type Plan struct {
	World    string          `json:"world"`
	Prop     string          `json:"prop"`
	Cfg      Cfg             `json:"cfg"`
	Ops      []Op            `json:"ops"`
	Boot     []Op            `json:"boot,omitempty"` // faults during start-up
	Seed     int64           `json:"seed"`           // schedule
	Env      int64           `json:"env"`            // map orders, random draws, control-plane delays
	Pol      det.Policy      `json:"policy"`
	Replay   []int32         `json:"schedule,omitempty"` // recorded scheduling choices
	Replayed bool            `json:"replayed,omitempty"`
	Extra    json.RawMessage `json:"extra,omitempty"`
}

// Cfg is the configuration part of a plan.
type Cfg struct {
	Conc      bool              `json:"conc,omitempty"` // several things at one instant, time may lag
	NDSOff    bool              `json:"nds_off,omitempty"`
	LDSOff    bool              `json:"lds_off,omitempty"`
	FetchMS   int               `json:"fetch_ms"`
	NS        string            `json:"ns"`
	Domain    string            `json:"domain"`
	MetaNS    string            `json:"meta_ns,omitempty"`
	Auto      map[string]string `json:"auto"`             // type name -> full|subs|none
	Strict    bool              `json:"strict,omitempty"` // requests with stale nonces are ignored
	ProcMax   int64             `json:"proc_max"`         // control-plane processing delay
	NetMax    int64             `json:"net_max"`          // delivery delay
	DropInbox bool              `json:"drop_inbox,omitempty"`
	Handlers  int               `json:"handlers,omitempty"`
	Tail      int64             `json:"tail,omitempty"` // quiet time before the closing phase
	SamePush  bool              `json:"same_push,omitempty"`
	NoFinal   bool              `json:"no_final,omitempty"`
	FetchDef  bool              `json:"fetch_def,omitempty"` // the fetch timeout is left to its default, 1 s
	Vers      string            `json:"vers,omitempty"`      // how versions look: "" per revision, const, none, cycle, down
	Nonces    string            `json:"nonces,omitempty"`    // how nonces look: "" unique, stream (count from 1 on each), opaque
}

// Op is one step of the workload or one fault.
type Op struct {
	K     string              `json:"k"`
	A     int                 `json:"a,omitempty"`   // actor (0: the coordinator)
	Gap   int64               `json:"gap,omitempty"` // wait before the op
	T     string              `json:"t,omitempty"`
	N     string              `json:"n,omitempty"`
	V     int                 `json:"v,omitempty"`
	Dl    int64               `json:"dl,omitempty"` // caller deadline
	Cn    int64               `json:"cn,omitempty"` // caller cancels after
	X     string              `json:"x,omitempty"`  // kind of fault / corruption
	Names []string            `json:"names,omitempty"`
	D     int64               `json:"d,omitempty"`
	C     int                 `json:"c,omitempty"`
	Table map[string][]string `json:"table,omitempty"`
	Raw   json.RawMessage     `json:"raw,omitempty"`
	stamp int
}

func opString(o *Op) string {
	b, _ := json.Marshal(o)
	return string(b)
}

var typeByName = map[string]RType{"lds": LDS, "rds": RDS, "cds": CDS, "eds": EDS, "nds": NDS, "bad": 99, "unk": xUnknown}

const xUnknown RType = 0

var shortName = map[RType]string{LDS: "lds", RDS: "rds", CDS: "cds", EDS: "eds", NDS: "nds"}

func (p *Plan) clone() *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(fmt.Sprint("plan: ", err))
	}
	return q
}
