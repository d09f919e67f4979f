//go:build go1.21

package world

import (
	"fmt"
	"strings"

	"github.com/kitex-contrib/xds/verifsim/det"
)

// Ev is one entry of the recorded history, in execution order.
type Ev struct {
	Seq, At, Lag int64
	K            string // open openfail broken closed send void recv recvcall recverr inv ret hstart hend dump op sweep cancel
	Stream       int
	T            RType
	URL          string
	Nonce        string
	Ver          string
	Names        []string
	Err          string // error_detail of a request, error of a result
	ErrCode      int32
	Node         string
	Resp         *Resp
	L            *Lookup
	H            int // handler number
	Sigs         map[string]string
	Op           *Op
	Tables       map[string]map[string]string // dump: type -> name -> ""
	X            any                          // events of the suite world
}

// Resp is a response the control plane put on a stream.
type Resp struct {
	ID     int
	T      RType // 0: unknown type URL
	URL    string
	Nonce  string
	Ver    string
	Valid  bool
	Items  map[string]string // resource name -> content
	Table  map[string][]string
	Stream int
	bytes  []byte
	unsol  bool // of a type never requested on the stream
	extra  any
}

// Lookup is one call of the manager's Get.
type Lookup struct {
	ID       int
	T        RType
	N        string
	Inv, Ret int64
	InvAt    int64
	RetAt    int64
	InvLag   int64
	RetLag   int64
	Deadline int64 // caller's own limit, relative to InvAt (0: none)
	CancelAt int64 // when the caller cancelled (0: not)
	CancelSq int64
	Done     bool
	Sig      string // content of the value, "" if none
	Err      string
	Probe    bool
	Post     bool // part of the closing phase
	Snap     []int64
}

// History of one run.
type History struct {
	Evs     []*Ev
	Lookups []*Lookup
	Probes  map[string]int
}

//go:norace
func (h *History) add(e *Ev) *Ev {
	e.Seq = det.Seq()
	e.At = det.Nanos()
	e.Lag = det.LagNanos()
	n := len(h.Evs)
	if n == cap(h.Evs) {
		ne := make([]*Ev, n, 2*n+64)
		for i := 0; i < n; i++ {
			ne[i] = h.Evs[i]
		}
		h.Evs = ne
	}
	h.Evs = h.Evs[:n+1]
	h.Evs[n] = e
	return e
}

func (h *History) probe(name string) {
	h.Probes[name]++
}

func (e *Ev) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "#%d t=%d.%09d %s", e.Seq, e.At/1e9, e.At%1e9, e.K)
	switch e.K {
	case "send", "void":
		fmt.Fprintf(&b, " stream=%d type=%s names=%q ver=%q nonce=%q", e.Stream, typeName[e.T], e.Names, e.Ver, e.Nonce)
		if e.Err != "" || e.ErrCode != 0 {
			fmt.Fprintf(&b, " error_detail=%q", firstN(e.Err, 80))
		}
	case "recv":
		r := e.Resp
		fmt.Fprintf(&b, " stream=%d type=%s ver=%q nonce=%q valid=%v items=%v", e.Stream, typeName[r.T], r.Ver, r.Nonce, r.Valid, r.Items)
		if r.T == NDS {
			fmt.Fprintf(&b, " table=%v", r.Table)
		}
		if r.T == 0 {
			fmt.Fprintf(&b, " url=%s", r.URL)
		}
	case "inv", "ret", "cancel":
		l := e.L
		fmt.Fprintf(&b, " lookup=%d %s/%q", l.ID, typeName[l.T], l.N)
		if e.K == "ret" {
			fmt.Fprintf(&b, " -> value=%q err=%q", l.Sig, firstN(l.Err, 90))
		}
	case "hstart", "hend":
		fmt.Fprintf(&b, " handler=%d %s %v", e.H, typeName[e.T], e.Sigs)
	case "dump":
		fmt.Fprintf(&b, " %v err=%s", e.Tables, e.Err)
	case "op":
		fmt.Fprintf(&b, " %s", opString(e.Op))
	default:
		fmt.Fprintf(&b, " stream=%d %s", e.Stream, e.Err)
	}
	return b.String()
}

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
