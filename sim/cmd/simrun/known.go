//go:build go1.21

package main

import (
	"bufio"
	"os"
	"strings"

	"github.com/kitex-contrib/xds/verifsim/world"
)

// The known-findings file has lines
//
//	finding: property=<id> class=<class> match=<text of the message> :: <what fails>
//	fixed: property=<id> <commit> <what failed>
type knownFinding struct{ prop, class, match, text string }

type knownList []knownFinding

func loadKnown(path string) knownList {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out knownList
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		head, text, _ := strings.Cut(strings.TrimPrefix(l, "finding: "), " :: ")
		k := knownFinding{text: text}
		head, m, ok := strings.Cut(head, " match=")
		if ok {
			k.match = m
		}
		for _, f := range strings.Fields(head) {
			if v, ok := strings.CutPrefix(f, "property="); ok {
				k.prop = v
			}
			if v, ok := strings.CutPrefix(f, "class="); ok {
				k.class = v
			}
		}
		out = append(out, k)
	}
	return out
}

func (l knownList) match(v world.Viol) string {
	for _, k := range l {
		if k.prop == v.Prop && k.class == v.Class && strings.Contains(v.Msg, k.match) {
			return k.text
		}
	}
	return ""
}
