//go:build go1.21

package det

import "sort"

type reset struct {
	pkg, order int
	f          func()
}

var (
	resets    []reset
	resetPkgs = map[string]int{}
	resetDone bool
)

// OnReset registers a step of the initialisation of a package: a package variable gets its initial
// value, or an init function runs. Packages register in the order of their initialisation.
func OnReset(pkg string, order int, f func()) {
	n, ok := resetPkgs[pkg]
	if !ok {
		n = len(resetPkgs)
		resetPkgs[pkg] = n
	}
	resets = append(resets, reset{n, order, f})
	resetDone = false
}

// Reset has the instrumented packages start anew, as in a new process.
func Reset() {
	if !resetDone {
		sort.SliceStable(resets, func(i, j int) bool {
			a, b := resets[i], resets[j]
			return a.pkg < b.pkg || (a.pkg == b.pkg && a.order < b.order)
		})
		resetDone = true
	}
	for _, r := range resets {
		r.f()
	}
}
