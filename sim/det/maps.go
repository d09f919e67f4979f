//go:build go1.21

package det

import (
	"fmt"
	"sort"
)

// Keys returns the keys of m in an order the simulation decides: canonical order, then shuffled
// from the environment source. Rewritten range statements iterate over it.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	if len(m) == 0 {
		return nil
	}
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) == 1 {
		return ks
	}
	sortKeys(ks)
	for i := len(ks) - 1; i > 0; i-- {
		j := EnvIntn(i + 1)
		ks[i], ks[j] = ks[j], ks[i]
	}
	return ks
}

func sortKeys[K comparable](ks []K) {
	switch x := any(ks).(type) {
	case []string:
		sort.Strings(x)
		return
	case []int:
		sort.Ints(x)
		return
	}
	strs := make([]string, len(ks))
	idx := make([]int, len(ks))
	for i, k := range ks {
		strs[i] = fmt.Sprintf("%020v", k)
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return strs[idx[a]] < strs[idx[b]] })
	out := make([]K, len(ks))
	for i, j := range idx {
		out[i] = ks[j]
	}
	copy(ks, out)
}

// Zero returns zero values of the key and element types of m.
func Zero[M ~map[K]V, K comparable, V any](m M) (k K, v V) { return }

// DrawHook, if set, decides the bounded random draws of the code under test (n is the bound).
var DrawHook func(n uint64) (uint64, bool)

// Draw is a random draw from [0,n).
func Draw(n uint64) uint64 {
	if h := DrawHook; h != nil {
		if v, ok := h(n); ok {
			return v
		}
	}
	return EnvUint64() % n
}

// FloatHook, if set, decides the random floats of the code under test.
var FloatHook func() (float64, bool)

// DrawFloat is a random draw from [0,1).
func DrawFloat() float64 {
	if h := FloatHook; h != nil {
		if v, ok := h(); ok {
			return v
		}
	}
	return float64(EnvUint64()>>11) / (1 << 53)
}

// Gosched stands in for runtime.Gosched.
func Gosched(func() int) { Yield() }
