//go:build go1.23

// Package dmaps stands in for package maps in instrumented code: the order of an iteration belongs to
// the simulation.
package dmaps

import (
	"iter"
	real "maps"

	"github.com/kitex-contrib/xds/verifsim/det"
)

func All[Map ~map[K]V, K comparable, V any](m Map) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range det.Keys(m) {
			if v, ok := m[k]; ok && !yield(k, v) {
				return
			}
		}
	}
}

func Keys[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range All(m) {
			if !yield(k) {
				return
			}
		}
	}
}

func Values[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range All(m) {
			if !yield(v) {
				return
			}
		}
	}
}

func Insert[Map ~map[K]V, K comparable, V any](m Map, seq iter.Seq2[K, V]) { real.Insert(m, seq) }

func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V { return real.Collect(seq) }

func Equal[M1, M2 ~map[K]V, K, V comparable](m1 M1, m2 M2) bool { return real.Equal(m1, m2) }

func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](m1 M1, m2 M2, eq func(V1, V2) bool) bool {
	for _, k := range det.Keys(m1) {
		if v2, ok := m2[k]; !ok || !eq(m1[k], v2) {
			return false
		}
	}
	return len(m1) == len(m2)
}

func Clone[M ~map[K]V, K comparable, V any](m M) M { return real.Clone(m) }

func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) { real.Copy(dst, src) }

func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for _, k := range det.Keys(m) {
		if v, ok := m[k]; ok && del(k, v) {
			delete(m, k)
		}
	}
}
