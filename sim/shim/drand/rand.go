//go:build go1.21

// Package drand stands in for package math/rand in instrumented code: the global source belongs to
// the simulation.
package drand

import (
	real "math/rand"

	"github.com/kitex-contrib/xds/verifsim/det"
)

type envSource struct{}

func (envSource) Int63() int64    { return int64(det.EnvUint64() >> 1) }
func (envSource) Uint64() uint64  { return det.EnvUint64() }
func (envSource) Seed(seed int64) {}

// ownSource is a source the code made for itself: as in package math/rand it has a state that only
// one goroutine may use at a time. Its numbers come from the simulation.
type ownSource struct{ n int64 }

func (s *ownSource) Int63() int64 { s.n++; return int64(det.EnvUint64() >> 1) }
func (s *ownSource) Uint64() uint64 {
	s.n++
	return det.EnvUint64()
}
func (s *ownSource) Seed(seed int64) { s.n = seed }

func g() *real.Rand { return real.New(envSource{}) }

func Seed(int64)                         {}
func NewSource(int64) real.Source        { return &ownSource{} }
func Int() int                           { return g().Int() }
func Intn(n int) int                     { return int(det.Draw(uint64(bound(int64(n))))) }
func Int31() int32                       { return g().Int31() }
func Int31n(n int32) int32               { return int32(det.Draw(uint64(bound(int64(n))))) }
func Int63() int64                       { return g().Int63() }
func Int63n(n int64) int64               { return int64(det.Draw(uint64(bound(n)))) }
func Uint32() uint32                     { return g().Uint32() }
func Uint64() uint64                     { return g().Uint64() }
func Float32() float32                   { return float32(det.DrawFloat()) }
func Float64() float64                   { return det.DrawFloat() }
func ExpFloat64() float64                { return g().ExpFloat64() }
func NormFloat64() float64               { return g().NormFloat64() }
func Perm(n int) []int                   { return g().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g().Shuffle(n, swap) }
func Read(p []byte) (int, error)         { return g().Read(p) }

func bound(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return n
}
