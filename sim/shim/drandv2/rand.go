//go:build go1.23

// Package drandv2 stands in for package math/rand/v2 in instrumented code: the global source belongs
// to the simulation.
package drandv2

import (
	real "math/rand/v2"

	"github.com/kitex-contrib/xds/verifsim/det"
)

type envSource struct{}

func (envSource) Uint64() uint64 { return det.EnvUint64() }

func g() *real.Rand { return real.New(envSource{}) }

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

// N is a number from the half-open interval [0,n).
func N[Int integer](n Int) Int {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return Int(det.Draw(uint64(n)))
}

func Int() int                           { return g().Int() }
func IntN(n int) int                     { return N(n) }
func Int32() int32                       { return g().Int32() }
func Int32N(n int32) int32               { return N(n) }
func Int64() int64                       { return g().Int64() }
func Int64N(n int64) int64               { return N(n) }
func Uint() uint                         { return uint(g().Uint64()) }
func UintN(n uint) uint                  { return N(n) }
func Uint32() uint32                     { return g().Uint32() }
func Uint32N(n uint32) uint32            { return N(n) }
func Uint64() uint64                     { return g().Uint64() }
func Uint64N(n uint64) uint64            { return N(n) }
func Float32() float32                   { return float32(det.DrawFloat()) }
func Float64() float64                   { return det.DrawFloat() }
func ExpFloat64() float64                { return g().ExpFloat64() }
func NormFloat64() float64               { return g().NormFloat64() }
func Perm(n int) []int                   { return g().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g().Shuffle(n, swap) }
