//go:build go1.21

// Package dfastrand stands in for bytedance/gopkg fastrand in instrumented code: every draw comes
// from the simulation.
package dfastrand

import (
	"math/rand"

	"github.com/kitex-contrib/xds/verifsim/det"
)

type envSource struct{}

func (envSource) Int63() int64   { return int64(det.EnvUint64() >> 1) }
func (envSource) Uint64() uint64 { return det.EnvUint64() }
func (envSource) Seed(int64)     {}

func bound(n int64, f string) uint64 {
	if n <= 0 {
		panic("invalid argument to " + f)
	}
	return uint64(n)
}

func Uint64() uint64                     { return det.EnvUint64() }
func Uint32() uint32                     { return uint32(det.EnvUint64() >> 32) }
func Int() int                           { return int(det.EnvUint64() >> 1) }
func Int31() int32                       { return int32(det.EnvUint64() >> 33) }
func Int63() int64                       { return int64(det.EnvUint64() >> 1) }
func Int63n(n int64) int64               { return int64(det.Draw(bound(n, "Int63n"))) }
func Int31n(n int32) int32               { return int32(det.Draw(bound(int64(n), "Int31n"))) }
func Intn(n int) int                     { return int(det.Draw(bound(int64(n), "Intn"))) }
func Uint32n(n uint32) uint32            { return uint32(drawU(uint64(n))) }
func Uint64n(n uint64) uint64            { return drawU(n) }
func Float64() float64                   { return det.DrawFloat() }
func Float32() float32                   { return float32(det.DrawFloat()) }
func Perm(n int) []int                   { return rand.New(envSource{}).Perm(n) }
func Read(p []byte) (int, error)         { return rand.New(envSource{}).Read(p) }
func Shuffle(n int, swap func(i, j int)) { rand.New(envSource{}).Shuffle(n, swap) }

func drawU(n uint64) uint64 {
	if n == 0 {
		return 0
	}
	return det.Draw(n)
}
