//go:build go1.21

// Package dgopool stands in for bytedance/gopkg gopool in instrumented code: every function gets a
// task of the simulation.
package dgopool

import (
	"context"

	"github.com/kitex-contrib/xds/verifsim/det"
)

var onPanic func(context.Context, interface{})

func SetCap(int32) {}

func SetPanicHandler(f func(context.Context, interface{})) { onPanic = f }

func WorkerCount() int32 { return 0 }

func Go(f func()) { CtxGo(context.Background(), f) }

func CtxGo(ctx context.Context, f func()) {
	det.Go(func() {
		defer func() {
			// the real one logs it and goes on
			if r := recover(); r != nil && onPanic != nil {
				onPanic(ctx, r)
			}
		}()
		f()
	})
}
