//go:build go1.21

// Package dos stands in for package os in instrumented code: WriteFile goes to the simulated disk.
package dos

import (
	real "os"

	"github.com/kitex-contrib/xds/verifsim/det"
)

// WriteFileHook, if set, receives the write instead of the disk.
var WriteFileHook func(name string, data []byte, perm real.FileMode) error

func WriteFile(name string, data []byte, perm real.FileMode) error {
	det.Yield()
	if h := WriteFileHook; h != nil {
		return h(name, data, perm)
	}
	return real.WriteFile(name, data, perm)
}
