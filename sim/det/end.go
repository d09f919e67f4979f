//go:build go1.21

package det

import "sync/atomic"

// endFlag gives G0 a happens-before edge from every finished task, once the run is over.
var endFlag atomic.Int64

func endRelease() { endFlag.Add(1) }
func endAcquire() { endFlag.Load() }
