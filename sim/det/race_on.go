//go:build race

package det

import "runtime"

// RaceBuild reports whether the race detector is compiled in.
const RaceBuild = true

func raceDisable() { runtime.RaceDisable() }
func raceEnable()  { runtime.RaceEnable() }

// RaceErrors is the number of data races reported so far in this process.
func RaceErrors() int { return runtime.RaceErrors() }
