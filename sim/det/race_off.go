//go:build !race

package det

// RaceBuild reports whether the race detector is compiled in.
const RaceBuild = false

func raceDisable() {}
func raceEnable()  {}

// RaceErrors is the number of data races reported so far in this process.
func RaceErrors() int { return 0 }
