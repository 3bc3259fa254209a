//go:build !race

package simrt

// RaceBuild reports whether the race detector is compiled in.
const RaceBuild = false

// RaceErrors is always 0 without the race detector.
func RaceErrors() int { return 0 }
