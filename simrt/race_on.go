//go:build race

package simrt

import "runtime"

// RaceBuild reports whether the race detector is compiled in.
const RaceBuild = true

// RaceErrors is the number of races reported so far in this process.
func RaceErrors() int { return runtime.RaceErrors() }
