//go:build race

package vsync

import "runtime"

// Races is the number of data races reported so far.
func Races() int { return runtime.RaceErrors() }

// RaceBuild tells whether the race detector is on.
const RaceBuild = true
