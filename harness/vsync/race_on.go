//go:build race

package vsync

import "runtime"

func raceDisable() { runtime.RaceDisable() }
func raceEnable()  { runtime.RaceEnable() }

// Races returns the number of data races reported so far.
func Races() int { return runtime.RaceErrors() }
