//go:build !race

package vsync

func raceDisable() {}
func raceEnable()  {}

// Races returns the number of data races reported so far.
func Races() int { return 0 }
