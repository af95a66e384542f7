//go:build !race

package mcrt

// Races is the number of data races detected so far.
func Races() int { return 0 }

// Detector tells whether the race detector is built in.
const Detector = false
