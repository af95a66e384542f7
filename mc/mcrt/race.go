//go:build race

package mcrt

import "runtime"

// Races is the number of data races detected so far; Detector tells whether
// races are detected at all.
func Races() int { return runtime.RaceErrors() }

// Detector tells whether the race detector is built in.
const Detector = true
