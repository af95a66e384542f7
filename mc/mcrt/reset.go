package mcrt

var resets []func()

// OnReset registers a function that puts a package's variables back to what
// they were when the program started.
func OnReset(f func()) { resets = append(resets, f) }

// Reset puts all package variables of the instrumented code back.
func Reset() {
	for _, f := range resets {
		f()
	}
}

// Active tells whether this is an instrumented build.
func Active() bool { return len(resets) > 0 }
