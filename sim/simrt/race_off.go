//go:build !race

package simrt

// Race tells that the race detector watches the run.
const Race = false

func raceOff() {}
func raceOn()  {}

// Acquire and Release are the synchronisation of simulated locks.
func Acquire[T any](p *T) {}

// Release publishes what the caller did before.
func Release[T any](p *T) {}
