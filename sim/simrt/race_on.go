//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// Race tells that the race detector watches the run. The simulator itself is not
// instrumented, and its hand-over of the processor does not count as synchronisation:
// only what the code under test does to synchronise orders accesses.
const Race = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

// Acquire and Release are the synchronisation of simulated locks.
func Acquire[T any](p *T) { runtime.RaceAcquire(unsafe.Pointer(p)) }

// Release publishes what the caller did before.
func Release[T any](p *T) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
