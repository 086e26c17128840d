//go:build race

package rt

import (
	"runtime"
	"unsafe"
)

// RaceBuild reports whether this binary carries the happens-before analyser.
const RaceBuild = true

//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }

// Acquire, Release and ReleaseMerge record simulated synchronisation for the
// happens-before analyser (the scheduler's own hand-over is hidden from it).
//
//go:norace
func Acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func Release(p unsafe.Pointer) { runtime.RaceRelease(p) }

//go:norace
func ReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceCount is the number of data races reported so far in this process.
func RaceCount() int { return runtime.RaceErrors() }
