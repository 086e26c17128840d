//go:build !race

package rt

import "unsafe"

// RaceBuild reports whether this binary carries the happens-before analyser.
const RaceBuild = false

func raceOff()                      {}
func raceOn()                       {}
func Acquire(p unsafe.Pointer)      {}
func Release(p unsafe.Pointer)      {}
func ReleaseMerge(p unsafe.Pointer) {}

// RaceCount is the number of data races reported so far in this process.
func RaceCount() int { return 0 }
