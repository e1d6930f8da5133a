//go:build !race

package sim

import "unsafe"

// RaceBuild reports whether the race detector observes the run.
const RaceBuild = false

func raceDisable() {}
func raceEnable()  {}
func raceJoin()    {}
func raceTaskEnd() {}

// RaceErrors returns the number of races found so far.
func RaceErrors() int { return 0 }

// Acquire and ReleaseMerge tell the race detector about simulated locks.
func Acquire(p unsafe.Pointer)      {}
func Release(p unsafe.Pointer)      {}
func ReleaseMerge(p unsafe.Pointer) {}
