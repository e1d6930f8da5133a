//go:build race

package sim

import (
	"runtime"
	"unsafe"
)

// RaceBuild reports whether the race detector observes the run.
const RaceBuild = true

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

var joinSync int

// raceJoin orders everything the tasks did before what follows.
func raceJoin() { runtime.RaceAcquire(unsafe.Pointer(&joinSync)) }

// RaceJoinRelease is called by every task as its last action.
func raceTaskEnd() { runtime.RaceReleaseMerge(unsafe.Pointer(&joinSync)) }

// RaceErrors returns the number of races found so far.
func RaceErrors() int { return runtime.RaceErrors() }

// Acquire and ReleaseMerge tell the race detector about simulated locks.
func Acquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func ReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
