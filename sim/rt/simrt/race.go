//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// RaceBuild tells whether the race detector is compiled in.
const RaceBuild = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

// RaceAcquire and friends annotate the simulated synchronisation primitives.
func RaceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceErrors is the number of races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
