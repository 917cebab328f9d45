//go:build !race

package simrt

import "unsafe"

// RaceBuild tells whether the race detector is compiled in.
const RaceBuild = false

func raceOff() {}
func raceOn()  {}

// RaceAcquire and friends annotate the simulated synchronisation primitives.
func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}

// RaceErrors is the number of races reported so far.
func RaceErrors() int { return 0 }
