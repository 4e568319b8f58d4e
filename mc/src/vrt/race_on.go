//go:build race

package vrt

import (
	"runtime"
	"unsafe"
)

// RaceBuild reports whether this binary carries the race detector.
const RaceBuild = true

// The scheduler's own hand-offs must not look like synchronisation of the
// program under test, otherwise they would order (and so hide) its races.
func raceOff()                     { runtime.RaceDisable() }
func raceOn()                      { runtime.RaceEnable() }
func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer) { runtime.RaceRelease(p) }
func RaceReleaseMerge(p unsafe.Pointer) {
	runtime.RaceReleaseMerge(p)
}
func RaceErrors() int { return runtime.RaceErrors() }

// RaceOff and RaceOn hide the shims' own bookkeeping from the race detector.
func RaceOff() { runtime.RaceDisable() }
func RaceOn()  { runtime.RaceEnable() }
