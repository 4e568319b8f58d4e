//go:build !race

package vrt

import "unsafe"

const RaceBuild = false

func raceOff()                          {}
func raceOn()                           {}
func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}
func RaceErrors() int                   { return 0 }

func RaceOff() {}
func RaceOn()  {}
