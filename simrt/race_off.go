//go:build !race

package simrt

import "unsafe"

// RaceEnabled tells whether this build carries the race detector.
const RaceEnabled = false

func raceDisable() {}
func raceEnable()  {}

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return 0 }

func raceAcquire(p unsafe.Pointer)      {}
func raceRelease(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}
