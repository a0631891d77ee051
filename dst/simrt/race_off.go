//go:build !race

package simrt

import "unsafe"

// RaceBuild says whether the race detector is compiled in.
const RaceBuild = false

func raceHide()                         {}
func raceShow()                         {}
func RaceErrors() int                   { return 0 }
func RaceAcquire(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}
