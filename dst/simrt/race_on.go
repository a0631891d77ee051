//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// RaceBuild says whether the race detector is compiled in.
const RaceBuild = true

func raceHide()                         { runtime.RaceDisable() }
func raceShow()                         { runtime.RaceEnable() }
func RaceErrors() int                   { return runtime.RaceErrors() }
func RaceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
