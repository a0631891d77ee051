package simrt

import (
	_ "runtime/pprof"
	"unsafe"
)

// The goroutine's profiler label tells which task it is.

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(p unsafe.Pointer)

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer
