package simrt

import (
	"reflect"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"unsafe"
)

// Finalizers as instrumented code sees them: what the collector found
// unreachable waits here until the simulator lets it be finalized, in tasks.

type finalizer struct {
	k   *Kernel
	seq int
	run func()
}

var (
	finMu  sync.Mutex
	finDue []*finalizer
	finSeq int
	finSet bool
)

// SetFinalizer stands in for runtime.SetFinalizer.
//
//go:norace
func SetFinalizer(obj, fn any) {
	k := active
	f := reflect.ValueOf(fn)
	if k == nil || fn == nil || f.Kind() != reflect.Func || f.Type().NumIn() != 1 || f.Type().IsVariadic() {
		runtime.SetFinalizer(obj, fn)
		return
	}
	finSet = true
	finSeq++
	seq := finSeq
	t := reflect.FuncOf([]reflect.Type{f.Type().In(0)}, nil, false)
	w := reflect.MakeFunc(t, func(args []reflect.Value) []reflect.Value {
		finMu.Lock()
		finDue = append(finDue, &finalizer{k, seq, func() { f.Call(args) }})
		finMu.Unlock()
		return nil
	})
	RaceReleaseMerge(unsafe.Pointer(&finSet))
	runtime.SetFinalizer(obj, w.Interface())
}

type canary struct{ b [64]byte }

// Collect collects garbage and lets everything that is found unreachable be
// finalized.
//
//go:norace
func (k *Kernel) Collect() {
	raceHide()
	for round := 0; round < 2; round++ {
		runtime.GC()
		if !finSet {
			continue
		}
		// finalizers run one after another
		var done atomic.Bool
		func() { runtime.SetFinalizer(&canary{}, func(*canary) { done.Store(true) }) }()
		for i := 0; i < 3 && !done.Load(); i++ {
			runtime.GC()
			for n := 0; n < 200000 && !done.Load(); n++ {
				runtime.Gosched()
			}
		}
	}
	finMu.Lock()
	due := finDue
	finDue = nil
	finMu.Unlock()
	raceShow()
	sort.Slice(due, func(i, j int) bool { return due[i].seq < due[j].seq })
	for _, f := range due {
		if f.k != k {
			continue
		}
		run := f.run
		k.Spawn("go", func() {
			RaceAcquire(unsafe.Pointer(&finSet))
			run()
		})
	}
}
