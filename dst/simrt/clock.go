package simrt

import (
	"time"
	"unsafe"
)

// The clock as instrumented code sees it. Time passes as the kernel says; the
// wall clock can be set independently of that.

// SetWall sets the wall clock d seconds forward, or back.
func (k *Kernel) SetWall(d int64) {
	const century = 100 * 365 * 24 * 3600
	if w := k.wall + d; w < century && w > -century {
		k.wall = w
	}
}

// TimeNow stands in for time.Now.
//
//go:norace
func TimeNow() time.Time {
	t := time.Now()
	k := active
	if k == nil {
		return t
	}
	// In a bubble there is no reading of the monotonic clock, which is the one
	// that setting the wall clock does not affect. Outside there is.
	const since1885 = (1970-1885)*365*24*3600 + 20*24*3600
	w := t.Unix() + k.wall + since1885
	if w < 0 || w >= 1<<33 {
		return t.Add(time.Duration(k.wall) * time.Second)
	}
	l := struct {
		wall uint64
		ext  int64
		loc  *time.Location
	}{1<<63 | uint64(w)<<30 | uint64(t.Nanosecond()), k.Now() + 1e9, time.Local}
	return *(*time.Time)(unsafe.Pointer(&l))
}

// TimeSince stands in for time.Since.
//
//go:norace
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }

// TimeUntil stands in for time.Until.
//
//go:norace
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

// TimeSleep stands in for time.Sleep.
//
//go:norace
func TimeSleep(d time.Duration) {
	if k := active; k != nil {
		if k.self() != nil {
			k.Sleep(int64(d))
			return
		}
	}
	time.Sleep(d)
}

// Timer stands in for time.Timer.
type Timer struct {
	C    <-chan time.Time
	real *time.Timer
	k    *Kernel
	fn   func()
	gen  int // the setting in force
	set  bool
}

// NewTimer stands in for time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	r := time.NewTimer(d)
	return &Timer{C: r.C, real: r}
}

// AfterFunc stands in for time.AfterFunc: the function becomes a task.
//
//go:norace
func AfterFunc(d time.Duration, f func()) *Timer {
	k := active
	if k == nil {
		return &Timer{real: time.AfterFunc(d, f)}
	}
	t := &Timer{k: k, fn: f}
	t.start(d)
	return t
}

//go:norace
func (t *Timer) start(d time.Duration) {
	RaceReleaseMerge(unsafe.Pointer(t))
	t.gen++
	t.set = true
	gen, k := t.gen, t.k
	if d < 0 {
		d = 0
	}
	k.evSeq++
	k.push(event{k.Now() + int64(d), k.evSeq, func() { t.fire(gen) }, t})
}

//go:norace
func (t *Timer) fire(gen int) {
	if !t.set || t.gen != gen || t.k != active {
		return
	}
	t.set = false
	t.k.Spawn("go", func() {
		RaceAcquire(unsafe.Pointer(t))
		t.fn()
	})
}

// Stop is Timer.Stop.
//
//go:norace
func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	was := t.set && t.k == active
	t.drop()
	return was
}

// drop removes the pending setting from the kernel, as the runtime does.
//
//go:norace
func (t *Timer) drop() {
	if !t.set {
		return
	}
	t.set = false
	old := t.k.events
	t.k.events = nil
	for i := range old {
		if old[i].t != t {
			t.k.push(old[i])
		}
	}
}

// Reset is Timer.Reset.
//
//go:norace
func (t *Timer) Reset(d time.Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	was := t.set && t.k == active
	t.drop()
	if t.k = active; t.k == nil {
		t.real = time.AfterFunc(d, t.fn)
		return was
	}
	t.start(d)
	return was
}
