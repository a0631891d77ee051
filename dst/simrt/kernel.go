// Package simrt is the simulator's kernel: tasks are goroutines of which one at
// a time runs; a seeded scheduler decides at yield points which; simulated time
// is the clock of the testing/synctest bubble and moves only when nothing can run.
//
// The package is compiled without race instrumentation (see the driver) and
// hides its own hand-offs from the race detector, so under -race the detector
// sees only the happens-before edges the code under test creates itself.
package simrt

import (
	"runtime/debug"
	"testing/synctest"
	"time"
	"unsafe"
)

type state uint8

const (
	stReady state = iota
	stRunning
	stBlocked // waiting for a kernel condition (Wait)
	stSleep   // waiting for simulated time
	stStalled // blocked forever on purpose
	stNative  // blocked in a channel, a timer or the like: it checks in when it goes on
	stDone
)

// Kill is the panic value that unwinds a task the kernel ends.
type Kill struct{ Why string }

// Switch is one non-default scheduling decision. Sub is -1 for a preemption at
// a yield point, otherwise the ordinal of the decision among those caused by a
// blocking or ending task at the same step.
type Switch struct {
	Step int64 `json:"s"`
	Sub  int   `json:"b"`
	Task int   `json:"t"`
}

// Sched says how decisions are made.
type Sched struct {
	Kind     string   `json:"kind"` // seq, rand, pct, explicit
	Seed     uint64   `json:"seed,omitempty"`
	Mean     int      `json:"mean,omitempty"`
	Switches []Switch `json:"switches,omitempty"`
}

// Task is one simulated caller.
type Task struct {
	ID     int
	Name   string
	k      *Kernel
	resume chan struct{}
	st     state
	wakeAt int64
	kill   *Kill
	prio   uint64
	Panic  any
	Stack  string
	hash   uint64
	Events int
	bombAt int64 // step at which the task crashes (0: never)
}

type event struct {
	at  int64
	seq int64
	fn  func()
	t   *Timer // of the library
}

// Kernel is one simulated execution.
type Kernel struct {
	Steps    int64
	next     int64
	StepCap  int64
	TimeCap  int64
	Overrun  string
	tasks    []*Task
	cur      *Task
	last     *Task
	sched    Sched
	rng      Rng
	exPos    int
	yielded  bool // the pending decision was caused by a yield point
	subStep  int64
	subN     int
	slice    int64 // step at which the running task got its turn
	Recorded []Switch
	Switched int
	Decided  int
	start    time.Time
	events   []event
	evSeq    int64
	SimTime  int64
	hash     uint64
	join     int
	begin    int
	pctLeft  int
	poolRng  Rng
	TraceOn  bool
	Trace    []string
	native   bool // some task has blocked natively: who is calling must be looked up
	wakeup   chan struct{}
	held     int // simulated locks held and initialisations under way
	Epoch    int // changes when locks held so far cease to be
	natives  int
	alone    int   // times in a row that only the library waited for time
	ticks    int   // times in all
	Tired    bool  // given up: the library's timers never come to rest
	wall     int64 // seconds the wall clock is off
}

// A run in which time passes for the library alone so many times in a row is
// over, and one in which it does so many times in all is given up.
const (
	maxAlone = 2000
	maxTicks = 50000
)

var active *Kernel

var epochs int

// boot holds the goroutines the library started before any simulation.
var boot []func()

// Active tells whether a simulation is running.
//
//go:norace
func Active() *Kernel { return active }

// New prepares a kernel. It must be called inside a synctest bubble.
func New(s Sched, stepCap int64) *Kernel {
	epochs++
	k := &Kernel{Epoch: epochs, wakeup: make(chan struct{}, 1), sched: s, StepCap: stepCap, TimeCap: int64(10 * 365 * 24 * time.Hour), start: time.Now(), hash: 14695981039346656037}
	k.rng = Rng{S: Mix(s.Seed, 0x5ced)}
	k.poolRng = Rng{S: Mix(s.Seed, 0x9001)}
	k.Recorded = make([]Switch, 0, 64)
	k.tasks = make([]*Task, 0, 64)
	k.subStep = -1
	if s.Kind == "pct" {
		k.pctLeft = s.Mean
	}
	k.setNext()
	return k
}

// fair is the longest a task runs while others could.
const fair = 50000

//go:norace
func (k *Kernel) setNext() {
	n := k.StepCap
	switch k.sched.Kind {
	case "rand":
		n = k.Steps + int64(k.rng.Geo(k.sched.Mean))
	case "pct":
		if k.pctLeft > 0 {
			// change points spread over a random, log-uniform horizon
			n = k.Steps + 1 + int64(k.rng.Next()%(uint64(1)<<uint(1+k.rng.Intn(13))))
		}
	case "explicit":
		for i := k.exPos; i < len(k.sched.Switches); i++ {
			if k.sched.Switches[i].Sub == -1 && k.sched.Switches[i].Step > k.Steps {
				n = k.sched.Switches[i].Step
				break
			}
		}
	}
	if len(k.tasks) > 1 && n > k.slice+fair {
		n = k.slice + fair
	}
	if n > k.StepCap {
		n = k.StepCap
	}
	if k.cur != nil && k.cur.bombAt > 0 && n > k.cur.bombAt {
		n = k.cur.bombAt
	}
	if n <= k.Steps {
		n = k.Steps + 1
	}
	k.next = n
}

// Now is the simulated time in nanoseconds since the start of the run.
//
//go:norace
func (k *Kernel) Now() int64 { return int64(time.Since(k.start)) }

// Spawn adds a task. It starts when the scheduler first picks it.
//
//go:norace
func (k *Kernel) Spawn(name string, fn func()) *Task {
	t := &Task{ID: len(k.tasks), Name: name, k: k, resume: make(chan struct{}), hash: 14695981039346656037}
	t.prio = k.rng.Next()
	k.tasks = add(k.tasks, t)
	go t.main(fn)
	return t
}

//go:norace
func (t *Task) main(fn func()) {
	defer t.end()
	raceHide()
	setLabel(unsafe.Pointer(t))
	raceShow()
	t.wait()
	RaceAcquire(unsafe.Pointer(&t.k.begin))
	fn()
}

//go:norace
func (t *Task) end() {
	if v := recover(); v != nil {
		if _, ok := v.(*Kill); !ok {
			t.Panic = v
			t.Stack = string(debug.Stack())
		}
	}
	if t.st == stNative && t.kill == nil {
		// it went on and ended without meeting a yield point
		t.st = stReady
		t.k.nudge()
		func() {
			defer func() { recover() }()
			t.wait()
		}()
	}
	RaceReleaseMerge(unsafe.Pointer(&t.k.join))
	t.st = stDone
}

// self is the calling task. A task that went on after blocking natively waits
// here for its turn.
//
//go:norace
func (k *Kernel) self() *Task {
	if !k.native {
		return k.cur
	}
	t := (*Task)(getLabel())
	if t == nil || t.k != k {
		return nil
	}
	if t.st == stNative {
		t.st = stReady
		k.nudge()
		t.wait()
	}
	return t
}

//go:norace
func (k *Kernel) nudge() {
	raceHide()
	select {
	case k.wakeup <- struct{}{}:
	default:
	}
	raceShow()
}

// wait parks the calling goroutine until the scheduler picks t.
//
//go:norace
func (t *Task) wait() {
	raceHide()
	<-t.resume
	raceShow()
	t.st = stRunning
	t.k.cur = t
	if t.kill != nil {
		kl := t.kill
		t.kill = nil
		panic(kl)
	}
}

// Limit lets the run take at most so many steps from here on, and puts the
// limit back that was there.
func (k *Kernel) Limit(n int64) (undo func()) {
	was := k.StepCap
	k.StepCap = min(was, k.Steps+n)
	k.setNext()
	return func() {
		k.StepCap = was
		k.setNext()
	}
}

// Y is the yield point the build step puts before every statement.
//
//go:norace
func Y() {
	k := active
	if k == nil {
		return
	}
	if k.native && k.self() == nil {
		return
	}
	k.Steps++
	if k.Steps < k.next {
		return
	}
	k.slow()
}

//go:norace
func (k *Kernel) slow() {
	t := k.cur
	if t == nil {
		return
	}
	if k.Overrun != "" || k.Steps >= k.StepCap {
		if k.Overrun == "" {
			k.Overrun = t.Name
		}
		k.next = k.Steps + 1
		panic(&Kill{"step cap"})
	}
	if t.bombAt > 0 && k.Steps >= t.bombAt {
		if k.held > 0 || NoBombs {
			// half-done updates of shared state would not outlive a real process
			t.bombAt = k.Steps + 1
			k.setNext()
			return
		}
		t.bombAt = 0
		k.setNext()
		panic(&Kill{"crash"})
	}
	if len(k.tasks) == 1 {
		k.setNext()
		return
	}
	k.yielded = true
	t.st = stReady
	t.wait()
}

// NoBombs: the library synchronises in ways the kernel does not see.
var NoBombs bool

// Hold counts simulated locks held (n=1 taken, n=-1 released).
//
//go:norace
func (k *Kernel) Hold(n int) {
	if k.held += n; k.held < 0 {
		k.held = 0
	}
}

// Restart makes all simulated locks held so far cease to be.
//
//go:norace
func (k *Kernel) Restart() {
	epochs++
	k.Epoch = epochs
	k.held = 0
}

// Bomb makes the current task crash (panic with *Kill) n steps from now.
//
//go:norace
func (k *Kernel) Bomb(n int64) {
	if k.cur != nil {
		k.cur.bombAt = k.Steps + n
		k.setNext()
	}
}

// Defuse cancels Bomb.
//
//go:norace
func (k *Kernel) Defuse() {
	if k.cur != nil {
		k.cur.bombAt = 0
	}
}

// Cur is the running task.
//
//go:norace
func (k *Kernel) Cur() *Task { return k.self() }

// Sleep blocks the running task for d nanoseconds of simulated time.
//
//go:norace
func (k *Kernel) Sleep(d int64) {
	if d <= 0 {
		return
	}
	t := k.self()
	t.wakeAt = k.Now() + d
	t.st = stSleep
	t.wait()
}

// Stall blocks the running task until the run is over.
//
//go:norace
func (k *Kernel) Stall() {
	t := k.self()
	t.st = stStalled
	t.wait()
	panic(&Kill{"stalled"})
}

// Block suspends the running task until Wake(t) is called.
//
//go:norace
func (k *Kernel) Block() {
	t := k.self()
	t.st = stBlocked
	t.wait()
}

// Wake makes a blocked task ready.
//
//go:norace
func (k *Kernel) Wake(t *Task) {
	if t.st == stBlocked {
		t.st = stReady
	}
}

// After schedules fn (run by the kernel, no task running) in d nanoseconds.
func (k *Kernel) After(d int64, fn func()) {
	if d < 0 {
		d = 0
	}
	k.evSeq++
	k.push(event{k.Now() + d, k.evSeq, fn, nil})
}

//go:norace
func (k *Kernel) push(e event) {
	// binary heap ordered by (at, seq)
	h := add(k.events, e)
	i := len(h) - 1
	for i > 0 {
		p := (i - 1) / 2
		if !less(h[i], h[p]) {
			break
		}
		h[i], h[p] = h[p], h[i]
		i = p
	}
	k.events = h
}

func less(a, b event) bool { return a.at < b.at || a.at == b.at && a.seq < b.seq }

func (k *Kernel) pop() event {
	h := k.events
	e := h[0]
	n := len(h) - 1
	h[0] = h[n]
	h[n] = event{}
	h = h[:n]
	i := 0
	for {
		c := 2*i + 1
		if c >= n {
			break
		}
		if c+1 < n && less(h[c+1], h[c]) {
			c++
		}
		if !less(h[c], h[i]) {
			break
		}
		h[i], h[c] = h[c], h[i]
		i = c
	}
	k.events = h
	return e
}

//go:norace
func (k *Kernel) pick() *Task {
	// default: go on with the task that ran last, else the lowest ready id
	var def *Task
	n := 0
	for _, t := range k.tasks {
		if t.st == stReady {
			n++
			if def == nil || t == k.last {
				def = t
			}
		}
	}
	if n == 0 {
		return nil
	}
	forced := k.yielded && k.last != nil && k.Steps >= k.slice+fair
	if forced && n > 1 {
		for i := 1; i < len(k.tasks); i++ {
			if t := k.tasks[(k.last.ID+i)%len(k.tasks)]; t.st == stReady {
				def = t
				break
			}
		}
	}
	sub := -1
	if !k.yielded { // caused by a block or an end
		if k.subStep != k.Steps {
			k.subStep, k.subN = k.Steps, 0
		}
		sub = k.subN
		k.subN++
	}
	c := def
	switch k.sched.Kind {
	case "rand":
		if n > 1 {
			i := k.rng.Intn(n)
			for _, t := range k.tasks {
				if t.st == stReady {
					if i == 0 {
						c = t
						break
					}
					i--
				}
			}
		}
	case "pct":
		if sub == -1 && (k.pctLeft > 0 || forced) && k.last != nil {
			if k.pctLeft > 0 {
				k.pctLeft--
			}
			k.last.prio = k.rng.Next() >> 32 // below most others
		}
		for _, t := range k.tasks {
			if t.st == stReady && (c.st != stReady || t.prio > c.prio) {
				c = t
			}
		}
	case "explicit":
		for k.exPos < len(k.sched.Switches) {
			s := k.sched.Switches[k.exPos]
			if s.Step < k.Steps {
				k.exPos++
				continue
			}
			if s.Step == k.Steps && s.Sub == sub {
				k.exPos++
				if s.Task < len(k.tasks) && k.tasks[s.Task].st == stReady {
					c = k.tasks[s.Task]
				}
			}
			break
		}
	}
	k.Decided++
	if c != def {
		k.Recorded = add(k.Recorded, Switch{k.Steps, sub, c.ID})
	}
	if c != k.last && k.last != nil {
		k.Switched++
	}
	if c != k.last || forced {
		k.slice = k.Steps
	}
	k.note(uint64(c.ID)<<32 ^ uint64(k.Steps))
	return c
}

// add is append without the runtime's race checks on the backing array.
//
//go:norace
func add[T any](s []T, v T) []T {
	if len(s) == cap(s) {
		n := make([]T, len(s), 2*cap(s)+16)
		for i := range s {
			n[i] = s[i]
		}
		s = n
	}
	s = s[:len(s)+1]
	s[len(s)-1] = v
	return s
}

// lib: a goroutine of the library.
//
//go:norace
func (t *Task) lib() bool { return t.Name == "go" }

//go:norace
func (k *Kernel) libEvents() int {
	n := 0
	for i := range k.events {
		if k.events[i].t != nil {
			n++
		}
	}
	return n
}

// envLater: something besides the library happens at a later time.
//
//go:norace
func (k *Kernel) envLater() bool {
	if len(k.events) != k.libEvents() {
		return true
	}
	for _, t := range k.tasks {
		if t.st == stSleep && !t.lib() {
			return true
		}
	}
	return false
}

//go:norace
func (k *Kernel) note(v uint64) { k.hash = (k.hash ^ v) * 1099511628211 }

// Outcome of Run.
type Outcome struct {
	Stuck   []*Task // tasks that can never finish, stalled ones not included
	Stalled []*Task
	Native  bool // something is blocked outside the kernel's control
	Natives int  // times a task blocked in a channel or the like
}

// Run executes the simulation until no task can run any more.
func (k *Kernel) Run() Outcome {
	globalsIn()
	RaceReleaseMerge(unsafe.Pointer(&k.begin))
	raceHide()
	active = k
	for _, f := range boot {
		k.Spawn("go", f)
	}
	idle := 0
loop:
	for {
		now := k.Now()
		for len(k.events) > 0 && k.events[0].at <= now {
			e := k.pop()
			e.fn()
		}
		for _, t := range k.tasks {
			if t.st == stSleep && t.wakeAt <= now {
				t.st = stReady
			}
		}
		t := k.pick()
		if t == nil {
			next, env := int64(-1), false
			if len(k.events) > 0 {
				next, env = k.events[0].at, k.events[0].t == nil
			}
			native, callers := false, 0
			for _, t := range k.tasks {
				if t.st == stSleep && (next < 0 || t.wakeAt < next) {
					next, env = t.wakeAt, !t.lib()
				}
				if t.st == stNative {
					native = true
				}
				if !t.lib() && t.st != stDone && t.st != stStalled {
					callers++
				}
			}
			if next >= 0 && !env {
				// only the library waits for that time
				if callers == 0 && len(k.events) == k.libEvents() {
					next = -1
				} else if k.alone++; k.alone > maxAlone && !k.envLater() {
					next = -1
				} else if k.ticks++; k.ticks > maxTicks {
					k.Tired = true
					next = -1
				}
			}
			if next < 0 && native && idle < 3 && k.alone <= maxAlone && (callers > 0 || k.alone <= 16) && !k.Tired {
				// a task waits for something outside the kernel, perhaps a timer
				next = now + []int64{1, 30 * 24, 300 * 24}[idle]*int64(time.Hour)
				idle++
			}
			if next < 0 || next > k.TimeCap {
				break
			}
			if native {
				tm := time.NewTimer(time.Duration(next - now))
				select {
				case <-tm.C:
				case <-k.wakeup:
					tm.Stop()
					k.alone++
					if k.ticks++; k.ticks > maxTicks {
						k.Tired = true
					}
				}
				synctest.Wait()
				if k.Tired {
					break loop
				}
			} else {
				time.Sleep(time.Duration(next - now))
			}
			continue
		}
		if !t.lib() {
			idle, k.alone = 0, 0
		}
		k.last = t
		k.cur = t
		k.yielded = false
		k.setNext()
		t.resume <- struct{}{}
		synctest.Wait()
		k.cur = nil
		if t.st == stRunning {
			t.st = stNative
			k.native = true
			k.natives++
		}
		if k.Overrun != "" {
			if t.lib() && k.ticks > 100 {
				k.Overrun, k.Tired = "", true
			}
			break
		}
	}
	k.SimTime = k.Now()
	o := Outcome{Natives: k.natives}
	for _, t := range k.tasks {
		switch t.st {
		case stDone:
		case stStalled:
			o.Stalled = append(o.Stalled, t)
		case stRunning, stNative:
			o.Stuck = append(o.Stuck, t)
		default:
			o.Stuck = append(o.Stuck, t)
		}
	}
	// goroutines of the library that wait for a timer may come back and be ended
	for _, d := range []time.Duration{time.Second, time.Minute, time.Hour, 30 * 24 * time.Hour} {
		n := 0
		for _, t := range k.tasks {
			if t.st == stNative && t.lib() {
				n++
			}
		}
		if n == 0 {
			break
		}
		time.Sleep(d)
		synctest.Wait()
	}
	// unwind what is left
	for _, t := range k.tasks {
		for i := 0; i < 1000 && t.st != stDone && t.st != stRunning && t.st != stNative; i++ {
			t.kill = &Kill{"end of run"}
			k.next = 1 << 62
			k.cur = t
			t.resume <- struct{}{}
			synctest.Wait()
			if t.st == stRunning {
				t.st = stNative
				k.native = true
			}
		}
		if t.st == stNative {
			o.Native = true
		}
	}
	active = nil
	raceShow()
	RaceAcquire(unsafe.Pointer(&k.join))
	if !o.Native {
		globalsOut()
	}
	return o
}

// Ev records an observable event of the running task: it goes into the run's
// hash and, when tracing, into the trace. Nothing is drawn from the generator
// and no clock but the simulated one is read.
//
//go:norace
func (k *Kernel) Ev(name string, a, b int64, data []byte, extra string) {
	t := k.self()
	h := HashString(name)
	h = (h ^ uint64(a)) * 1099511628211
	h = (h ^ uint64(b)) * 1099511628211
	for i := 0; i < len(data); i++ {
		h = (h ^ uint64(data[i])) * 1099511628211
	}
	h = (h ^ HashString(extra)) * 1099511628211
	if t == nil {
		k.note(h)
	} else {
		t.Events++
		t.hash = (t.hash ^ h) * 1099511628211
	}
	if k.TraceOn {
		who := "-"
		if t != nil {
			who = t.Name
		}
		s := "t=" + itoa(k.Now()) + " step=" + itoa(k.Steps) + " " + who + ": " + name + " " + itoa(a) + " " + itoa(b)
		if data != nil {
			s += " " + hex(data)
		}
		if extra != "" {
			s += " " + extra
		}
		k.Trace = add(k.Trace, s)
	}
}

//go:norace
func hex(b []byte) string {
	const d = "0123456789abcdef"
	n := len(b)
	if n > 48 {
		n = 48
	}
	o := make([]byte, 0, 2*n+3)
	o = o[:2*n]
	for i := 0; i < n; i++ {
		o[2*i] = d[b[i]>>4]
		o[2*i+1] = d[b[i]&15]
	}
	s := string(o)
	if n < len(b) {
		s += "..."
	}
	return s
}

func itoa(n int64) string {
	if n == 0 {
		return "0"
	}
	var b [24]byte
	i := len(b)
	neg := n < 0
	if neg {
		n = -n
	}
	for n > 0 {
		i--
		b[i] = byte('0' + n%10)
		n /= 10
	}
	if neg {
		i--
		b[i] = '-'
	}
	return string(b[i:])
}

// SwapHash replaces the hash over what the task observed and returns it.
func (t *Task) SwapHash(h uint64) uint64 {
	o := t.hash
	t.hash = h
	return o
}

// Hash identifies the execution: all decisions and observable events.
func (k *Kernel) Hash() uint64 {
	h := k.hash ^ uint64(k.SimTime)
	for _, t := range k.tasks {
		h = (h ^ t.hash) * 1099511628211
	}
	return h
}

// ObsHash identifies what the tasks observed, whatever the schedule was.
func (k *Kernel) ObsHash() uint64 {
	h := uint64(14695981039346656037)
	for _, t := range k.tasks {
		h = (h ^ t.hash) * 1099511628211
	}
	return h
}

// Tasks lists the tasks.
func (k *Kernel) Tasks() []*Task { return k.tasks }

// LiveGo counts the library's goroutines that have not ended.
func (k *Kernel) LiveGo() int {
	n := 0
	for _, t := range k.tasks {
		if t.Name == "go" && t.st != stDone {
			n++
		}
	}
	return n
}

// PoolP decides whether a simulated sync.Pool forgets an item.
//
//go:norace
func (k *Kernel) PoolP(num, den int) bool { return k.poolRng.P(num, den) }
