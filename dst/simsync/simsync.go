// Package simsync replaces package sync in the instrumented code: the same
// types, blocking in the simulator's kernel. Outside a simulation (package
// initialisation) nothing ever blocks.
package simsync

import (
	"unsafe"
	"weak"

	"verif.local/dst/simrt"
)

type Locker interface {
	Lock()
	Unlock()
}

type waitq struct{ w []*simrt.Task }

// stale tells whether an object was last used in an earlier simulation, or
// before the simulated process stopped: what held it then is no more.
//
//go:norace
func stale(epoch *int) bool {
	k := simrt.Active()
	if k == nil || *epoch == k.Epoch {
		return false
	}
	*epoch = k.Epoch
	return true
}

// hold counts locks held.
//
//go:norace
func hold(n int) {
	if k := simrt.Active(); k != nil {
		k.Hold(n)
	}
}

//go:norace
func (q *waitq) wait(what string) {
	k := simrt.Active()
	if k == nil || k.Cur() == nil {
		panic("simsync: " + what + " would block outside a simulation")
	}
	t := k.Cur()
	n := make([]*simrt.Task, len(q.w)+1)
	for i := range q.w {
		n[i] = q.w[i]
	}
	n[len(q.w)] = t
	q.w = n
	k.Block()
}

//go:norace
func (q *waitq) wakeAll() {
	k := simrt.Active()
	w := q.w
	q.w = nil
	if k == nil {
		return
	}
	for i := range w {
		k.Wake(w[i])
	}
}

//go:norace
func (q *waitq) wakeOne() {
	if len(q.w) == 0 {
		return
	}
	t := q.w[0]
	q.w = q.w[1:]
	if k := simrt.Active(); k != nil {
		k.Wake(t)
	}
}

// Mutex is sync.Mutex.
type Mutex struct {
	locked bool
	q      waitq
	epoch  int
}

//go:norace
func (m *Mutex) fresh() {
	if stale(&m.epoch) {
		m.locked, m.q.w = false, nil
	}
}

//go:norace
func (m *Mutex) Lock() {
	simrt.Y()
	m.fresh()
	for m.locked {
		m.q.wait("Mutex.Lock")
	}
	m.locked = true
	hold(1)
	simrt.RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	simrt.Y()
	m.fresh()
	if m.locked {
		return false
	}
	m.locked = true
	hold(1)
	simrt.RaceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	m.fresh()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	simrt.RaceReleaseMerge(unsafe.Pointer(m))
	m.locked = false
	hold(-1)
	m.q.wakeAll()
	simrt.Y()
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	w       bool
	r       int
	waiting int // writers waiting: new readers queue behind them
	q       waitq
	racer   int
	racew   int
	epoch   int
}

//go:norace
func (m *RWMutex) fresh() {
	if stale(&m.epoch) {
		m.w, m.r, m.waiting, m.q.w = false, 0, 0, nil
	}
}

//go:norace
func (m *RWMutex) Lock() {
	simrt.Y()
	m.fresh()
	m.waiting++
	m.await()
	m.w = true
	hold(1)
	simrt.RaceAcquire(unsafe.Pointer(&m.racer))
	simrt.RaceAcquire(unsafe.Pointer(&m.racew))
}

// await waits for the write lock; a waiter that is unwound waits no more.
//
//go:norace
func (m *RWMutex) await() {
	defer m.awaited()
	for m.w || m.r > 0 {
		m.q.wait("RWMutex.Lock")
	}
}

//go:norace
func (m *RWMutex) awaited() { m.waiting-- }

//go:norace
func (m *RWMutex) TryLock() bool {
	simrt.Y()
	m.fresh()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	hold(1)
	simrt.RaceAcquire(unsafe.Pointer(&m.racer))
	simrt.RaceAcquire(unsafe.Pointer(&m.racew))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	m.fresh()
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	simrt.RaceReleaseMerge(unsafe.Pointer(&m.racew))
	m.w = false
	hold(-1)
	m.q.wakeAll()
	simrt.Y()
}

//go:norace
func (m *RWMutex) RLock() {
	simrt.Y()
	m.fresh()
	for m.w || m.waiting > 0 {
		m.q.wait("RWMutex.RLock")
	}
	m.r++
	hold(1)
	simrt.RaceAcquire(unsafe.Pointer(&m.racew))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	simrt.Y()
	m.fresh()
	if m.w || m.waiting > 0 {
		return false
	}
	m.r++
	hold(1)
	simrt.RaceAcquire(unsafe.Pointer(&m.racew))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	m.fresh()
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	simrt.RaceReleaseMerge(unsafe.Pointer(&m.racer))
	m.r--
	hold(-1)
	m.q.wakeAll()
	simrt.Y()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is sync.Once.
type Once struct {
	done bool
	m    Mutex
}

//go:norace
func (o *Once) Do(f func()) {
	simrt.Y()
	if o.done {
		simrt.RaceAcquire(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.finish()
		f()
	}
}

//go:norace
func (o *Once) finish() {
	simrt.RaceReleaseMerge(unsafe.Pointer(o))
	o.done = true
}

func OnceFunc(f func()) func() {
	var o Once
	var p any
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var v T
	d := OnceFunc(func() { v = f() })
	return func() T { d(); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var a T1
	var b T2
	d := OnceFunc(func() { a, b = f() })
	return func() (T1, T2) { d(); return a, b }
}

// Pool is sync.Pool: last in first out, sometimes forgetting an item as the
// garbage collector would; both decided by the run's seed.
type Pool struct {
	New   func() any
	items []any
}

//go:norace
func (p *Pool) Get() any {
	simrt.Y()
	simrt.RaceAcquire(unsafe.Pointer(p))
	for len(p.items) > 0 {
		n := len(p.items) - 1
		it := p.items[n]
		p.items[n] = nil
		p.items = p.items[:n]
		if k := simrt.Active(); k != nil && k.PoolP(1, 8) {
			continue
		}
		return it
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// TrackPools: pools are remembered so that they can be emptied.
var TrackPools bool

var pools = map[weak.Pointer[Pool]]bool{}

// DropPools empties all pools, as two garbage collections would.
func DropPools() {
	for w := range pools {
		if p := w.Value(); p != nil {
			p.items = nil
		} else {
			delete(pools, w)
		}
	}
}

//go:norace
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	if TrackPools {
		pools[weak.Make(p)] = true
	}
	n := make([]any, len(p.items)+1)
	for i := range p.items {
		n[i] = p.items[i]
	}
	n[len(p.items)] = x
	p.items = n
	simrt.RaceReleaseMerge(unsafe.Pointer(p))
	simrt.Y()
}

// Map is sync.Map; every operation is one atomic step.
type Map struct {
	m  map[any]any
	ks []any
}

func (m *Map) in() {
	simrt.Y()
	simrt.RaceAcquire(unsafe.Pointer(m))
	if m.m == nil {
		m.m = map[any]any{}
	}
}
func (m *Map) out() { simrt.RaceReleaseMerge(unsafe.Pointer(m)) }

func (m *Map) set(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.ks = append(m.ks, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	n := make([]any, 0, len(m.ks))
	for _, x := range m.ks {
		if x != k {
			n = append(n, x)
		}
	}
	m.ks = n
}

func (m *Map) Load(k any) (v any, ok bool) { m.in(); defer m.out(); v, ok = m.m[k]; return }
func (m *Map) Store(k, v any)              { m.in(); defer m.out(); m.set(k, v) }
func (m *Map) Clear()                      { m.in(); defer m.out(); m.m = nil; m.ks = nil }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.in()
	defer m.out()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.in()
	defer m.out()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.in()
	defer m.out()
	o, ok := m.m[k]
	m.set(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.in()
	defer m.out()
	if o, ok := m.m[k]; !ok || o != old {
		return false
	}
	m.set(k, new)
	return true
}
func (m *Map) CompareAndDelete(k, old any) bool {
	m.in()
	defer m.out()
	if o, ok := m.m[k]; !ok || o != old {
		return false
	}
	m.del(k)
	return true
}
func (m *Map) Range(f func(k, v any) bool) {
	m.in()
	ks := append([]any(nil), m.ks...)
	m.out()
	for _, k := range ks {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n     int
	q     waitq
	epoch int
}

//go:norace
func (w *WaitGroup) Add(d int) {
	if stale(&w.epoch) {
		w.n, w.q.w = 0, nil
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	simrt.RaceReleaseMerge(unsafe.Pointer(w))
	if w.n == 0 {
		w.q.wakeAll()
	}
	simrt.Y()
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.GoCall(func() { defer w.Done(); f() })
}

//go:norace
func (w *WaitGroup) Wait() {
	simrt.Y()
	if stale(&w.epoch) {
		w.n, w.q.w = 0, nil
	}
	for w.n > 0 {
		w.q.wait("WaitGroup.Wait")
	}
	simrt.RaceAcquire(unsafe.Pointer(w))
}

// Cond is sync.Cond.
type Cond struct {
	L     Locker
	w     []*condWaiter
	epoch int
}

type condWaiter struct {
	t    *simrt.Task
	woke bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	k := simrt.Active()
	if k == nil || k.Cur() == nil {
		panic("simsync: Cond.Wait would block outside a simulation")
	}
	if stale(&c.epoch) {
		c.w = nil
	}
	w := &condWaiter{t: k.Cur()}
	n := make([]*condWaiter, len(c.w)+1)
	for i := range c.w {
		n[i] = c.w[i]
	}
	n[len(c.w)] = w
	c.w = n
	c.L.Unlock()
	for !w.woke {
		k.Block()
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if stale(&c.epoch) {
		c.w = nil
	}
	if len(c.w) > 0 {
		w := c.w[0]
		c.w = c.w[1:]
		w.woke = true
		if k := simrt.Active(); k != nil {
			k.Wake(w.t)
		}
	}
}

//go:norace
func (c *Cond) Broadcast() {
	for len(c.w) > 0 {
		c.Signal()
	}
}
