package world

import (
	"runtime"
	"strconv"
	"weak"

	"verif.local/dst/plan"
	"verif.local/dst/simsync"
)

// churn is what is watched while streams come and go.
type churn struct {
	what [4]map[watched]bool
}

type watched interface{ alive() bool }

type watch[T any] struct{ weak.Pointer[T] }

func (w watch[T]) alive() bool { return w.Value() != nil }

// Kinds of things a stream is given or makes.
const (
	aSource = iota
	aSink
	aBuffer
	aCoder
)

var whats = [4]string{"sources", "sinks", "buffers of callers", "coders"}

// track watches something that belongs to the stream in progress.
func track[T any](c *ctx, what int, p *T) {
	if c.churn == nil || c.churn.what[what] == nil {
		return
	}
	c.churn.what[what][watch[T]{weak.Make(p)}] = true
}

func (c *ctx) trackBuf(b []byte) {
	if c.churn != nil && cap(b) >= 32 { // smaller ones share memory
		track(c, aBuffer, &b[:1][0])
	}
}

// Limits on what may be left behind, whatever the number of streams.
const (
	leftObjects = 100
	leftGo      = 64
)

// churn runs many streams one after another, each given up, ended or failed,
// and then looks for what they have left behind.
func (c *ctx) churning() {
	o := c.o
	ch := &churn{}
	if o.Mode == "" {
		for i := range ch.what {
			ch.what[i] = map[watched]bool{}
		}
	}
	trace := c.k.TraceOn
	c.k.TraceOn = false // what a trace takes must not be counted
	save := c.churn
	c.churn = ch
	defer func() { c.churn, c.k.TraceOn = save, trace }()
	goes, tasks := c.k.LiveGo(), 0
	var heap uint64
	for i := 0; i < o.N; i++ {
		c.sub = i
		c.oneOf(o, i)
		if i == o.N/4 && o.Mode != "" {
			c.settle()
			heap, tasks = heapNow(), len(c.k.Tasks())
		}
	}
	c.settle()
	c.k.TraceOn = trace
	if n := c.k.LiveGo() - goes; n > leftGo {
		c.fail("left-goroutines", "after %d streams had come and gone more than %d goroutines of the library were still there", o.N, leftGo)
	}
	if o.Mode != "" {
		// every task costs the simulator something
		lim := uint64(96<<10) + 4096*uint64(len(c.k.Tasks())-tasks)
		if o.Mode == "distinct" {
			lim += 4 << 20
		}
		c.count("situation: memory in use measured")
		if now := heapNow(); now > heap+lim {
			c.fail("left-memory", "after %d streams or calls had come and gone the memory in use had grown by more than %d KiB since the first %d", o.N, lim>>10, o.N/4)
		}
		return
	}
	for i, l := range ch.what {
		n := 0
		for x := range l {
			if x.alive() {
				n++
			}
		}
		if n > leftObjects {
			c.fail("left-objects", "after %d streams had come and gone more than %d of their %s were still referred to", o.N, leftObjects, whats[i])
		}
	}
}

// oneOf runs the i-th stream.
//
//go:noinline
func (c *ctx) oneOf(o *plan.Op, i int) {
	k := i % len(o.Subs)
	if o.Style == "blocks" {
		k = i * len(o.Subs) / o.N
	}
	s := *o.Subs[k]
	if o.Mode == "distinct" {
		n := strconv.Itoa(1000000 + i)
		if s.Call != nil {
			cl := *s.Call
			cl.X = append([]byte(n), cl.X...)
			cl.A = string(cl.X)
			s.Call = &cl
		} else {
			s.Data = append([]byte(n), s.Data...)
		}
	}
	if s.Stop > 0 {
		c.count("situation: stream given up")
	}
	c.count("streams come and gone")
	var soft []*Violation // what the streams carry is for other properties to judge
	tc := *c.taskCtx
	tc.soft = &soft
	x := &ctx{taskCtx: &tc, o: &s, k: c.k, prop: c.prop}
	x.safely(func() { x.dispatch() })
}

// settle lets everything happen that happens by itself: a day passes and
// memory nobody refers to is collected.
func (c *ctx) settle() {
	c.k.Sleep(24 * 3600e9)
	simsync.DropPools()
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
}

func heapNow() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}
