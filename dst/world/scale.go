package world

import (
	"bytes"
	"runtime"

	"verif.local/dst/plan"
	"verif.local/dst/simrt"
)

// Limits on the work a longer text may take: so many times more than in
// proportion, and so much whatever the length.
const (
	scaleSteps = 1.5
	scaleMore  = 300_000
	scaleBytes = 3
	scaleRoom  = 16 << 20
)

// scaling does something with a text and then with a much longer one, and
// compares the work.
func (c *ctx) scaling() {
	o := c.o
	trace := c.k.TraceOn
	c.k.TraceOn = false // what a trace takes must not be counted
	defer func() { c.k.TraceOn = trace }()
	if o.Mode == "lump" {
		simrt.CountWork(false)
		defer simrt.CountWork(true)
	}
	long := longer(o.Subs[0], o.N)
	if len(o.Subs) > 1 {
		long = o.Subs[1]
	}
	s1, b1, ok1 := c.work(o.Subs[0])
	times := float64(size(long)) / float64(max(1, size(o.Subs[0])))
	if times < 1 {
		return
	}
	most := scaleSteps*times*float64(s1) + scaleMore
	undo := c.k.Limit(int64(4 * most)) // far beyond that it need not end
	s2, b2, ok2 := c.work(long)
	undo()
	c.k.TraceOn = trace
	c.k.Ev("work", s1, s2, nil, "")
	if !ok1 || !ok2 {
		c.count("given up: the stream or call itself goes wrong")
		return
	}
	c.count("situation: work compared")
	if float64(s2) > most {
		c.fail("superlinear", "%s took %d steps with %d bytes and %d steps with %d bytes", c.named(o.Subs[0]), s1, size(o.Subs[0]), s2, size(long))
	}
	if o.Mode != "lump" && float64(b2) > scaleBytes*times*float64(b1)+scaleRoom {
		c.fail("superlinear-memory", "%s allocated more than %d times as much in proportion, and %d MiB, for %d bytes as for %d bytes", c.named(o.Subs[0]), scaleBytes, scaleRoom>>20, size(long), size(o.Subs[0]))
	}
}

func size(o *plan.Op) int {
	if o.Call != nil {
		return len(o.Call.X)
	}
	return len(o.Data)
}

func (c *ctx) named(o *plan.Op) string {
	switch o.Kind {
	case "call":
		return o.Call.F
	case "rd":
		return "reading a stream"
	}
	return "writing a stream"
}

func longer(o *plan.Op, n int) *plan.Op {
	s := *o
	if s.Call != nil {
		cl := *s.Call
		cl.X = bytes.Repeat(cl.X, n)
		cl.A = string(cl.X)
		s.Call = &cl
	} else {
		s.Data = bytes.Repeat(s.Data, n)
	}
	return &s
}

// work does o and tells how many steps it takes and how much it allocates.
func (c *ctx) work(o *plan.Op) (steps int64, bytes uint64, ok bool) {
	var soft []*Violation // what the stream carries is for other properties to judge
	tc := *c.taskCtx
	tc.soft = &soft
	x := &ctx{taskCtx: &tc, o: o, k: c.k, prop: c.prop}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	steps, bytes = c.k.Steps, m.TotalAlloc
	x.safely(func() { x.dispatch() })
	steps = c.k.Steps - steps
	runtime.ReadMemStats(&m)
	return steps, m.TotalAlloc - bytes, len(soft) == 0
}
