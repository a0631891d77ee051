package world

import (
	"io"
	"runtime"

	"verif.local/dst/model"
	"verif.local/dst/plan"
	"verif.local/dst/simrt"
)

// source is a simulated input: a socket, pipe, disk file or peer.
type source struct {
	c     *ctx
	s     *plan.Src
	data  []byte
	limit int // bytes supplied before the end or the failure
	pos   int
	have  int   // bytes that have arrived
	segI  int   // segments that have arrived
	next  int64 // when the next one arrives
	reads int
	stall int // empty reads still to give before the next real one
	stI   int
	final error
	over  bool // the final error has been reported
	fired bool
	empty int         // consecutive reads that supplied nothing
	maxP  int         // largest read asked for
	conv  *model.Conv // of the data up to limit
	onAsk func(p int)
	use   *use
	later error // left over from a read that could only give data
}

func (c *ctx) newSource(s *plan.Src, data []byte, conv *model.Conv) *source {
	if s == nil {
		s = &plan.Src{}
	}
	x := &source{c: c, s: s, data: data, limit: len(data), final: io.EOF, conv: conv}
	track(c, aSource, x)
	if s.Fail != nil {
		x.limit = s.Fail.At
		if x.limit > len(data) {
			x.limit = len(data)
		}
		x.final = errOf(s.Fail.Kind)
	}
	if len(s.Gap) > 0 {
		x.next = c.k.Now() + s.Gap[0]
	}
	x.arrive()
	x.nextStall()
	return x
}

func (x *source) nextStall() {
	if n := len(x.s.Stall); n > 0 {
		x.stall = x.s.Stall[x.stI%n]
		x.stI++
	}
}

// arrive takes in the segments that are due.
func (x *source) arrive() {
	now := x.c.k.Now()
	for x.have < x.limit && x.next <= now {
		n := at(x.s.Seg, x.segI)
		if n < 1 {
			n = 1
		}
		x.have += n
		if x.have > x.limit {
			x.have = x.limit
		}
		x.segI++
		if g := len(x.s.Gap); g > 0 {
			x.next += x.s.Gap[x.segI%g]
		}
		if !x.s.Coalesce {
			break
		}
	}
}

func (x *source) fail() error {
	if x.s.Fail == nil {
		x.over = true
		return io.EOF
	}
	k := x.s.Fail.Kind
	x.c.count("fault: source " + k)
	if !x.conv.Boundary(x.pos) {
		x.c.count("situation: source failed inside a character")
	}
	x.fired = true
	x.over = true
	switch k {
	case "block":
		x.c.bad = true
		x.c.k.Ev("src blocks", int64(x.pos), 0, nil, "")
		x.c.k.Stall()
	case "panic":
		x.c.k.Ev("src panics", int64(x.pos), 0, nil, "")
		panic(simPanic{})
	case "goexit":
		x.c.bad = true
		x.c.k.Ev("src goexit", int64(x.pos), 0, nil, "")
		runtime.Goexit()
	}
	return x.final
}

func (x *source) Read(p []byte) (int, error) {
	if x.use != nil {
		x.use.enter()
		defer x.use.leave()
	}
	n, err := x.read(p)
	e := ""
	if err != nil {
		e = err.Error()
	}
	x.c.k.Ev("src.read", int64(len(p)), int64(n), nil, e)
	return n, err
}

func (x *source) read(p []byte) (int, error) {
	simrt.Y()
	c := x.c
	x.reads++
	if len(p) > x.maxP {
		x.maxP = len(p)
	}
	me := x.reads
	c.nested(x.s.Nest, me, false)
	if x.onAsk != nil {
		x.onAsk(len(p))
	}
	if len(p) == 0 {
		return 0, nil
	}
	if err := x.later; err != nil {
		x.later = nil
		return 0, err
	}
	if x.over {
		// asked again after the final error
		c.count("situation: source asked again after its final error")
		if x.s.Fail != nil {
			switch x.s.Fail.After {
			case "eof":
				return 0, io.EOF
			case "other":
				return 0, errOf("other failure")
			case "data":
				return copy(p, "after"), nil
			}
		}
		return 0, x.final
	}
	if x.stall > 0 {
		x.stall--
		x.empty++
		c.count("fault: source read supplied nothing")
		if x.s.Scribble {
			scribble(p)
		}
		if x.s.Hold > 0 {
			c.w.sleep(x.s.Hold)
		}
		return 0, nil
	}
	x.nextStall()
	x.arrive()
	for x.pos == x.have && x.have < x.limit {
		d := x.next - c.k.Now()
		if d > 0 {
			c.count("situation: caller waited for the source")
			c.w.sleep(d)
			x.next = min(x.next, c.k.Now()) // there may be no time left
		}
		x.arrive()
	}
	if x.pos == x.limit {
		if x.s.Endless {
			x.empty++
			c.count("fault: source endlessly supplied nothing")
			x.fired = true
			if x.s.Scribble {
				scribble(p)
			}
			return 0, nil
		}
		if x.s.Hold > 0 {
			c.w.sleep(x.s.Hold)
		}
		return 0, x.fail()
	}
	n := x.have - x.pos
	if n > len(p) {
		n = len(p)
		c.count("situation: buffer smaller than what had arrived")
	}
	if len(x.s.Short) > 0 {
		if m := at(x.s.Short, x.reads); m > 0 && m < n {
			n = m
			c.count("fault: short source read")
		}
	}
	copy(p, x.data[x.pos:x.pos+n])
	if x.s.Scribble {
		scribble(p[n:])
	}
	if x.s.Hold > 0 {
		c.w.sleep(x.s.Hold)
		if string(p[:n]) != string(x.data[x.pos:x.pos+n]) {
			c.fail("held-buffer", "the buffer a source was still filling was changed by someone else")
		}
	} else {
		simrt.Y()
	}
	if len(x.s.Nest) > 0 {
		c.nested(x.s.Nest, me, true)
		if string(p[:n]) != string(x.data[x.pos:x.pos+n]) {
			c.fail("held-buffer", "the buffer a source was filling was changed while the source used the package itself")
		}
	}
	x.pos += n
	x.empty = 0
	if x.pos < len(x.conv.In) && !x.conv.Boundary(x.pos) {
		c.count("situation: source read ended inside a character")
	}
	if x.pos == x.limit && !x.s.Endless {
		if x.s.Fail != nil {
			if x.s.Fail.WithData {
				c.count("situation: failure reported with data")
				return n, x.fail()
			}
		} else if x.s.EndWith {
			c.count("situation: end of stream reported with data")
			x.over = true
			return n, io.EOF
		}
	}
	return n, nil
}

// sink is a simulated output: a file or a socket.
type sink struct {
	c      *ctx
	s      *plan.Sink
	out    []byte
	writes int
	faults []plan.Fault
	fired  int // faults that fired
	failed bool
	crash  int  // stop the process at this many bytes (0: never)
	dead   bool // the process has stopped: nothing reaches the sink any more
	empty  bool // the last failing write took nothing
	last   error
	use    *use
	marked int // bytes its owner wrote itself
}

func (c *ctx) newSink(s *plan.Sink) *sink {
	x := &sink{c: c, s: s}
	track(c, aSink, x)
	if c.prop == "C19" {
		c.sinks = append(c.sinks, &lateSink{x: x})
	}
	x.faults = append(x.faults, s.Faults...)
	return x
}

func (x *sink) Write(p []byte) (int, error) {
	if x.use != nil {
		x.use.enter()
		defer x.use.leave()
	}
	n, err := x.write(p)
	e := ""
	if err != nil {
		e = err.Error()
	}
	x.c.k.Ev("sink.write", int64(len(p)), int64(n), p[:n], e)
	return n, err
}

func (x *sink) write(p []byte) (int, error) {
	simrt.Y()
	c := x.c
	if x.dead {
		panic(&simrt.Kill{Why: "crash"})
	}
	if d := x.s.Delay; len(d) > 0 && len(p) > 0 {
		before := string(p)
		if d[x.writes%len(d)] > 0 {
			c.count("fault: slow sink")
			c.w.sleep(d[x.writes%len(d)])
		}
		if string(p) != before {
			c.fail("held-buffer", "the bytes handed to a slow sink were changed while it held them")
		}
	}
	x.writes++
	me := x.writes
	if len(x.s.Nest) > 0 {
		before := string(p)
		c.nested(x.s.Nest, me, false)
		if string(p) != before {
			c.fail("held-buffer", "the bytes handed to a sink were changed while the sink used the package itself")
		}
	}
	from := len(x.out)
	for i := range x.faults {
		f := &x.faults[i]
		if f.Times <= 0 {
			if f.Times == 0 {
				f.Times = 1
			} else {
				continue
			}
		}
		if f.At < from || f.At >= from+len(p) {
			continue
		}
		k := f.At - from
		if f.Kind == "full" {
			k = 0
		}
		if f.Whole {
			k = len(p)
			c.count("situation: sink took a whole write and failed")
		}
		f.Times--
		if f.Times == 0 {
			f.Times = -1
		}
		x.fired++
		x.failed = true
		x.empty = k == 0
		x.out = append(x.out, p[:k]...)
		c.count("fault: sink " + f.Kind)
		if k > 0 {
			c.count("situation: sink took part of a write")
		}
		switch f.Kind {
		case "short":
			x.last = io.ErrShortWrite
			return k, nil
		case "block":
			c.bad = true
			c.k.Ev("sink blocks", int64(len(x.out)), 0, nil, "")
			c.k.Stall()
		case "panic":
			c.k.Ev("sink panics", int64(len(x.out)), 0, nil, "")
			panic(simPanic{})
		case "goexit":
			c.bad = true
			c.k.Ev("sink goexit", int64(len(x.out)), 0, nil, "")
			runtime.Goexit()
		}
		x.last = errOf(f.Kind)
		return k, x.last
	}
	if x.crash > 0 && from+len(p) >= x.crash && c.k.Cur() == c.t {
		k := x.crash - from
		if k < 0 {
			k = 0
		}
		x.out = append(x.out, p[:k]...)
		x.dead = true
		c.count("fault: crash in a sink write")
		if k < len(p) {
			c.count("situation: torn last sink write")
		}
		panic(&simrt.Kill{Why: "crash"})
	}
	x.out = append(x.out, p...)
	simrt.Y()
	c.nested(x.s.Nest, me, true)
	return len(p), nil
}

// nested does what the source or sink does with the package itself while it is
// at work.
func (c *ctx) nested(l []*plan.Nest, at int, post bool) {
	for _, n := range l {
		if n.At != at || n.Post != post {
			continue
		}
		c.count("situation: a source or sink used the package itself")
		x := &ctx{taskCtx: c.taskCtx, o: n.Op, k: c.k, prop: c.prop}
		c.k.Ev("nested "+n.Op.Kind, int64(at), 0, nil, "")
		x.dispatch()
		c.k.Ev("nested done", int64(at), 0, nil, "")
	}
}
