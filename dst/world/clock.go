package world

// Time passes only while a source, a sink or a caller lets it pass; clock keeps
// the account of that, for telling what time the library takes of its own.
type clock struct {
	sleeping int   // sources, sinks and callers letting time pass now
	since    int64 // from when
	covered  int64 // time any of them let pass before that
	slept    int64
	jumps    int
}

// own is how long an operation may take by itself: nothing, but for what
// rounding and a brief wait for another goroutine explain.
const own = 1e6

// maxSlept keeps a run within the kernel's time.
const maxSlept = 9 * 365 * 24 * 3600 * 1e9

// sleep lets time pass.
//
//go:norace
func (w *world) sleep(d int64) {
	if d > maxSlept-w.slept {
		d = maxSlept - w.slept
	}
	if d > 0 {
		w.slept += d
	}
	if w.p.Prop != "C19" {
		w.k.Sleep(d)
		return
	}
	if d > 0 {
		if w.sleeping++; w.sleeping == 1 {
			w.since = w.k.Now()
		}
		w.k.Sleep(d)
		if w.sleeping--; w.sleeping == 0 {
			w.covered += w.k.Now() - w.since
		}
	}
	if n := len(w.p.Clock); n > 0 {
		w.k.SetWall(w.p.Clock[w.jumps%n])
		w.jumps++
	}
}

//go:norace
func (w *world) cover() int64 {
	if w.sleeping > 0 {
		return w.covered + w.k.Now() - w.since
	}
	return w.covered
}

// timed runs an operation and asks for the time nobody but the library took.
func (c *ctx) timed(f func()) {
	if c.prop != "C19" {
		f()
		return
	}
	from, cov, jumps, n := c.k.Now(), c.w.cover(), c.w.jumps, len(c.sinks)
	f()
	took := c.k.Now() - from
	if d := took - (c.w.cover() - cov); d > own {
		c.note("own-time", "the operation took %d ns, %d ns of them while no source, sink or caller was waiting", took, d)
	}
	if took > 3600e9 {
		c.count("situation: more than an hour passed during an operation")
	}
	c.jumped(jumps)
	for _, s := range c.sinks[n:] {
		s.writes, s.size = s.x.writes, len(s.x.out)
	}
}

func (c *ctx) jumped(since int) {
	for i := since; i < c.w.jumps; i++ {
		switch d := c.w.p.Clock[i%len(c.w.p.Clock)]; {
		case d > 0:
			c.count("fault: wall clock set forward")
		case d < 0:
			c.count("fault: wall clock set back")
		}
	}
}

// idle lets time pass between operations.
func (c *ctx) idle() {
	if c.prop != "C19" {
		return
	}
	if c.o.Idle > 3600e9 {
		c.count("situation: idle for more than an hour")
	}
	jumps := c.w.jumps
	c.w.sleep(c.o.Idle)
	c.jumped(jumps)
	for _, s := range c.sinks {
		if s.x.writes != s.writes || len(s.x.out) != s.size {
			c.note("late-write", "a sink got %d writes and %d bytes when its stream's operation was over", s.x.writes-s.writes, len(s.x.out)-s.size)
			s.writes, s.size = s.x.writes, len(s.x.out)
		}
	}
}

// lateSink watches a sink after its stream was left.
type lateSink struct {
	x            *sink
	writes, size int
}
