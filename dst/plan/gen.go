package plan

import (
	"bytes"

	"verif.local/dst/model"
	"verif.local/dst/simrt"
)

// Pool is the set of calls whose results in a fresh process are known.
type Pool struct {
	Calls [][]*Call // families of related calls
	Want  map[string]string
}

// Gen makes the plan of run number index of a property under a seed.
func Gen(prop string, seed uint64, index int, race bool, pool *Pool) *Plan {
	s := simrt.Mix(seed, simrt.HashString(prop), uint64(index))
	if race {
		s = simrt.Mix(s, 7)
	}
	r := simrt.NewRng(s)
	p := &Plan{Prop: prop, Seed: s, Index: index, Race: race}
	switch prop {
	case "C01":
		o := huge(r, rdOp(r, chars(r)))
		if r.P(1, 25) {
			patience(r, o, 250)
		}
		p.Tasks = []*Task{{Ops: []*Op{o}}}
	case "C02":
		o := rdOp(r, chars(r))
		o.Src.Fail = fail(r, o.Data)
		if r.P(1, 25) {
			patience(r, o, 250)
		}
		p.Tasks = []*Task{{Ops: []*Op{o}}}
	case "C03":
		o := rdOp(r, chars(r))
		truncate(r, o)
		if r.P(1, 20) {
			patience(r, o, 250)
		}
		p.Tasks = []*Task{{Ops: []*Op{o}}}
	case "C04":
		o := rdOp(r, chars(r)*3/4)
		o.Style = "direct"
		o.Buf = sizes(r, true)
		if len(o.Data) > 30000 {
			for i := range o.Buf {
				o.Buf[i] = max(o.Buf[i], len(o.Data)/500)
			}
		}
		if r.P(2, 3) {
			o.Src.Stall = make([]int, r.Range(1, 5))
			for i := range o.Src.Stall {
				if r.P(1, 2) {
					o.Src.Stall[i] = r.Range(0, 3)
				} else if r.P(1, 6) {
					o.Src.Stall[i] = r.Range(4, 60)
				}
			}
		}
		switch r.Intn(6) {
		case 0:
			o.Src.Endless = true
			if r.P(1, 2) {
				truncate(r, o)
			}
		case 1:
			o.Src.Fail = fail(r, o.Data)
		case 2:
			truncate(r, o)
		}
		if !o.Src.Endless && r.P(1, 20) {
			patience(r, o, 250)
		}
		p.Tasks = []*Task{{Ops: []*Op{o}}}
	case "C05":
		if r.P(2, 3) {
			o := rdOp(r, r.Range(50, 400))
			o.Style = "direct"
			if r.P(1, 60) {
				o.Data = GenCP949(r, r.Range(60000, 120000), false)
			} else if r.P(1, 12) && len(o.Data) < 5000 {
				o.Data = GenCP949(r, r.Range(5000, 20000), false)
			}
			if len(o.Data) > 4000 {
				for i := range o.Buf {
					if o.Buf[i] < 16 {
						o.Buf[i] += 16 + r.Intn(48)
					}
				}
				for i := range o.Src.Seg {
					if o.Src.Seg[i] < 9 {
						o.Src.Seg[i] += 9 + r.Intn(40)
					}
				}
				for i := range o.Src.Short {
					if o.Src.Short[i] < 9 {
						o.Src.Short[i] = 0
					}
				}
			}
			if r.P(1, 20) {
				patience(r, o, 120)
				o.Style = "direct"
				if r.P(1, 2) {
					o.Buf = []int{r.Range(500, 40000)}
				}
			}
			p.Tasks = []*Task{{Ops: []*Op{o}}}
		} else {
			p.Tasks = []*Task{{Ops: []*Op{wrOp(r, chars(r))}}}
		}
	case "C06":
		p.Tasks = []*Task{{Ops: []*Op{huge(r, wrOp(r, chars(r)))}}}
	case "C07":
		o := wrOp(r, 1+chars(r))
		o.Sink.Faults = sinkFaults(r, o.Data)
		o.Retry = r.Intn(4)
		p.Tasks = []*Task{{Ops: []*Op{o}}}
	case "C08":
		o := wrOp(r, 1+chars(r)*2/3)
		out := len(model.Encode(o.Data, false).Out)
		for n := r.Range(1, 3); n > 0; n-- {
			if r.P(2, 3) {
				o.Crash = append(o.Crash, Crash{At: 1 + r.Intn(out+1)})
			} else {
				o.Crash = append(o.Crash, Crash{Steps: int64(1 + r.Intn(40+60*out/r.Range(1, 8)))})
			}
		}
		p.Tasks = []*Task{{Ops: []*Op{o}}}
	case "C09":
		p.Tasks = []*Task{{Ops: []*Op{via(r, huge(r, xOp(r, false, chars(r))))}}}
	case "C10":
		p.Tasks = []*Task{{Ops: []*Op{via(r, huge(r, xOp(r, true, chars(r))))}}}
	case "C11":
		o := xOp(r, r.P(1, 2), 1+chars(r))
		xFault(r, o)
		p.Tasks = []*Task{{Ops: []*Op{o}}}
	case "C12":
		p.OneEnc = true
		n := 1
		if r.P(1, 3) {
			n = r.Range(2, 4)
		}
		many := n > 1
		for ; n > 0; n-- {
			o := reuseOp(r)
			for many && subData(o) > 4000 {
				o = reuseOp(r)
			}
			p.Tasks = append(p.Tasks, &Task{Ops: []*Op{o}})
		}
	case "C13":
		if index < Young && pool != nil && len(pool.Calls) > 0 && r.P(1, 2) {
			young(r, p, pool)
			break
		}
		n := r.Range(2, 5)
		p.OneEnc = r.P(1, 3)
		focus := newFocus(r, pool)
		for i := 0; i < n; i++ {
			p.Tasks = append(p.Tasks, &Task{Ops: mixOps(r, pool, focus, r.Range(1, 6), false)})
		}
	case "C14":
		p.OneEnc = r.P(1, 3)
		focus := newFocus(r, pool)
		n := 1
		if r.P(1, 8) {
			n = 2
		}
		for i := 0; i < n; i++ {
			ops := r.Geo(12) + 1
			if n == 1 && len(focus.fam) > 0 && r.P(1, 30) {
				// a long history of much the same
				ops = r.Range(50, 400)
				focus.fam = focus.fam[:1]
				focus.pCal = 10
			}
			p.Tasks = append(p.Tasks, &Task{Ops: mixOps(r, pool, focus, ops, true)})
		}
	case "C15":
		n := r.Range(2, 5)
		p.OneEnc = r.P(1, 3)
		focus := newFocus(r, pool)
		bad := r.Range(1, n-1)
		for i := 0; i < n; i++ {
			t := &Task{Ops: mixOps(r, pool, focus, r.Range(1, 4), false)}
			if i < bad {
				o := streamOp(r, chars(r)/2+1)
				hang(r, o)
				for len(o.Data) > 4000 {
					o = streamOp(r, r.Range(1, 300))
					hang(r, o)
				}
				j := r.Intn(len(t.Ops) + 1)
				t.Ops = append(t.Ops[:j], append([]*Op{o}, t.Ops[j:]...)...)
			}
			p.Tasks = append(p.Tasks, t)
		}
		for i := len(p.Tasks) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			p.Tasks[i], p.Tasks[j] = p.Tasks[j], p.Tasks[i]
		}
	case "C16":
		p.Link = genLink(r)
	case "C17":
		p.OneEnc = r.P(1, 3)
		focus := newFocus(r, pool)
		n := 1
		if r.P(1, 6) {
			n = 2
		}
		for i := 0; i < n; i++ {
			t := &Task{}
			for k := r.Range(1, 3); k > 0; k-- {
				var o *Op
				if r.P(2, 5) {
					o = stackOp(r, chars(r)/2)
				} else {
					o = streamOp(r, chars(r)/2)
					for o.Src == nil && o.Sink == nil {
						o = streamOp(r, chars(r)/2)
					}
					switch {
					case r.P(3, 4):
					case o.Src != nil:
						o.Src.Fail = fail(r, o.Data)
					case o.Kind == "wr":
						o.Sink.Faults = sinkFaults(r, o.Data)
						o.Retry = r.Intn(3)
					}
				}
				nest(r, pool, focus, o)
				t.Ops = append(t.Ops, o)
			}
			p.Tasks = append(p.Tasks, t)
		}
	case "C18":
		p.OneEnc = r.P(1, 3)
		n := 1
		if r.P(1, 8) {
			n = 2
		}
		for i := 0; i < n; i++ {
			p.Tasks = append(p.Tasks, &Task{Ops: []*Op{churnOp(r, pool, n > 1)}})
		}
	case "C19":
		p.OneEnc = r.P(1, 3)
		focus := newFocus(r, pool)
		n := 1
		if r.P(1, 5) {
			n = r.Range(2, 3)
		}
		for i := 0; i < n; i++ {
			t := &Task{}
			if r.P(1, 2) {
				t.Delay = span(r)
			}
			for k := r.Range(1, 5); k > 0; k-- {
				if r.P(2, 5) {
					t.Ops = append(t.Ops, mixOps(r, pool, focus, 1, n == 1)...)
				} else {
					t.Ops = append(t.Ops, slowOp(r))
				}
			}
			for _, o := range t.Ops {
				if r.P(1, 2) {
					o.Idle = span(r)
				}
			}
			p.Tasks = append(p.Tasks, t)
		}
		if r.P(1, 2) {
			p.Wall = jump(r)
		}
		if r.P(1, 2) {
			p.Clock = make([]int64, r.Range(1, 4))
			for i := range p.Clock {
				if r.P(2, 3) {
					p.Clock[i] = jump(r)
				}
			}
		}
	case "C20":
		n := 1
		if r.P(1, 8) {
			n = 2
		}
		p.OneEnc = r.P(1, 3)
		for i := 0; i < n; i++ {
			t := &Task{}
			for k := r.Range(1, 4); k > 0; k-- {
				t.Ops = append(t.Ops, kindOp(r))
			}
			p.Tasks = append(p.Tasks, t)
		}
	case "C21":
		p.OneEnc = r.P(1, 3)
		p.Host = r.Next() | 2
		p.Shift = r.P(1, 3)
		focus := newFocus(r, pool)
		n := 1
		if r.P(1, 8) {
			n = 2
		}
		for i := 0; i < n; i++ {
			t := &Task{}
			for k := r.Range(1, 5); k > 0; k-- {
				t.Ops = append(t.Ops, hostOps(r, pool, focus, n == 1)...)
			}
			p.Tasks = append(p.Tasks, t)
		}
	case "C22":
		p.OneEnc = r.P(1, 3)
		p.Tasks = []*Task{{Ops: []*Op{scaleOp(r, pool)}}}
	default:
		panic("plan: unknown property " + prop)
	}
	p.Sched = sched(r, len(p.Tasks) > 1 || p.Link != nil)
	p.StepCap = p.Cap()
	fillWant(p, pool)
	return p
}

// HostOf is what the process is like that executes the runs from one index on.
func HostOf(prop string, seed uint64, from int) uint64 {
	if prop != "C21" {
		return 0
	}
	return simrt.Mix(seed, 0x4057, uint64(from)) | 2
}

// hostOps are calls and streams with all they can meet.
func hostOps(r *rng, pool *Pool, f *focus, alone bool) []*Op {
	var ops []*Op
	switch r.Intn(5) {
	case 0:
		ops = mixOps(r, pool, f, 1, alone)
	case 1, 2:
		// calls nobody has a baseline for are compared with themselves
		fam := GenPool(r.Next(), 1).Calls[0]
		for k := r.Range(1, 4); k > 0; k-- {
			if cl := fam[r.Intn(len(fam))]; alone || len(cl.X) < 1500 {
				ops = append(ops, &Op{Kind: "call", Call: cl})
			}
		}
	default:
		o := streamOp(r, chars(r)/2)
		switch {
		case r.P(2, 3):
		case o.Kind == "rd" && r.P(1, 2):
			truncate(r, o)
		case o.Kind == "rd":
			o.Src.Fail = fail(r, o.Data)
		case o.Kind == "wr":
			o.Sink.Faults = sinkFaults(r, o.Data)
			o.Retry = r.Intn(3)
		default:
			xFault(r, o)
		}
		ops = []*Op{o}
	}
	for _, o := range ops {
		switch r.Intn(8) {
		case 0:
			o.From, o.Deep = "deep", 1<<uint(r.Range(1, 12))
		case 1:
			o.From = "panicking"
		case 2:
			o.From = "locked"
		}
	}
	return ops
}

func fillWant(p *Plan, pool *Pool) {
	if pool == nil {
		return
	}
	for _, c := range p.CallOps() {
		c.Want = pool.Want[c.Call.Key()]
	}
}

// CallOps lists the operations that are calls.
func (p *Plan) CallOps() []*Op {
	var l []*Op
	p.Walk(func(o *Op) {
		if o.Kind == "call" {
			l = append(l, o)
		}
	})
	return l
}

// Cap bounds the steps of a run generously: far beyond what any correct
// execution needs.
func (p *Plan) Cap() int64 {
	n := int64(0)
	p.Walk(func(o *Op) {
		if o.Kind == "churn" {
			for _, s := range o.Subs {
				n += int64(o.N) * (int64(len(s.Data))*int64(1+len(s.Layers)) + 320)
				if s.Call != nil {
					n += int64(o.N) * int64(len(s.Call.X))
				}
			}
		}
		if o.Kind == "scale" {
			s := o.Subs[0]
			m := int64(len(s.Data))
			if s.Call != nil {
				m = int64(len(s.Call.X))
			}
			n += int64(o.N) * m / 3 // its own limit is lower still
			return
		}
		n += int64(len(o.Data))*int64(1+len(o.Layers)) + 64
		if len(o.DstW) > 0 || len(o.SrcW) > 0 {
			// each of many small windows may cost a look at all that is left
			l := min(int64(len(o.Data)), 4096)
			n += l * l / 100
		}
		if o.Call != nil {
			n += int64(len(o.Call.X) + 256)
		}
	})
	if p.Link != nil {
		for _, t := range p.Link.Texts {
			n += 8 * int64(len(t))
		}
		n += 4096
	}
	return 2_000_000 + 4000*n
}

func sched(r *rng, many bool) simrt.Sched {
	if !many {
		return simrt.Sched{Kind: "seq", Seed: r.Next()}
	}
	switch r.Intn(8) {
	case 0:
		return simrt.Sched{Kind: "seq", Seed: r.Next()}
	case 1, 2, 3:
		return simrt.Sched{Kind: "pct", Seed: r.Next(), Mean: r.Range(1, 8)}
	}
	return simrt.Sched{Kind: "rand", Seed: r.Next(), Mean: []int{1, 2, 3, 6, 12, 30, 100, 400}[r.Intn(8)]}
}

// big now and then makes a session long and its pieces large, around the sizes
// where implementations like to switch to another way of buffering.
func big(r *rng, o *Op) *Op {
	if !r.P(1, 250) {
		return o
	}
	return grow(r, o, []int{4096, 8192, 16384, 32768, 65536, 131072}[r.Intn(6)]*r.Range(1, 2)+r.Range(-4, 4))
}

// huge lets the stream have a megabyte once in a while.
func huge(r *rng, o *Op) *Op {
	if o.Kind == "td" || !r.P(1, 4000) {
		return o
	}
	return grow(r, o, 1<<20+r.Range(-4, 4))
}

func grow(r *rng, o *Op, n int) *Op {
	if o.Kind == "wr" || o.Enc {
		for len(o.Data) < n {
			o.Data = append(o.Data, GenUTF8(r, n/4+1, false)...)
		}
		if r.P(1, 2) {
			o.Data = o.Data[:n]
		}
		o.Data = closeUTF8(o.Data)
	} else {
		o.Data = append(o.Data, GenCP949(r, n/r.Range(1, 2), false)...)
	}
	piece := func() int {
		switch r.Intn(4) {
		case 0:
			return 1 << 20
		case 1:
			return 1<<uint(r.Range(9, 17)) + r.Range(-2, 2)
		case 2:
			return r.Range(100, 40000)
		}
		return len(o.Data) - r.Intn(4)
	}
	pieces := func(l []int) []int {
		if l == nil {
			return nil
		}
		l = make([]int, r.Range(1, 4))
		for i := range l {
			// not so small that a coder which looks at the whole source for
			// each window takes forever
			l[i] = max(piece(), 64, len(o.Data)/64)
		}
		return l
	}
	o.Seg, o.Buf, o.SrcW, o.DstW = pieces(o.Seg), pieces(o.Buf), pieces(o.SrcW), pieces(o.DstW)
	if o.Src != nil {
		o.Src.Seg, o.Src.Short = pieces(o.Src.Seg), nil
	}
	if o.Style == "onebyte" || o.Style == "readfull" {
		o.Style = "direct"
	}
	o.Think = nil
	return o
}

// span is a duration between a nanosecond and a year, often around those that
// programs like.
func span(r *rng) int64 {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1, 2, 3:
		d := []int64{1e6, 1e7, 5e7, 1e8, 25e7, 5e8, 1e9, 2e9, 5e9, 1e10, 3e10, 6e10, 12e10, 3e11, 6e11, 9e11, 18e11, 36e11, 864e11, 7 * 864e11, 30 * 864e11}[r.Intn(21)]
		return d + int64(r.Range(-1, 1))*[]int64{1, 1e3, d / 10}[r.Intn(3)]
	}
	return int64(1 + r.Next()%(1<<uint(r.Range(1, 54))))
}

// jump is by how many seconds a wall clock is set.
func jump(r *rng) int64 {
	j := []int64{1, 2, 30, 60, 3600, 86400, 30 * 86400, 365 * 86400, 20 * 365 * 86400, 40 * 365 * 86400}[r.Intn(10)]
	if r.P(1, 2) {
		j = int64(r.Next() % uint64(j+1))
	}
	if r.P(1, 2) {
		return -j
	}
	return j
}

// slowOp is a stream session in which everybody takes their time.
func slowOp(r *rng) *Op {
	o := streamOp(r, chars(r)/3)
	for len(o.Data) > 1500 {
		o = streamOp(r, r.Range(0, 100))
	}
	switch o.Kind {
	case "rd":
		switch r.Intn(6) {
		case 0:
			o.Src.Fail = fail(r, o.Data)
		case 1:
			truncate(r, o)
		case 2:
			o.Src.Stall = []int{r.Range(0, 2), r.Range(0, 3), r.Range(0, 5)}
			if r.P(1, 3) {
				o.Src.Stall = nil
				patience(r, o, 130)
			}
		}
	case "wr":
		if r.P(1, 3) {
			o.Sink.Faults = sinkFaults(r, o.Data)
			o.Retry = r.Range(1, 3)
		}
	default:
		if r.P(1, 4) {
			xFault(r, o)
		}
	}
	if r.P(1, 5) {
		o.Stop = r.Range(1, 6)
	}
	spans := func() []int64 {
		l := make([]int64, r.Range(1, 5))
		for i := range l {
			if r.P(2, 3) {
				l[i] = span(r)
			}
		}
		return l
	}
	o.Think = nil
	if r.P(2, 3) {
		o.Think = spans()
	}
	if o.Src != nil {
		if o.Src.Gap = nil; r.P(1, 2) {
			o.Src.Gap = spans()
		}
		if o.Src.Hold = 0; r.P(1, 5) {
			o.Src.Hold = span(r)
		}
	}
	if o.Sink != nil && r.P(1, 3) {
		o.Sink.Delay = spans()
	}
	return o
}

// What simulated sources and sinks can be besides readers and writers, and the
// types of the standard library that can take their place.
var (
	SrcKinds  = []string{"closer", "pipe-end", "conn", "stdin", "seeker", "scanner", "writer-to", "len-0", "len-arrived", "len-left", "len-huge", "all", "func", "value", "fd", "limited", "multi", "nop-closer", "tee", "bufio"}
	SrcTypes  = []string{"bytes.Reader", "bytes.Buffer", "strings.Reader", "section", "limited-exact", "file", "os-pipe"}
	SinkKinds = []string{"closer", "pipe-end", "conn", "stdout", "file-like", "string-writer", "byte-writer", "reader-from", "buffer-like", "all", "func", "value", "fd", "multi"}
	SinkTypes = []string{"bytes.Buffer", "bytes.Buffer-drained", "strings.Builder", "bufio", "file", "file-append"}
)

// kindOp is a stream session over a source or sink of some kind.
func kindOp(r *rng) *Op {
	n := chars(r) / 2
	var o *Op
	switch k := r.Intn(10); {
	case k < 4:
		o = rdOp(r, n)
	case k < 8:
		o = wrOp(r, n)
	default:
		for o = xOp(r, r.P(1, 2), n); o.Kind != "tr" && o.Kind != "tw"; o = xOp(r, r.P(1, 2), n) {
		}
	}
	if o.Src != nil {
		real := r.P(1, 4)
		if real && len(o.Data) < 4000 {
			o.Src = &Src{As: SrcTypes[r.Intn(len(SrcTypes))]}
			if r.P(1, 6) && o.Kind == "rd" {
				truncate(r, o)
			}
		} else {
			o.Src.As = SrcKinds[r.Intn(len(SrcKinds))]
			switch r.Intn(5) {
			case 0:
				o.Src.Fail = fail(r, o.Data)
			case 1:
				if o.Kind == "rd" {
					truncate(r, o)
				}
			case 2:
				o.Src.Stall = []int{r.Range(0, 2), r.Range(0, 3), r.Range(0, 5)}
			}
		}
	}
	if o.Sink != nil {
		if r.P(1, 4) && len(o.Data) < 4000 {
			o.Sink = &Sink{As: SinkTypes[r.Intn(len(SinkTypes))]}
		} else {
			o.Sink.As = SinkKinds[r.Intn(len(SinkKinds))]
			if r.P(1, 4) {
				if o.Kind == "wr" {
					o.Sink.Faults = sinkFaults(r, o.Data)
					o.Retry = r.Range(0, 3)
				} else {
					xFault(r, o)
				}
			}
		}
		if r.P(1, 3) {
			o.Mark = []int{r.Range(0, 3), r.Range(0, 2), r.Range(0, 40)}
		}
	}
	if r.P(1, 3) {
		o.Stop = r.Range(1, 6)
		if o.Kind == "rd" || o.Kind == "tr" {
			o.Style = "direct"
		}
	}
	if r.P(1, 12) {
		o.Collect = []int{1}
		if r.P(1, 2) {
			o.Collect = make([]int, r.Range(8, 40))
			o.Collect[0], o.Collect[r.Intn(8)] = 1, 1
		}
		if len(o.Data) > 200 && len(o.Collect) == 1 {
			o.Collect = append(o.Collect, make([]int, 60)...)
		}
	}
	o.Idle = []int64{0, 1e6, 10e9}[r.Intn(3)]
	return o
}

func thinks(r *rng) []int64 {
	if r.P(1, 2) {
		return nil
	}
	return gaps(r)
}

func src(r *rng) *Src {
	s := &Src{Seg: sizes(r, false), Gap: gaps(r), Coalesce: r.P(1, 2), EndWith: r.P(1, 2), Scribble: r.P(1, 2)}
	if r.P(1, 3) {
		s.Short = sizes(r, true)
	}
	return s
}

func rdOp(r *rng, n int) *Op {
	o := &Op{Kind: "rd", Data: GenCP949(r, n, false), Src: src(r), Buf: sizes(r, r.P(1, 4)), Think: thinks(r)}
	o.Style = style(r)
	if r.P(1, 20) {
		repeat(r, o)
	}
	return big(r, o)
}

// repeat makes the stream say the same again and again, in equal pieces.
func repeat(r *rng, o *Op) {
	n := r.Range(1, 40)
	if r.P(1, 5) {
		n = r.Range(40, 400)
	}
	var unit []byte
	if o.Kind == "wr" || o.Enc {
		unit = closeUTF8(GenUTF8(r, n, false))
	} else {
		unit = GenCP949(r, n, false)
	}
	if len(unit) == 0 {
		return
	}
	o.Data = bytes.Repeat(unit, r.Range(2, 6))
	size := []int{len(unit)}
	if r.P(1, 4) && len(unit)%2 == 0 {
		size[0] /= 2
	}
	if o.Src != nil {
		o.Src.Seg, o.Src.Short = size, nil
		o.Src.Coalesce = o.Src.Coalesce && r.P(1, 2)
		if r.P(3, 4) {
			o.Buf = []int{r.Range(size[0], 4*size[0]+64)}
		}
	} else {
		o.Seg = size
	}
}

// patience makes the source supply nothing for long now and then; the caller
// does not give up.
func patience(r *rng, o *Op, most int) {
	if len(o.Data) > 200 || o.Src == nil || o.Src.Stall != nil {
		return
	}
	o.Style = []string{"direct", "direct", "onebyte", "readfull"}[r.Intn(4)]
	if o.Style == "readfull" {
		o.Buf = append(o.Buf, 1)
	}
	o.Src.Stall = make([]int, r.Range(2, 6))
	for i := range o.Src.Stall {
		o.Src.Stall[i] = r.Range(0, 2)
	}
	o.Src.Stall[r.Intn(len(o.Src.Stall))] = r.Range(61, most)
}

func style(r *rng) string {
	if r.P(1, 2) {
		return "direct"
	}
	return []string{"readall", "readfull", "copy", "runes", "lines", "onebyte", "whole", "own"}[r.Intn(8)]
}

var errKinds = []string{"custom", "reset", "timeout", "unexpected-eof", "closed-pipe", "canceled", "deadline",
	"wrapped-eof", "eintr", "eagain", "os-deadline", "os-closed", "no-progress", "short-buffer", "short-src", "short-dst", "truncation", "list"}

func fail(r *rng, data []byte) *Fail {
	f := &Fail{At: r.Intn(len(data) + 1), Kind: errKinds[r.Intn(len(errKinds))], WithData: r.P(1, 2),
		After: []string{"same", "eof", "data", "other"}[r.Intn(4)]}
	if r.P(1, 3) && len(data) > 0 {
		// inside the last or first two-byte character
		f.At = len(data) - 1
		if r.P(1, 2) {
			f.At = 1
		}
	}
	return f
}

// truncate cuts the input of o after the first byte of a two-byte character
// (one time in four it leaves it whole).
func truncate(r *rng, o *Op) {
	if r.P(1, 4) {
		return
	}
	c := code(r, r.Intn(7))
	if len(o.Data) == 0 || r.P(1, 3) {
		o.Data = append(o.Data, byte(c>>8))
		return
	}
	m := model.Decode(o.Data)
	var at []int
	for i := 0; i+1 < len(m.Units); i++ {
		if m.Units[i+1].Src-m.Units[i].Src == 2 {
			at = append(at, m.Units[i].Src+1)
		}
	}
	if len(at) == 0 {
		o.Data = append(o.Data, byte(c>>8))
		return
	}
	o.Data = o.Data[:at[r.Intn(len(at))]]
}

func wrOp(r *rng, n int) *Op {
	o := &Op{Kind: "wr", Data: closeUTF8(GenUTF8(r, n, false)), Seg: sizes(r, r.P(1, 3)), Sink: &Sink{}, Think: thinks(r)}
	if r.P(1, 4) {
		o.Sink.Delay = gaps(r)
	}
	o.Own = []string{"", "scribble"}[r.Intn(2)]
	if r.P(1, 6) {
		o.Style = []string{"string", "copy"}[r.Intn(2)]
	}
	if r.P(1, 20) {
		repeat(r, o)
	}
	return big(r, o)
}

func sinkFaults(r *rng, data []byte) []Fault {
	out := len(model.Encode(data, true).Out)
	var fs []Fault
	for n := r.Range(1, 3); n > 0; n-- {
		f := Fault{At: r.Intn(out + 1), Kind: errKinds[r.Intn(len(errKinds))], Times: 1}
		if r.P(1, 4) {
			f.At = 0
		}
		if r.P(1, 3) {
			f.Kind = "short"
		} else if r.P(1, 4) {
			f.Kind = "full"
		} else {
			f.Whole = r.P(1, 5)
		}
		if r.P(1, 4) {
			f.Times = r.Range(2, 3)
		}
		fs = append(fs, f)
	}
	return fs
}

func windows(r *rng) []int {
	switch r.Intn(4) {
	case 0:
		return []int{r.Range(1, 8)}
	case 1:
		s := make([]int, r.Range(1, 6))
		for i := range s {
			s[i] = r.Range(0, 9)
		}
		return append(s, r.Range(1, 6))
	}
	return sizes(r, true)
}

// xOp is a session of the x/text decoder or encoder.
func xOp(r *rng, enc bool, n int) *Op {
	o := &Op{Enc: enc, Think: thinks(r)}
	if enc {
		o.Data = GenUTF8(r, n, false)
		if r.P(3, 4) {
			o.Data = closeUTF8(o.Data)
		}
	} else {
		o.Data = GenCP949(r, n, false)
	}
	switch r.Intn(7) {
	case 0, 1, 2:
		o.Kind = "td"
		o.SrcW, o.DstW = windows(r), windows(r)
		if len(o.Data) > 2048 {
			for i := range o.SrcW { // a coder may look at its whole source for each small destination
				o.SrcW[i] = min(o.SrcW[i], 1024)
			}
		}
	case 3, 4:
		o.Kind = "tr"
		o.Src = src(r)
		o.Buf = sizes(r, r.P(1, 4))
		o.Style = style(r)
	case 5:
		o.Kind = "tw"
		o.Sink = &Sink{}
		o.Seg = sizes(r, r.P(1, 4))
	default:
		o.Kind = "tb"
		o.Style = []string{"bytes", "string"}[r.Intn(2)]
	}
	if o.Kind != "td" && o.Kind != "tb" && r.P(1, 20) {
		repeat(r, o)
	}
	return big(r, o)
}

// via chooses another of the standard ways to use a transformer.
func via(r *rng, o *Op) *Op {
	if o.Kind != "td" && r.P(1, 8) {
		if o.Via = "chain"; o.Kind == "tb" && r.P(1, 2) {
			o.Via = "append"
		}
	}
	return o
}

func xFault(r *rng, o *Op) {
	for o.Kind == "tb" {
		*o = *xOp(r, o.Enc, 1+chars(r))
	}
	trunc := func() {
		if o.Enc {
			s := []string{"\xea\xb0", "\xea", "\xf0\x9f\x98", "\xf0\x9f", "\xc2", "\xed\x9e"}
			o.Data = append(closeUTF8(o.Data), s[r.Intn(len(s))]...)
		} else {
			truncate(r, o)
		}
	}
	switch {
	case o.Kind == "td":
		trunc()
	case o.Src != nil:
		if r.P(1, 3) {
			trunc()
		} else {
			o.Src.Fail = fail(r, o.Data)
		}
	case o.Sink != nil:
		if r.P(1, 3) {
			trunc()
		} else {
			var out int
			if o.Enc {
				out = len(model.Encode(o.Data, true).Out)
			} else {
				out = len(model.Decode(o.Data).Out)
			}
			o.Sink.Faults = []Fault{{At: r.Intn(out + 1), Kind: errKinds[r.Intn(len(errKinds))], Times: 1}}
		}
	}
}

func reuseOp(r *rng) *Op {
	enc := r.P(1, 2)
	o := &Op{Kind: "reuse", Enc: enc}
	for n := r.Range(2, 5); n > 0; n-- {
		s := xOp(r, enc, chars(r)/2)
		if n > 1 && r.P(3, 4) {
			s.Stop = r.Range(1, 6)
		}
		if n > 1 && r.P(1, 3) {
			xFault(r, s)
		}
		s.Reset = []string{"reset", "inner"}[r.Intn(2)]
		o.Subs = append(o.Subs, s)
	}
	return o
}

func subData(o *Op) int {
	n := 0
	for _, s := range o.Subs {
		n += len(s.Data)
	}
	return n
}

func streamOp(r *rng, n int) *Op {
	switch r.Intn(5) {
	case 0, 1:
		return rdOp(r, n)
	case 2, 3:
		return wrOp(r, n)
	}
	return xOp(r, r.P(1, 2), n)
}

// hang makes a stream session block forever, panic or end its goroutine.
func hang(r *rng, o *Op) {
	kind := []string{"block", "panic", "goexit"}[r.Intn(3)]
	for o.Src == nil && o.Sink == nil {
		*o = *streamOp(r, 1+chars(r)/2)
	}
	if o.Src != nil {
		o.Src.Fail = &Fail{At: r.Intn(len(o.Data) + 1), Kind: kind}
	} else {
		out := len(model.Encode(o.Data, true).Out)
		if o.Kind == "tw" && !o.Enc {
			out = len(model.Decode(o.Data).Out)
		}
		if out == 0 {
			o.Data = append(o.Data, 'x')
			out = 1
		}
		o.Sink.Faults = []Fault{{At: r.Intn(out), Kind: kind, Times: 1}}
	}
}

// stackOp is a stream built of several streams on top of each other.
func stackOp(r *rng, n int) *Op {
	if n > 1500 {
		n = 1500
	}
	o := &Op{Think: thinks(r), Bare: r.P(1, 2)}
	enc := r.P(1, 2) // what the first layer does
	depth := r.Range(2, 4)
	if r.P(1, 8) {
		depth = r.Range(5, 12)
		if n > 60 {
			n = 60
		}
	}
	next := func() {
		if r.P(4, 5) {
			enc = !enc
		}
	}
	if r.P(3, 5) { // reading
		o.Kind = "rstack"
		for i := 0; i < depth; i++ {
			switch {
			case enc:
				o.Layers = append(o.Layers, "tre")
			case r.P(2, 3):
				o.Layers = append(o.Layers, "rd")
			default:
				o.Layers = append(o.Layers, "trd")
			}
			next()
		}
		o.Src = src(r)
		o.Buf = sizes(r, r.P(1, 4))
		o.Style = style(r)
		o.Enc = o.Layers[0] == "tre"
		if o.Enc {
			o.Data = closeUTF8(GenUTF8(r, n, false))
		} else {
			o.Data = GenCP949(r, n, false)
		}
		switch r.Intn(4) {
		case 0:
			o.Src.Fail = fail(r, o.Data)
		case 1:
			if !o.Enc {
				truncate(r, o)
			}
		}
		return o
	}
	o.Kind = "wstack"
	for i := 0; i < depth; i++ {
		switch {
		case !enc:
			o.Layers = append(o.Layers, "twd")
		case r.P(2, 3):
			o.Layers = append(o.Layers, "wr")
		default:
			o.Layers = append(o.Layers, "twe")
		}
		next()
	}
	o.Sink = &Sink{}
	o.Seg = sizes(r, r.P(1, 3))
	o.Own = []string{"", "scribble"}[r.Intn(2)]
	o.Enc = o.Layers[0] != "twd"
	if o.Enc {
		o.Data = closeUTF8(GenUTF8(r, n, false))
	} else {
		o.Data = GenCP949(r, n, false)
	}
	if r.P(1, 4) {
		o.Sink.Faults = sinkFaults(r, closeUTF8(append([]byte(nil), o.Data...)))[:1]
		o.Sink.Faults[0].Times = 1
		if o.Layers[depth-1] != "wr" && o.Sink.Faults[0].Kind == "short" {
			// x/text's Writer trusts its sink not to do this
			o.Sink.Faults[0].Kind = errKinds[r.Intn(len(errKinds))]
		}
	}
	return o
}

// nest lets the source or sink of o use the package itself.
func nest(r *rng, pool *Pool, f *focus, o *Op) {
	if r.P(1, 10) {
		// many levels deep
		at := o
		for d := r.Range(3, 12); d > 0; d-- {
			k := &Nest{At: 1, Op: inner(r, pool, f)}
			for d > 1 && k.Op.Src == nil && k.Op.Sink == nil {
				k.Op = inner(r, nil, f)
			}
			if at.Src != nil {
				at.Src.Nest = append(at.Src.Nest, k)
			} else {
				at.Sink.Nest = append(at.Sink.Nest, k)
			}
			at = k.Op
		}
	}
	for n := r.Intn(4); n > 0; n-- {
		k := &Nest{At: r.Geo(3), Post: r.P(1, 2)}
		k.Op = inner(r, pool, f)
		if r.P(1, 6) && (k.Op.Src != nil || k.Op.Sink != nil) {
			// one level deeper
			d := &Nest{At: r.Geo(2), Post: r.P(1, 2), Op: inner(r, pool, f)}
			if k.Op.Src != nil {
				k.Op.Src.Nest = append(k.Op.Src.Nest, d)
			} else {
				k.Op.Sink.Nest = append(k.Op.Sink.Nest, d)
			}
		}
		if o.Src != nil {
			o.Src.Nest = append(o.Src.Nest, k)
		} else {
			o.Sink.Nest = append(o.Sink.Nest, k)
		}
	}
}

// churnOp is many streams and calls one after another, most of them not seen
// through to their end.
// scaleOp is something done with a text and then with a longer one of the same
// kind: the same over and over, or one that goes on as it starts.
func scaleOp(r *rng, pool *Pool) *Op {
	c := &Op{Kind: "scale", N: r.Range(20, 40)}
	n := r.Range(2000, 6000)
	if r.P(1, 8) {
		n = r.Range(100, 1000)
		c.N *= 5
	}
	on := r.P(1, 2)
	text := func(enc bool, n int) []byte {
		if on {
			n *= c.N
		}
		switch {
		case !on && r.P(1, 6): // the same character over and over
			for {
				b := GenCP949(r, 1, true)
				if enc {
					b = closeUTF8(GenUTF8(r, 1, true))
				}
				if len(b) > 0 && len(b) < 4 {
					return bytes.Repeat(b, n)
				}
			}
		case enc:
			return closeUTF8(GenUTF8(r, n, r.P(1, 2)))
		}
		return GenCP949(r, n, r.P(1, 2))
	}
	var o *Op
	switch k := r.Intn(10); {
	case k < 4:
		o = rdOp(r, 0)
		o.Data = text(false, n)
		o.Src.Gap, o.Src.Hold = nil, 0
		if r.P(1, 6) {
			// a large piece in hand, of which the caller takes little at a time
			c.Mode = "lump" // moving it as a whole does not count
			o.Style, o.Buf = "direct", []int{1 << 20}
			for k := r.Range(1000, 3000); k > 0; k-- {
				o.Buf = append(o.Buf, 16+r.Intn(40))
			}
			o.Src.Seg, o.Src.Short, o.Src.Coalesce = []int{r.Range(1, 40), 1 << 20}, nil, false
		}
	case k < 7:
		o = wrOp(r, 0)
		o.Data = text(true, n/2)
		for i := range o.Seg {
			o.Seg[i] = min(o.Seg[i], 4096)
		}
		o.Sink.Delay = nil
	default:
		cl := &Call{F: scaleFuncs[r.Intn(len(scaleFuncs))]}
		cl.X = text(cl.F != "cp949.From" && cl.F != "Decoder.Bytes" && cl.F != "Decoder.String", n/4)
		if cl.F == "AppendPostposition" {
			cl.B, cl.C = "으로", "로"
		}
		cl.Fix()
		o = &Op{Kind: "call", Call: cl}
	}
	for i := range o.Buf {
		if o.Buf[i] > 0 && o.Buf[i] < 16 {
			o.Buf[i] += r.Range(8, 60)
		}
	}
	if o.Src != nil {
		for i := range o.Src.Seg {
			if o.Src.Seg[i] < 9 {
				o.Src.Seg[i] += r.Range(8, 60)
			}
		}
		for i := range o.Src.Short {
			if o.Src.Short[i] < 9 {
				o.Src.Short[i] = 0
			}
		}
	}
	o.Think = nil
	c.Subs = []*Op{o}
	if on {
		l := *o
		c.Subs = append(c.Subs, &l)
		if o.Call != nil {
			cl := *o.Call
			cl.X = start(cl.F != "cp949.From" && cl.F != "Decoder.Bytes" && cl.F != "Decoder.String", cl.X, c.N)
			cl.Fix()
			o.Call = &cl
		} else {
			o.Data = start(o.Kind == "wr", o.Data, c.N)
		}
	}
	return c
}

// start is the n-th part of a text, whole characters.
func start(enc bool, b []byte, n int) []byte {
	k := len(b) / n
	if enc {
		return closeUTF8(b[:k:k])
	}
	if model.Decode(b[:k]).Tail > 0 && k < len(b) {
		k++
	}
	return b[:k:k]
}

var scaleFuncs = []string{
	"cp949.From", "cp949.To", "Decoder.Bytes", "Encoder.Bytes", "Decoder.String", "Encoder.String",
	"EndsWithConsonant", "LastConsonant", "AppendPostposition", "hanja.Convert", "hanja.Convert",
}

func churnOp(r *rng, pool *Pool, many bool) *Op {
	c := &Op{Kind: "churn", Style: []string{"turns", "blocks"}[r.Intn(2)]}
	k := r.Range(1, 4)
	max := 60
	if !many {
		switch r.Intn(120) {
		case 0, 1:
			c.Mode, max, k = "distinct", 4000, 1
		case 2, 3, 4, 5, 6, 7, 8, 9, 10, 11:
			c.Mode, max = "heap", 30
		}
	}
	// with calls only, of one function: what it keeps shows sooner
	fn := ""
	if c.Mode != "" && pool != nil && r.P(1, 2) {
		fn = append(append([]string(nil), byteFuncs...), strFuncs...)[r.Intn(len(byteFuncs)+len(strFuncs))]
	}
	for len(c.Subs) < k {
		if fn != "" || pool != nil && r.P(1, 6) {
			fam := pool.Calls[r.Intn(len(pool.Calls))]
			cl := fam[r.Intn(len(fam))]
			if fn != "" && cl.F != fn {
				continue
			}
			if c.Mode == "distinct" {
				if len(cl.X) == 0 {
					continue
				}
				y := *cl
				for len(y.X) < 2000 {
					y.X = append(y.X[:len(y.X):len(y.X)], cl.X...)
				}
				cl = &y
			} else if len(cl.X) > 300 {
				continue
			}
			c.Subs = append(c.Subs, &Op{Kind: "call", Call: cl, Own: []string{"", "scribble"}[r.Intn(2)]})
			continue
		}
		n := r.Range(0, max/2)
		if c.Mode == "distinct" {
			n = r.Range(700, 1000)
		}
		var o *Op
		if r.P(1, 6) && c.Mode != "distinct" {
			o = stackOp(r, n/2)
			for len(o.Layers) > 4 {
				o = stackOp(r, n/2)
			}
		} else {
			o = streamOp(r, n)
			for len(o.Data) > 20*max {
				o = streamOp(r, n)
			}
		}
		o.Think = nil
		var waits [][]int64
		if o.Src != nil {
			waits = append(waits, o.Src.Gap)
		}
		if o.Sink != nil {
			waits = append(waits, o.Sink.Delay)
		}
		for _, l := range waits {
			for i := range l {
				l[i] = min(l[i], 1e9) // there are many streams, and time is short
			}
		}
		for _, l := range [][]int{o.Buf, o.SrcW, o.DstW} {
			for i := range l {
				l[i] = min(l[i], 512)
			}
		}
		if c.Mode == "distinct" {
			o.Seg, o.Buf, o.SrcW, o.DstW = nil, []int{4096}, []int{4096}, []int{4096}
			if o.Src != nil {
				o.Src = &Src{}
				o.Style = "direct"
			}
			c.Subs = append(c.Subs, o)
			continue
		}
		switch r.Intn(4) {
		case 0: // seen through
		case 1: // given up
			o.Stop = r.Range(1, 4)
		default:
			switch {
			case o.Src != nil:
				if o.Kind == "rd" && r.P(1, 4) {
					o.Src.Endless = true
				} else if !o.Enc && r.P(1, 5) {
					truncate(r, o)
				} else if o.Src.Fail = fail(r, o.Data); r.P(1, 3) {
					o.Src.Fail.Kind = "panic"
				}
			case o.Kind == "wr":
				if o.Sink.Faults = sinkFaults(r, o.Data); r.P(1, 3) {
					o.Sink.Faults[0].Kind = "panic"
				}
				o.Retry = r.Intn(2)
			case o.Sink != nil && len(o.Layers) == 0:
				o.Sink.Faults = []Fault{{At: r.Intn(len(o.Data) + 1), Kind: []string{"custom", "panic", "reset"}[r.Intn(3)], Times: 1}}
			default:
				o.Stop = r.Range(1, 4)
			}
		}
		c.Subs = append(c.Subs, o)
	}
	switch c.Mode {
	case "distinct":
		c.N = 4000
		c.Style = "turns"
	case "heap":
		c.N = 8000
		c.Style = "turns"
	default:
		c.N = 200*k + r.Range(0, 100)
	}
	return c
}

// Young is how many of the first runs may be executed early in a process.
const Young = 8000

// young draws callers that all do the same kind of thing for the first time.
func young(r *rng, p *Plan, pool *Pool) {
	n := r.Range(2, 4)
	var cs []*Call
	if r.P(3, 4) {
		// calls of one function, with whatever arguments
		f := pool.Calls[r.Intn(len(pool.Calls))]
		fn := f[r.Intn(len(f))].F
		for _, f := range pool.Calls {
			for _, c := range f {
				if c.F == fn && len(c.X) <= 300 {
					cs = append(cs, c)
				}
			}
		}
	}
	kind := ""
	for i := 0; i < n; i++ {
		t := &Task{}
		for k := r.Range(1, 3); k > 0; k-- {
			if len(cs) > 0 {
				t.Ops = append(t.Ops, &Op{Kind: "call", Call: cs[r.Intn(len(cs))], Own: []string{"", "keep"}[r.Intn(2)]})
				continue
			}
			o := streamOp(r, r.Range(1, 12))
			for kind != "" && o.Kind != kind || len(o.Data) > 300 {
				o = streamOp(r, r.Range(1, 12))
			}
			kind = o.Kind
			t.Ops = append(t.Ops, o)
		}
		p.Tasks = append(p.Tasks, t)
	}
}

func inner(r *rng, pool *Pool, f *focus) *Op {
	if pool != nil && len(f.fam) > 0 && r.P(1, 2) {
		fam := pool.Calls[f.fam[r.Intn(len(f.fam))]]
		if r.P(1, 3) {
			fam = pool.Calls[r.Intn(len(pool.Calls))]
		}
		if cl := fam[r.Intn(len(fam))]; len(cl.X) <= 1500 {
			return &Op{Kind: "call", Call: cl, Own: []string{"", "keep", "scribble"}[r.Intn(3)]}
		}
	}
	o := streamOp(r, r.Range(0, 40))
	for len(o.Data) > 600 {
		o = streamOp(r, r.Range(0, 40))
	}
	o.Think = nil
	return o
}

type focus struct {
	fam  []int
	pCal int
}

func newFocus(r *rng, pool *Pool) *focus {
	f := &focus{pCal: r.Range(0, 10)}
	if pool != nil && len(pool.Calls) > 0 {
		for n := r.Range(1, 4); n > 0; n-- {
			f.fam = append(f.fam, r.Intn(len(pool.Calls)))
		}
	}
	return f
}

func mixOps(r *rng, pool *Pool, f *focus, n int, hist bool) []*Op {
	var ops []*Op
	for ; n > 0; n-- {
		if pool != nil && len(f.fam) > 0 && r.Intn(10) < f.pCal {
			fam := pool.Calls[f.fam[r.Intn(len(f.fam))]]
			if r.P(1, 8) {
				fam = pool.Calls[r.Intn(len(pool.Calls))]
			}
			for k := r.Range(1, 4); k > 0; k-- {
				cl := fam[r.Intn(len(fam))]
				if !hist && len(cl.X) > 1500 {
					continue // under a scheduler that switches at every step these take too long
				}
				ops = append(ops, &Op{Kind: "call", Call: cl, Own: []string{"", "keep", "scribble"}[r.Intn(3)]})
			}
			continue
		}
		o := streamOp(r, chars(r)/3)
		for len(o.Data) > 600 {
			o = streamOp(r, r.Range(0, 60))
		}
		if hist {
			o.Own = []string{"", "keep", "scribble"}[r.Intn(3)]
		}
		if o.Src != nil && r.P(1, 4) {
			o.Src.Hold = int64(r.Range(1, 1000))
		}
		if o.Sink != nil && r.P(1, 4) {
			o.Sink.Delay = []int64{int64(r.Range(0, 1000)), int64(r.Range(1, 1000))}
		}
		ops = append(ops, o)
	}
	return ops
}

func genLink(r *rng) *Link {
	l := &Link{Mode: "stream", MTU: 1 + r.Intn(1<<uint(r.Range(1, 11))), Delay: int64(r.Range(0, 200)) * 1e6}
	l.Window = l.MTU * r.Range(1, 8)
	l.RTO = 3*l.Delay + int64(r.Range(1, 50))*1e6
	for d := 0; d < 2; d++ {
		l.Seg[d] = sizes(r, r.P(1, 4))
		l.Buf[d] = sizes(r, false)
		l.Think[d] = thinks(r)
		l.Style[d] = "direct"
	}
	if r.P(1, 2) {
		l.Jitter = make([]int64, r.Range(1, 6))
		for i := range l.Jitter {
			l.Jitter[i] = int64(r.Range(0, 300)) * 1e6
		}
	}
	if r.P(1, 3) {
		l.Mode = "dialogue"
		l.Delim = []string{"\n", "끝", ".", "\r\n"}[r.Intn(4)]
		for n := 2 * r.Range(1, 5); n > 0; n-- {
			t := GenUTF8(r, r.Range(0, 30), true)
			if r.P(1, 3) {
				// the last thing before the end of the message is a two-byte character
				t = append(t, "가"...)
			}
			t = bytes.ReplaceAll(t, []byte(l.Delim), []byte(" "))
			l.Texts = append(l.Texts, t)
		}
	} else {
		n := chars(r)
		if n > 2500 {
			n = 2500
		}
		l.Texts = append(l.Texts, GenUTF8(r, n, true))
		if u := GenUTF8(r, r.Range(1, 60), true); len(u) > 0 && r.P(1, 12) {
			// the same again and again, in equal pieces
			l.Texts[0] = bytes.Repeat(u, r.Range(2, 8))
			e := len(model.Encode(u, true).Out)
			if l.Seg[0] = []int{len(u)}; r.P(1, 2) {
				l.MTU = e
			} else {
				l.MTU = max(l.MTU, e)
			}
			l.Window = l.MTU * r.Range(1, 8)
			l.Buf[1] = []int{r.Range(e, 2*e+64)}
		}
		if r.P(1, 3) {
			l.Texts = append(l.Texts, GenUTF8(r, r.Range(0, 200), true))
		} else {
			l.Texts = append(l.Texts, nil)
		}
		for n := r.Intn(4); n > 0; n-- {
			d := 0
			if len(l.Texts[1]) > 0 {
				d = r.Intn(2)
			}
			out := len(model.Encode(l.Texts[d], true).Out)
			l.Resets = append(l.Resets, Reset{Dir: d, At: r.Intn(out + 1)})
		}
	}
	total := 0
	for _, t := range l.Texts {
		total += len(t)
	}
	if total/l.MTU > 400 {
		l.MTU = total/400 + 1
		l.Window = l.MTU * 8
	}
	np := total/l.MTU + 4
	for n := r.Intn(7); n > 0; n-- {
		l.Faults = append(l.Faults, PFault{Dir: r.Intn(2), N: r.Intn(np * 2), Kind: []string{"drop", "drop", "dup", "late", "ackdrop"}[r.Intn(5)],
			D: int64(r.Range(1, 2000)) * 1e6})
	}
	if r.P(1, 3) {
		t := int64(0)
		for n := r.Range(1, 3); n > 0; n-- {
			t += int64(r.Range(0, 1000)) * 1e6
			e := t + int64(r.Range(1, 60000))*1e6
			l.Parts = append(l.Parts, Part{t, e})
			t = e
		}
	}
	return l
}
