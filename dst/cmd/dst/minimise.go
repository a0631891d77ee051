package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"

	"verif.local/dst/plan"
	"verif.local/dst/simrt"
)

// replayFile reproduces a violation: plans executed one after another in one
// fresh process, the last one showing it.
type replayFile struct {
	Property string       `json:"property"`
	Seed     uint64       `json:"verif_seed"`
	Index    int          `json:"index"`
	Kind     string       `json:"kind"`
	What     string       `json:"what"`
	Race     bool         `json:"race,omitempty"`
	Plans    []*plan.Plan `json:"plans"`
	Hash     uint64       `json:"hash"`
	Trace    []string     `json:"trace"`
	Log      string       `json:"log,omitempty"`
	Attempts int          `json:"minimisation_attempts"`
	Span     *span        `json:"span,omitempty"` // execute these runs instead of the plans
}

type shrinker struct {
	e        *env
	kind     string
	deadline time.Time
	prefix   []*plan.Plan
	cur      *plan.Plan
	f        *found
	n        int
}

// test returns the finding of the candidate if it fails the same way.
func (s *shrinker) test(prefix []*plan.Plan, p *plan.Plan) *found {
	r, err := s.e.fresh(append(append([]*plan.Plan(nil), prefix...), p), false, s.kind)
	if err != nil || r.Found == nil || r.Found.PlanIndex != len(prefix) || r.Found.Viol.Kind != s.kind {
		return nil
	}
	return r.Found
}

// first tries candidates in parallel and takes the first that still fails.
func (s *shrinker) first(cands []*plan.Plan) bool {
	const w = 8
	for len(cands) > 0 && time.Now().Before(s.deadline) {
		n := len(cands)
		if n > w {
			n = w
		}
		got := make([]*found, n)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			s.n++
			go func() { defer wg.Done(); got[i] = s.test(s.prefix, cands[i]) }()
		}
		wg.Wait()
		for i := range got {
			if got[i] != nil {
				s.cur, s.f = cands[i], got[i]
				return true
			}
		}
		cands = cands[n:]
	}
	return false
}

// with makes a candidate, for several callers under several schedules.
func (s *shrinker) with(mut func(p *plan.Plan) bool) []*plan.Plan {
	p := clonePlan(s.cur)
	if !mut(p) {
		return nil
	}
	p.Walk(func(o *plan.Op) { o.Text = "" })
	if len(p.Tasks) < 2 && p.Link == nil || p.Sched.Kind == "explicit" {
		return []*plan.Plan{p}
	}
	l := []*plan.Plan{p}
	q := clonePlan(p)
	q.Sched = simrt.Sched{Kind: "seq", Seed: p.Sched.Seed}
	l = append(l, q)
	for i := 0; i < 6; i++ {
		q := clonePlan(p)
		q.Sched.Seed = simrt.Mix(p.Sched.Seed, uint64(i)+1)
		l = append(l, q)
	}
	return l
}

func (s *shrinker) ops() []*plan.Op {
	var l []*plan.Op
	for _, t := range s.cur.Tasks {
		l = append(l, t.Ops...)
	}
	return l
}

func opAt(p *plan.Plan, i int) *plan.Op {
	for _, t := range p.Tasks {
		if i < len(t.Ops) {
			return t.Ops[i]
		}
		i -= len(t.Ops)
	}
	return nil
}

func (s *shrinker) shrink() {
	// earlier runs of the process
	for len(s.prefix) > 0 && time.Now().Before(s.deadline) {
		ok := false
		for k := len(s.prefix); k >= 1 && !ok; k /= 2 {
			for from := 0; from < len(s.prefix); from += k {
				to := min(from+k, len(s.prefix))
				c := append(append([]*plan.Plan(nil), s.prefix[:from]...), s.prefix[to:]...)
				s.n++
				if f := s.test(c, s.cur); f != nil {
					s.prefix, s.f, ok = c, f, true
					break
				}
				if time.Now().After(s.deadline) {
					return
				}
			}
		}
		if !ok {
			break
		}
	}
	for round := 0; round < 6 && time.Now().Before(s.deadline); round++ {
		progress := false
		try := func(mut func(p *plan.Plan) bool) bool {
			if s.first(s.with(mut)) {
				progress = true
				return true
			}
			return false
		}
		// callers
		for i := len(s.cur.Tasks) - 1; i >= 0 && len(s.cur.Tasks) > 1; i-- {
			try(func(p *plan.Plan) bool { p.Tasks = append(p.Tasks[:i], p.Tasks[i+1:]...); return true })
		}
		for i := range s.cur.Tasks {
			try(func(p *plan.Plan) bool { ok := p.Tasks[i].Delay != 0; p.Tasks[i].Delay = 0; return ok })
		}
		try(func(p *plan.Plan) bool { ok := p.Wall != 0; p.Wall = 0; return ok })
		try(func(p *plan.Plan) bool { ok := p.Shift; p.Shift = false; return ok })
		try(func(p *plan.Plan) bool { ok := p.Host > 1; p.Host = min(p.Host, 1); return ok })
		if len(s.prefix) == 0 {
			try(func(p *plan.Plan) bool { ok := p.Proc != 0; p.Proc = 0; return ok })
		}
		try(func(p *plan.Plan) bool { ok := p.Clock != nil; p.Clock = nil; return ok })
		// operations, in halves first
		for ti := range s.cur.Tasks {
			for k := len(s.cur.Tasks[ti].Ops); k >= 1; k /= 2 {
				for from := 0; from < len(s.cur.Tasks[ti].Ops); {
					n := len(s.cur.Tasks[ti].Ops)
					to := min(from+k, n)
					if to-from == n && len(s.cur.Tasks) == 1 {
						from = to
						continue
					}
					if !try(func(p *plan.Plan) bool {
						o := p.Tasks[ti].Ops
						p.Tasks[ti].Ops = append(append([]*plan.Op(nil), o[:from]...), o[to:]...)
						return true
					}) {
						from = to
					}
				}
			}
		}
		for i := range s.ops() {
			s.shrinkOp(try, func(p *plan.Plan) *plan.Op { return opAt(p, i) })
			if o := opAt(s.cur, i); o.Kind == "scale" && len(o.Subs) > 1 && !try(func(p *plan.Plan) bool {
				o := opAt(p, i)
				o.Subs = o.Subs[:1]
				return true
			}) {
				continue // the two texts belong together
			}
			for j := 0; j < len(opAt(s.cur, i).Subs); {
				if len(opAt(s.cur, i).Subs) > 1 && try(func(p *plan.Plan) bool {
					o := opAt(p, i)
					o.Subs = append(append([]*plan.Op(nil), o.Subs[:j]...), o.Subs[j+1:]...)
					return true
				}) {
					continue
				}
				s.shrinkOp(try, func(p *plan.Plan) *plan.Op { return opAt(p, i).Subs[j] })
				j++
			}
		}
		if s.cur.Link != nil {
			s.shrinkLink(try)
		}
		if !progress {
			break
		}
	}
	// the schedule: explicit switches, as few as possible
	if len(s.cur.Tasks) > 1 || s.cur.Link != nil {
		p := clonePlan(s.cur)
		p.Sched = simrt.Sched{Kind: "explicit", Seed: s.cur.Sched.Seed, Switches: s.f.Recorded}
		if s.first([]*plan.Plan{p}) {
			for k := len(s.cur.Sched.Switches); k >= 1 && time.Now().Before(s.deadline); k /= 2 {
				for from := 0; from < len(s.cur.Sched.Switches) && time.Now().Before(s.deadline); {
					to := min(from+k, len(s.cur.Sched.Switches))
					if !s.first(s.with(func(p *plan.Plan) bool {
						p.Sched.Switches = append(append([]simrt.Switch(nil), p.Sched.Switches[:from]...), p.Sched.Switches[to:]...)
						return true
					})) {
						from = to
					}
				}
			}
		}
	}
}

func (s *shrinker) shrinkOp(try func(func(*plan.Plan) bool) bool, get func(*plan.Plan) *plan.Op) {
	on := func(f func(o *plan.Op) bool) { try(func(p *plan.Plan) bool { return f(get(p)) }) }
	on(func(o *plan.Op) bool { ok := o.Think != nil; o.Think = nil; return ok })
	on(func(o *plan.Op) bool { ok := o.Collect != nil; o.Collect = nil; return ok })
	on(func(o *plan.Op) bool { ok := len(o.Collect) > 1; o.Collect = []int{1}; return ok })
	on(func(o *plan.Op) bool { ok := o.Mark != nil; o.Mark = nil; return ok })
	on(func(o *plan.Op) bool { ok := o.Via != ""; o.Via = ""; return ok })
	on(func(o *plan.Op) bool { ok := o.Idle != 0; o.Idle = 0; return ok })
	on(func(o *plan.Op) bool { ok := o.Own != ""; o.Own = ""; return ok })
	on(func(o *plan.Op) bool {
		ok := o.Kind != "tb" && o.Style != "direct" && o.Style != ""
		o.Style = "direct"
		return ok
	})
	on(func(o *plan.Op) bool { ok := o.Retry > 1; o.Retry = 1; return ok })
	for n := 0; get(s.cur).N > 8 && n != get(s.cur).N; {
		n = get(s.cur).N
		on(func(o *plan.Op) bool { o.N /= 2; return true })
	}
	for k := len(get(s.cur).Crash) - 1; k >= 0; k-- {
		on(func(o *plan.Op) bool {
			if k >= len(o.Crash) {
				return false
			}
			o.Crash = append(o.Crash[:k], o.Crash[k+1:]...)
			return true
		})
	}
	if get(s.cur).Src != nil {
		src := func(f func(x *plan.Src) bool) { on(func(o *plan.Op) bool { return f(o.Src) }) }
		src(func(x *plan.Src) bool { ok := x.Gap != nil; x.Gap = nil; return ok })
		src(func(x *plan.Src) bool { ok := x.Short != nil; x.Short = nil; return ok })
		src(func(x *plan.Src) bool { ok := x.Stall != nil; x.Stall = nil; return ok })
		src(func(x *plan.Src) bool { ok := x.Scribble; x.Scribble = false; return ok })
		src(func(x *plan.Src) bool { ok := x.As != ""; x.As = ""; return ok })
		src(func(x *plan.Src) bool { ok := x.Hold != 0; x.Hold = 0; return ok })
		src(func(x *plan.Src) bool { ok := x.Endless; x.Endless = false; return ok })
		src(func(x *plan.Src) bool { ok := x.Fail != nil; x.Fail = nil; return ok })
		src(func(x *plan.Src) bool { ok := x.EndWith; x.EndWith = false; return ok })
		for k := len(get(s.cur).Src.Nest) - 1; k >= 0; k-- {
			src(func(x *plan.Src) bool {
				if k >= len(x.Nest) {
					return false
				}
				x.Nest = append(x.Nest[:k], x.Nest[k+1:]...)
				return true
			})
		}
	}
	for len(get(s.cur).Layers) > 1 {
		n := len(get(s.cur).Layers)
		on(func(o *plan.Op) bool { o.Layers = o.Layers[:n-1]; return true })
		if len(get(s.cur).Layers) == n {
			break
		}
	}
	if get(s.cur).Sink != nil {
		on(func(o *plan.Op) bool { ok := o.Sink.Delay != nil; o.Sink.Delay = nil; return ok })
		on(func(o *plan.Op) bool { ok := o.Sink.As != ""; o.Sink.As = ""; return ok })
		for k := len(get(s.cur).Sink.Nest) - 1; k >= 0; k-- {
			on(func(o *plan.Op) bool {
				if k >= len(o.Sink.Nest) {
					return false
				}
				o.Sink.Nest = append(o.Sink.Nest[:k], o.Sink.Nest[k+1:]...)
				return true
			})
		}
		for k := len(get(s.cur).Sink.Faults) - 1; k >= 0; k-- {
			on(func(o *plan.Op) bool {
				if k >= len(o.Sink.Faults) {
					return false
				}
				o.Sink.Faults = append(o.Sink.Faults[:k], o.Sink.Faults[k+1:]...)
				return true
			})
		}
	}
	lists := func(f func(o *plan.Op) *[]int, one int) {
		on(func(o *plan.Op) bool {
			l := f(o)
			if len(*l) == 0 || len(*l) == 1 && (*l)[0] == one {
				return false
			}
			*l = []int{one}
			return true
		})
		for k := len(*f(get(s.cur))) - 1; k > 0; k-- {
			on(func(o *plan.Op) bool {
				l := f(o)
				if k >= len(*l) || len(*l) < 2 {
					return false
				}
				*l = append(append([]int(nil), (*l)[:k]...), (*l)[k+1:]...)
				return true
			})
		}
	}
	lists(func(o *plan.Op) *[]int { return &o.Buf }, 4096)
	lists(func(o *plan.Op) *[]int { return &o.Seg }, 1<<20)
	lists(func(o *plan.Op) *[]int { return &o.SrcW }, 4096)
	lists(func(o *plan.Op) *[]int { return &o.DstW }, 4096)
	if get(s.cur).Src != nil {
		lists(func(o *plan.Op) *[]int { return &o.Src.Seg }, 1<<20)
		lists(func(o *plan.Op) *[]int { return &o.Src.Stall }, 1)
	}
	// the data: cut pieces out, moving fault positions along
	for k := len(get(s.cur).Data); k >= 1 && time.Now().Before(s.deadline); k /= 2 {
		for from := 0; from < len(get(s.cur).Data) && time.Now().Before(s.deadline); {
			to := min(from+k, len(get(s.cur).Data))
			if !try(func(p *plan.Plan) bool { cutData(get(p), from, to); return true }) {
				from = to
			}
		}
	}
	if o := get(s.cur); o.Call != nil && len(o.Call.X) > 0 && o.Want == "" {
		_ = o // calls with a baseline keep their arguments
	}
}

func cutData(o *plan.Op, from, to int) {
	o.Data = append(append([]byte(nil), o.Data[:from]...), o.Data[to:]...)
	if o.Kind == "wr" && len(o.Data) > 0 {
		// keep the text whole at its end
		if o.Data[len(o.Data)-1] >= 0x80 {
			o.Data = append(o.Data, '.')
		}
	}
	if o.Src != nil && o.Src.Fail != nil && o.Src.Fail.At > from {
		o.Src.Fail.At -= min(to-from, o.Src.Fail.At-from)
	}
	if o.Sink != nil {
		for i := range o.Sink.Faults {
			if f := &o.Sink.Faults[i]; f.At > from {
				f.At -= min(to-from, f.At-from)
			}
		}
	}
	for i := range o.Crash {
		if c := &o.Crash[i]; c.At > from {
			c.At = max(1, c.At-min(to-from, c.At-from))
		}
	}
}

func (s *shrinker) shrinkLink(try func(func(*plan.Plan) bool) bool) {
	on := func(f func(l *plan.Link) bool) bool { return try(func(p *plan.Plan) bool { return f(p.Link) }) }
	on(func(l *plan.Link) bool { ok := l.Faults != nil; l.Faults = nil; return ok })
	on(func(l *plan.Link) bool { ok := l.Resets != nil; l.Resets = nil; return ok })
	on(func(l *plan.Link) bool { ok := l.Parts != nil; l.Parts = nil; return ok })
	on(func(l *plan.Link) bool { ok := l.Jitter != nil; l.Jitter = nil; return ok })
	for k := len(s.cur.Link.Faults) - 1; k >= 0; k-- {
		on(func(l *plan.Link) bool {
			if k >= len(l.Faults) {
				return false
			}
			l.Faults = append(l.Faults[:k], l.Faults[k+1:]...)
			return true
		})
	}
	for k := len(s.cur.Link.Resets) - 1; k >= 0; k-- {
		on(func(l *plan.Link) bool {
			if k >= len(l.Resets) {
				return false
			}
			l.Resets = append(l.Resets[:k], l.Resets[k+1:]...)
			return true
		})
	}
	for d := 0; d < 2; d++ {
		on(func(l *plan.Link) bool { ok := l.Think[d] != nil; l.Think[d] = nil; return ok })
		on(func(l *plan.Link) bool { ok := len(l.Seg[d]) > 1; l.Seg[d] = []int{1 << 20}; return ok })
		on(func(l *plan.Link) bool { ok := len(l.Buf[d]) > 1; l.Buf[d] = []int{4096}; return ok })
	}
	if s.cur.Link.Mode == "dialogue" {
		for len(s.cur.Link.Texts) > 1 && on(func(l *plan.Link) bool { l.Texts = l.Texts[:len(l.Texts)-1]; return true }) {
		}
	} else if len(s.cur.Link.Texts) > 1 {
		on(func(l *plan.Link) bool { ok := len(l.Texts[1]) > 0; l.Texts[1] = nil; return ok })
	}
	for ti := range s.cur.Link.Texts {
		for k := len(s.cur.Link.Texts[ti]); k >= 1 && time.Now().Before(s.deadline); k /= 2 {
			for from := 0; from < len(s.cur.Link.Texts[ti]); {
				t := s.cur.Link.Texts[ti]
				to := min(from+k, len(t))
				// stay on character boundaries
				lo, hi := from, to
				for lo < len(t) && t[lo]&0xc0 == 0x80 {
					lo++
				}
				for hi < len(t) && t[hi]&0xc0 == 0x80 {
					hi++
				}
				if lo >= hi || !on(func(l *plan.Link) bool {
					l.Texts[ti] = append(append([]byte(nil), t[:lo]...), t[hi:]...)
					for i := range l.Resets {
						if l.Resets[i].Dir == ti && l.Resets[i].At > lo {
							l.Resets[i].At -= min(hi-lo, l.Resets[i].At-lo)
						}
					}
					return true
				}) {
					from = to
				}
			}
		}
	}
}

// report minimises a confirmed violation and writes its replay file.
func (e *env) report(prop string, c *confirmed, pool *plan.Pool) string {
	budget := 40 * time.Second
	if c.race {
		budget = 60 * time.Second
	}
	s := &shrinker{e: e, kind: c.f.Viol.Kind, deadline: time.Now().Add(budget), prefix: c.prefix, cur: c.plan, f: c.f}
	if c.span == nil {
		s.shrink()
	}
	m := &confirmed{prefix: s.prefix, plan: s.cur, f: s.f, race: c.race}
	if same, err := e.control(m); err == nil && same != "" {
		// the smaller plan shows something else: keep the original
		m = c
	}
	plans := append(append([]*plan.Plan(nil), m.prefix...), m.plan)
	for _, p := range plans {
		humanise(p)
	}
	rf := &replayFile{Property: prop, Seed: e.seed, Index: c.f.Index, Kind: m.f.Viol.Kind, What: m.f.Viol.Msg, Race: c.race, Plans: plans, Attempts: s.n, Span: c.span}
	if c.span != nil {
		rf.Hash, rf.Log = c.f.Hash, c.f.Log
		if len(rf.Log) > 6000 {
			rf.Log = rf.Log[:6000]
		}
	} else if r, err := e.fresh(plans, true, m.f.Viol.Kind); err == nil && r.Found != nil {
		rf.Hash, rf.What = r.Found.Hash, r.Found.Viol.Msg
		rf.Trace = r.Found.Trace
		rf.Log = r.Found.Log
		*c.f.Viol = *r.Found.Viol
		if len(rf.Log) > 6000 {
			rf.Log = rf.Log[:6000]
		}
		if len(rf.Trace) > 400 {
			rf.Trace = append(append([]string(nil), rf.Trace[:150]...), append([]string{"..."}, rf.Trace[len(rf.Trace)-200:]...)...)
		}
	}
	path := filepath.Join(e.verif, "replays", fmt.Sprintf("%s-seed%d-run%d.json", prop, e.seed, c.f.Index))
	if err := writeJSON(path, rf); err != nil {
		die("%v", err)
	}
	return path
}

// replay executes a replay file against the current tree.
func (e *env) replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		die("%v", err)
	}
	e.buildAll(rf.Race, rf.Property)
	if rf.Span != nil {
		return e.replaySpan(path, &rf)
	}
	var calls []*plan.Call
	for _, p := range rf.Plans {
		for _, o := range p.CallOps() {
			o.Call.Fix()
			calls = append(calls, o.Call)
		}
	}
	if len(calls) > 0 {
		want, err := e.solo(calls)
		if err != nil {
			die("baseline: %v", err)
		}
		for _, p := range rf.Plans {
			for _, o := range p.CallOps() {
				if o.Want != "" {
					o.Want = want[o.Call.Key()]
				}
			}
		}
	}
	r, err := e.fresh(rf.Plans, true, rf.Kind)
	if err != nil {
		die("%v", err)
	}
	for _, t := range r.Traces {
		for _, l := range t {
			fmt.Println(l)
		}
	}
	if r.Found == nil {
		fmt.Printf("%s: the replay shows no violation on this tree\n", rf.Property)
		return 0
	}
	if r.Found.Log != "" {
		fmt.Println(r.Found.Log)
	}
	fmt.Printf("[%s] %s\n", r.Found.Viol.Kind, r.Found.Viol.Msg)
	if r.Found.Hash == rf.Hash {
		fmt.Println("execution identical to the recorded one")
	} else {
		fmt.Println("execution differs from the recorded one (other code?)")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	return 1
}

// replaySpan executes a replay file that names runs instead of listing plans.
func (e *env) replaySpan(path string, rf *replayFile) int {
	e.seed = rf.Seed
	poolFile := ""
	if rf.Span.Families > 0 {
		pool := plan.GenPool(e.seed, rf.Span.Families)
		var all []*plan.Call
		for _, f := range pool.Calls {
			all = append(all, f...)
		}
		want, err := e.solo(all)
		if err != nil {
			die("baseline: %v", err)
		}
		pool.Want = want
		poolFile = filepath.Join(e.scratch, "pool.json")
		if err := writeJSON(poolFile, pool); err != nil {
			die("%v", err)
		}
	}
	f, err := e.spanFound(rf.Property, rf.Span, rf.Race, poolFile, rf.Kind, true)
	if err != nil {
		die("%v", err)
	}
	if f == nil {
		fmt.Printf("%s: the replay shows no violation on this tree\n", rf.Property)
		return 0
	}
	for _, l := range f.Trace {
		fmt.Println(l)
	}
	fmt.Println(f.Log)
	fmt.Printf("[%s] %s\n", f.Viol.Kind, f.Viol.Msg)
	if f.Hash == rf.Hash {
		fmt.Println("execution identical to the recorded one")
	} else {
		fmt.Println("execution differs from the recorded one (other code?)")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	return 1
}
