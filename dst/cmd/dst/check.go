package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/dst/plan"
)

// cfg is how much a property is explored.
type cfg struct {
	runs     int // quick, plain build
	raceRuns int // quick, race build
	pool     bool
	families int
	cold     int // processes per worker that execute only a few runs
}

var cfgs = map[string]cfg{
	"C01": {runs: 120000},
	"C02": {runs: 160000},
	"C03": {runs: 120000},
	"C04": {runs: 100000},
	"C05": {runs: 40000},
	"C06": {runs: 400000},
	"C07": {runs: 480000},
	"C08": {runs: 480000},
	"C09": {runs: 160000},
	"C10": {runs: 160000},
	"C11": {runs: 160000},
	"C12": {runs: 60000},
	"C13": {runs: 64000, raceRuns: 16000, pool: true, families: 150, cold: 100},
	"C14": {runs: 80000, pool: true, families: 200, cold: 20},
	"C15": {runs: 80000, pool: true, families: 150, cold: 20},
	"C16": {runs: 80000},
	"C17": {runs: 120000, pool: true, families: 150, cold: 10},
	"C18": {runs: 5000, pool: true, families: 150},
	"C19": {runs: 320000, pool: true, families: 150, cold: 10},
	"C20": {runs: 120000},
	"C21": {runs: 100000, pool: true, families: 300, cold: 60},
	"C22": {runs: 2000},
}

type slotResult struct {
	reps       []*report
	viol       *confirmed
	suppressed []string
	known      []string
	err        error
	hashes     []string
	race       bool
	cut        bool
	procs      int
	unrep      *errUnrepeatable
}

// errUnrepeatable: a finding that cannot be replayed is not reported as a
// violation, and without one that can the check gives no verdict.
type errUnrepeatable struct{ s string }

func (e *errUnrepeatable) Error() string { return e.s }

// coldRuns is how many runs a young process executes.
const coldRuns = 3

// confirmed is a violation reproduced in a fresh process.
type confirmed struct {
	prefix []*plan.Plan // earlier runs of the same process it needs
	plan   *plan.Plan
	f      *found
	race   bool
	span   *span // reproduces only by drawing the plans in the process itself
}

// span is a range of runs as the exploration executed it.
type span struct {
	From     int `json:"from"`
	To       int `json:"to"`
	Stride   int `json:"stride"`
	Families int `json:"families,omitempty"`

	Proc uint64 `json:"proc,omitempty"`
}

// spanFound executes a range of runs and tells what was found in the last one.
func (e *env) spanFound(prop string, sp *span, race bool, poolFile, kind string, trace bool) (*found, error) {
	r, err := e.run(&job{Prop: prop, Seed: e.seed, Proc: sp.Proc, From: sp.From, To: sp.To, Stride: sp.Stride, Race: race, Pool: poolFile, Trace: trace}, 300*time.Second)
	if err != nil {
		var c *errCrash
		if errors.As(err, &c) && crashKind(c.log) != "" {
			return &found{Index: c.index, Viol: &violation{Kind: "crash", Msg: "the process died: " + crashKind(c.log), Task: -1, Op: -1}, Log: c.log}, nil
		}
		return nil, err
	}
	if r.Found != nil && r.Found.Index+sp.Stride >= sp.To && r.Found.Viol.Kind == kind {
		return r.Found, nil
	}
	return nil, nil
}

func (e *env) check(prop string) int {
	c, ok := cfgs[prop]
	if !ok {
		die("unknown property %s", prop)
	}
	thorough := e.tier == "thorough"
	wall := 150 * time.Second
	mult := 1
	if thorough {
		wall = 420 * time.Second
		mult = 12
		c.families *= 8
	}
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		// a part of the runs, for trying the machinery itself
		f, err := strconv.ParseFloat(s, 64)
		if err != nil || f <= 0 {
			die("VERIF_SCALE: %v", s)
		}
		c.runs, c.raceRuns, c.cold = int(float64(c.runs)*f)+1, int(float64(c.raceRuns)*f), int(float64(c.cold)*f)
	}
	e.buildAll(c.raceRuns > 0, prop)
	built := time.Since(e.start)
	poolFile := ""
	var pool *plan.Pool
	nsolo := 0
	if c.pool {
		pool = plan.GenPool(e.seed, c.families)
		var all []*plan.Call
		for _, f := range pool.Calls {
			all = append(all, f...)
		}
		want, err := e.solo(all)
		if err != nil {
			die("baseline: %v", err)
		}
		nsolo = len(want)
		pool.Want = want
		poolFile = filepath.Join(e.scratch, "pool.json")
		if err := writeJSON(poolFile, pool); err != nil {
			die("%v", err)
		}
	}
	known := e.knownFindings(prop)
	// the race build is ~10 times slower; it gets its own share of the workers
	stop := time.Now().Add(wall)
	var slots []*slotResult
	var wg sync.WaitGroup
	launch := func(race bool, n, w, of int) {
		s := &slotResult{race: race}
		slots = append(slots, s)
		wg.Add(1)
		go func() {
			defer wg.Done()
			cold := c.cold
			if race {
				cold /= 2
			}
			if thorough {
				cold *= 4
			}
			e.slot(s, prop, poolFile, pool, race, n, w, of, stop, known, cold, c.families)
		}()
	}
	nw := e.workers
	if c.raceRuns > 0 && nw > 1 {
		h := nw / 2
		for i := 0; i < h; i++ {
			launch(true, c.raceRuns*mult, i, h)
		}
		nw -= h
	}
	for i := 0; i < nw; i++ {
		launch(false, c.runs*mult, i, nw)
	}
	wg.Wait()
	explored := time.Since(e.start) - built
	var best *confirmed
	for _, s := range slots {
		if s.err != nil {
			die("%s: %v", prop, s.err)
		}
		if s.viol != nil && (best == nil || s.viol.f.Index < best.f.Index || s.viol.f.Index == best.f.Index && !s.race) {
			best = s.viol
		}
	}
	if best == nil {
		for _, s := range slots {
			if s.unrep != nil {
				die("%s: %v", prop, s.unrep)
			}
		}
	}
	det := map[string]any{}
	if best == nil {
		det = e.determinism(prop, poolFile, slots, c)
	}
	code := 0
	var vio map[string]any
	if best != nil {
		code = 1
		path := e.report(prop, best, pool)
		vio = map[string]any{"kind": best.f.Viol.Kind, "what": best.f.Viol.Msg, "replay": path}
		fmt.Printf("violation of %s: [%s] %s\n", prop, best.f.Viol.Kind, best.f.Viol.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	}
	seen := map[string]bool{}
	for _, s := range slots {
		for _, k := range s.known {
			if !seen[k] {
				seen[k] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
			}
		}
	}
	e.evidence(prop, c, slots, built, explored, det, vio, nsolo)
	return code
}

// slot runs one worker's share, restarting it after findings that do not count.
func (e *env) slot(s *slotResult, prop, poolFile string, pool *plan.Pool, race bool, n, w, of int, stop time.Time, known []string, cold, families int) {
	from := w
	for restart := 0; ; {
		if from >= n || s.procs > 0 && time.Now().After(stop) {
			s.cut = s.cut || from < n
			return
		}
		to := n
		if s.procs < cold {
			// what happens only once in a process needs many young processes
			to = min(n, from+coldRuns*of)
		}
		s.procs++
		h := filepath.Join(e.scratch, fmt.Sprintf("h%d", jobN.Add(1)))
		if k := e.won(-1); k >= 0 && from > k {
			s.cut = true
			return
		}
		j := &job{Prop: prop, Seed: e.seed, Proc: plan.HostOf(prop, e.seed, from), From: from, To: to, Stride: of, Race: race, Pool: poolFile, Hashes: h, Stop: stop.UnixMilli(), Won: e.wonFile()}
		rep, err := e.run(j, time.Until(stop)+120*time.Second)
		var c *errCrash
		var unrep *errUnrepeatable
		var f *found
		switch {
		case errors.As(err, &c):
			if c.index < 0 || crashKind(c.log) == "" {
				s.err = fmt.Errorf("%v\n%s", err, c.log)
				return
			}
			f = &found{Index: c.index, Viol: &violation{Kind: "crash", Msg: "the process died: " + crashKind(c.log), Task: -1, Op: -1}, Log: c.log}
		case err != nil:
			s.err = err
			return
		default:
			s.reps = append(s.reps, rep)
			s.hashes = append(s.hashes, h)
			f = rep.Found
		}
		if f == nil {
			from = rep.Last + of
			if rep.Done == 0 {
				s.cut = true
				return
			}
			continue
		}
		cf, why, err := e.confirm(prop, poolFile, pool, families, race, from, of, f)
		if errors.As(err, &unrep) {
			// another run may show it in a way that can be replayed
			s.unrep = unrep
			from = f.Index + of
			if restart++; restart > 10 {
				s.cut = true
				return
			}
			continue
		}
		if err != nil {
			s.err = err
			return
		}
		if cf != nil {
			if k := matchKnown(known, cf.f.Viol); k != "" {
				s.known = append(s.known, k)
			} else {
				s.viol = cf
				e.won(f.Index)
				return
			}
		} else {
			s.suppressed = append(s.suppressed, why)
		}
		from = f.Index + of
		if restart++; restart > 25 {
			s.cut = true
			return
		}
	}
}

func (e *env) wonFile() string { return filepath.Join(e.scratch, "won") }

// won records (if index >= 0) and returns the lowest run that is confirmed to
// break the property, or -1.
func (e *env) won(index int) int {
	e.wonMu.Lock()
	defer e.wonMu.Unlock()
	if index >= 0 && (!e.hasWon || index < e.lowest) {
		e.hasWon, e.lowest = true, index
		tmp := e.wonFile() + ".tmp"
		if os.WriteFile(tmp, []byte(strconv.Itoa(index)), 0o644) == nil {
			os.Rename(tmp, e.wonFile())
		}
	}
	if !e.hasWon {
		return -1
	}
	return e.lowest
}

// confirm reproduces a finding in a fresh process and asks whether the caller
// alone would have seen the same.
func (e *env) confirm(prop, poolFile string, pool *plan.Pool, families int, race bool, from, stride int, f *found) (*confirmed, string, error) {
	proc := plan.HostOf(prop, e.seed, from)
	p := plan.Gen(prop, e.seed, f.Index, race, pool)
	p.Proc = proc
	try := func(prefix []*plan.Plan) (*found, error) {
		r, err := e.fresh(append(append([]*plan.Plan(nil), prefix...), p), false, f.Viol.Kind)
		if err != nil {
			return nil, err
		}
		if r.Found != nil && r.Found.PlanIndex == len(prefix) && r.Found.Viol.Kind == f.Viol.Kind {
			return r.Found, nil
		}
		return nil, nil
	}
	var prefix []*plan.Plan
	got, err := try(nil)
	if err != nil {
		return nil, "", err
	}
	if got == nil {
		// it needs what ran before it in the same process
		gen := func(k int) []*plan.Plan {
			var l []*plan.Plan
			first := f.Index - k*stride
			if first < from || k < 0 {
				first = from
			}
			for i := first; i < f.Index; i += stride {
				q := plan.Gen(prop, e.seed, i, race, pool)
				q.Proc = proc
				l = append(l, q)
			}
			return l
		}
		total := (f.Index - from) / stride
		for k := 1; got == nil; k *= 4 {
			if k >= total || k > 20000 {
				k = total
			}
			prefix = gen(k)
			if got, err = try(prefix); err != nil {
				return nil, "", err
			}
			if k >= total {
				break
			}
		}
		if got == nil {
			// what the race detector sees also depends on the memory around: draw
			// the plans in the process as the exploration did
			for _, k := range []int{0, 1, 4, 16, total} {
				if k > total {
					continue
				}
				sp := &span{From: f.Index - k*stride, To: f.Index + 1, Stride: stride, Families: families, Proc: proc}
				one, err := e.spanFound(prop, sp, race, poolFile, f.Viol.Kind, false)
				if err != nil {
					return nil, "", err
				}
				if one == nil {
					continue
				}
				if one, err = e.spanFound(prop, sp, race, poolFile, f.Viol.Kind, false); err != nil || one == nil {
					continue
				}
				cf := &confirmed{prefix: gen(k), plan: p, f: one, race: race, span: sp}
				return cf, "", nil
			}
			return nil, "", &errUnrepeatable{fmt.Sprintf("the violation of run %d (%s: %s) does not reproduce: nondeterminism outside the simulator\n%s", f.Index, f.Viol.Kind, f.Viol.Msg, f.Log)}
		}
	}
	cf := &confirmed{prefix: prefix, plan: p, f: got, race: race}
	same, err := e.control(cf)
	if err != nil {
		return nil, "", err
	}
	if same != "" {
		return nil, same, nil
	}
	return cf, "", nil
}

// control runs the same operation without what the property is about. If it
// breaks in the same way there, the finding belongs to another property.
func (e *env) control(cf *confirmed) (string, error) {
	p, v := cf.plan, cf.f.Viol
	var alts [][]*plan.Plan
	clone := func() *plan.Plan { return clonePlan(p) }
	only := func(task int) *plan.Plan {
		q := clone()
		q.Tasks = []*plan.Task{q.Tasks[task]}
		q.Sched.Kind = "seq"
		q.Sched.Switches = nil
		q.StepCap = q.Cap()
		return q
	}
	pre := func(q *plan.Plan) []*plan.Plan { return append(append([]*plan.Plan(nil), cf.prefix...), q) }
	switch p.Prop {
	case "C04":
		switch v.Kind {
		case "text", "text-lost", "final-error", "data-after-end", "panic", "own-buf", "bad-count", "held-buffer":
			q := clone()
			o := q.Tasks[0].Ops[0]
			o.Src.Stall = nil
			if o.Src.Endless {
				o.Src.Endless = false
			}
			var b []int
			for _, n := range o.Buf {
				if n > 0 {
					b = append(b, n)
				}
			}
			o.Buf = b
			alts = append(alts, pre(q))
		}
	case "C12":
		if v.Task >= 0 && v.Op >= 0 && v.Kind != "race" && v.Kind != "crash" {
			q := only(v.Task)
			o := q.Tasks[0].Ops[v.Op]
			o.Subs = o.Subs[v.Sub : v.Sub+1]
			q.Tasks[0].Ops = []*plan.Op{o}
			alts = append(alts, []*plan.Plan{q})
		}
	case "C17":
		// without anything nested; what a stack does is the stack's
		q := clone()
		q.Walk(func(o *plan.Op) {
			if o.Src != nil {
				o.Src.Nest = nil
			}
			if o.Sink != nil {
				o.Sink.Nest = nil
			}
		})
		stack := false
		for i, t := range p.Tasks {
			for k, o := range t.Ops {
				stack = stack || len(o.Layers) > 0 && i == v.Task && k == v.Op
			}
		}
		if !stack {
			alts = append(alts, pre(q))
		}
	case "C19":
		if v.Kind == "own-time" {
			break
		}
		// the same in no time, and with a clock that is let be
		q := clone()
		q.Wall, q.Clock = 0, nil
		for _, t := range q.Tasks {
			t.Delay = 0
		}
		q.Walk(func(o *plan.Op) {
			o.Think, o.Idle = nil, 0
			if o.Src != nil {
				o.Src.Gap, o.Src.Hold = nil, 0
			}
			if o.Sink != nil {
				o.Sink.Delay = nil
			}
		})
		alts = append(alts, pre(q))
	case "C21":
		switch v.Kind {
		case "touched", "printed", "stdin", "swallowed-panic":
			return "", nil
		}
		// the same in the process as it is
		q := clone()
		q.Host, q.Shift, q.Proc = 0, false, 0
		for _, t := range q.Tasks {
			for _, o := range t.Ops {
				o.From = ""
			}
		}
		l := pre(q)
		for i := range l[:len(l)-1] {
			l[i] = clonePlan(l[i])
			l[i].Host, l[i].Shift, l[i].Proc = 0, false, 0
		}
		alts = append(alts, l)
	case "C20":
		switch v.Kind {
		case "unasked", "overlapping", "disturbed":
			return "", nil
		}
		// the same over plain ones
		q := clone()
		q.Walk(func(o *plan.Op) {
			o.Collect, o.Mark = nil, nil
			if o.Src != nil {
				o.Src.As = ""
			}
			if o.Sink != nil {
				o.Sink.As = ""
			}
		})
		alts = append(alts, pre(q))
	case "C18":
		if strings.HasPrefix(v.Kind, "left-") {
			break
		}
		q := clone()
		q.Walk(func(o *plan.Op) {
			if o.Kind == "churn" {
				o.N = 2 * len(o.Subs)
			}
		})
		alts = append(alts, pre(q))
	case "C13", "C15":
		if v.Kind == "race" {
			break
		}
		for i := range p.Tasks {
			if v.Task < 0 || v.Task == i {
				alts = append(alts, pre(only(i)))
			}
		}
	case "C14":
		if v.Kind == "call-result" || strings.HasPrefix(v.Kind, "own-") {
			break
		}
		for i, t := range p.Tasks {
			for k := range t.Ops {
				if v.Task < 0 || v.Task == i && v.Op == k {
					q := only(i)
					q.Tasks[0].Ops = []*plan.Op{q.Tasks[0].Ops[k]}
					alts = append(alts, []*plan.Plan{q})
				}
			}
		}
	}
	for _, a := range alts {
		r, err := e.fresh(a, false, v.Kind)
		if err != nil {
			return "", err
		}
		if r.Found != nil && r.Found.Viol.Kind == v.Kind {
			return fmt.Sprintf("[%s] %s: the same happens without what %s is about", v.Kind, v.Msg, p.Prop), nil
		}
	}
	return "", nil
}

func clonePlan(p *plan.Plan) *plan.Plan {
	b, _ := json.Marshal(p)
	q := &plan.Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	for _, o := range q.CallOps() {
		o.Call.Fix()
	}
	return q
}

// knownFindings reads the findings recorded for a property: lines
// "finding: property=ID kind=KIND match=TEXT".
func (e *env) knownFindings(prop string) []string {
	b, err := os.ReadFile(filepath.Join(e.verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var l []string
	for _, s := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(s, "finding: property="+prop+" ") {
			l = append(l, strings.TrimPrefix(s, "finding: property="+prop+" "))
		}
	}
	return l
}

func matchKnown(known []string, v *violation) string {
	for _, k := range known {
		f := strings.SplitN(k, " match=", 2)
		if len(f) == 2 && f[0] == "kind="+v.Kind && strings.Contains(v.Msg, f[1]) {
			return k
		}
	}
	return ""
}

type rec struct {
	hash, obs uint64
	index     int
	non       bool
}

func readHashes(path string) []rec {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	r := bufio.NewReaderSize(f, 1<<16)
	var l []rec
	var b [24]byte
	for {
		if _, err := io.ReadFull(r, b[:]); err != nil {
			return l
		}
		x := binary.LittleEndian.Uint64(b[16:])
		l = append(l, rec{binary.LittleEndian.Uint64(b[:]), binary.LittleEndian.Uint64(b[8:]), int(x >> 1), x&1 == 1})
	}
}

// determinism runs a sample of the explored runs again in other processes,
// split differently, and compares the executions' hashes.
func (e *env) determinism(prop, poolFile string, slots []*slotResult, c cfg) map[string]any {
	res := map[string]any{}
	compared, differ, procs := 0, 0, 0
	for _, race := range []bool{false, true} {
		if race && c.raceRuns == 0 {
			continue
		}
		want := map[int]rec{}
		max := 0
		for _, s := range slots {
			if s.race == race {
				for _, h := range s.hashes {
					for _, r := range readHashes(h) {
						want[r.index] = r
						if r.index > max {
							max = r.index
						}
					}
				}
			}
		}
		if len(want) == 0 {
			continue
		}
		n := 1200
		if race {
			n = 300
		}
		if e.tier == "thorough" {
			n *= 5
		}
		type part struct{ from, to, stride int }
		var parts []part
		// 10 processes: each its own stride and offset
		for i := 0; i < 10; i++ {
			st := []int{1, 3, 5, 7, 11}[i%5]
			from := (max * i / 10)
			parts = append(parts, part{from, from + st*n/10, st})
		}
		sem := make(chan bool, 3)
		var mu sync.Mutex
		var wg sync.WaitGroup
		for _, p := range parts {
			wg.Add(1)
			sem <- true
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				h := filepath.Join(e.scratch, fmt.Sprintf("d%d", jobN.Add(1)))
				_, err := e.run(&job{Prop: prop, Seed: e.seed, From: p.from, To: p.to, Stride: p.stride, Race: race, Pool: poolFile, Hashes: h}, 120*time.Second)
				if err != nil {
					return
				}
				mu.Lock()
				defer mu.Unlock()
				procs++
				for _, r := range readHashes(h) {
					if w, ok := want[r.index]; ok {
						compared++
						if w.hash != r.hash || w.obs != r.obs {
							differ++
						}
					}
				}
			}()
		}
		wg.Wait()
	}
	res["runs_executed_again_in_other_processes"] = compared
	res["processes"] = procs
	res["executions_that_differed"] = differ
	if differ > 0 {
		fmt.Fprintf(os.Stderr, "dst: note: %d of %d runs took other steps when executed again after a different history of the process\n", differ, compared)
	}
	return res
}

func (e *env) evidence(prop string, c cfg, slots []*slotResult, built, explored time.Duration, det, vio map[string]any, nsolo int) {
	runs, non := 0, 0
	var steps, sim, sw, dec int64
	counts, runCounts, scheds := map[string]int{}, map[string]int{}, map[string]int{}
	raceRuns := 0
	var samples []any
	execs, obs, nont := map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}
	suppressed := 0
	var sup []string
	cut := false
	maxIndex, procs := 0, 0
	for _, s := range slots {
		procs += s.procs
		for _, r := range s.reps {
			runs += r.Done
			if s.race {
				raceRuns += r.Done
			}
			non += r.Nontrivial
			steps += r.Steps
			sim += r.SimTime
			sw += r.Switches
			dec += r.Decisions
			for k, v := range r.Counts {
				counts[k] += v
			}
			for k, v := range r.RunCounts {
				runCounts[k] += v
			}
			for k, v := range r.Schedules {
				scheds[k] += v
			}
			for _, p := range r.Samples {
				if len(samples) < 3 && (len(samples) == 0 || s.race || len(slots) > 1) {
					humanise(p)
					samples = append(samples, trimPlan(p))
				}
			}
		}
		for _, h := range s.hashes {
			for _, r := range readHashes(h) {
				execs[r.hash] = true
				obs[r.obs] = true
				if r.non {
					nont[r.hash] = true
				}
				if r.index > maxIndex {
					maxIndex = r.index
				}
			}
		}
		suppressed += len(s.suppressed)
		if len(sup) < 5 {
			sup = append(sup, s.suppressed...)
		}
		cut = cut || s.cut
	}
	faults, sits := map[string]int{}, map[string]int{}
	for k, v := range counts {
		switch {
		case strings.HasPrefix(k, "fault: "):
			faults[strings.TrimPrefix(k, "fault: ")] = v
		default:
			sits[strings.TrimPrefix(k, "situation: ")] = v
		}
	}
	if len(samples) == 0 {
		samples = append(samples, plan.Gen(prop, e.seed, 0, false, nil))
	}
	hours := explored.Hours()
	cov := map[string]any{
		"evaluations":         runs,
		"distinct_nontrivial": len(nont),
		"rule": "one evaluation = one simulated execution of a plan drawn from (VERIF_SEED, property, index); executions are told apart by a hash over every scheduling decision, every read, write, call and result; " +
			"non-trivial = with one caller: at least one fault fired or at least one counted situation (cut inside a character, wait, partial transfer, empty read, ...) occurred; with several callers: at least one preemption beyond running them one after another",
		"samples":                            samples,
		"runs_per_hour":                      int(float64(runs) / hours),
		"seeds_per_hour":                     int(float64(runs) / hours),
		"seed_indices":                       fmt.Sprintf("0..%d of VERIF_SEED=%d", maxIndex, e.seed),
		"simulated_hours":                    float64(sim) / 3.6e6,
		"processes":                          procs,
		"yield_points_passed":                steps,
		"scheduling_decisions":               dec,
		"task_switches":                      sw,
		"distinct_executions":                len(execs),
		"distinct_observations":              len(obs),
		"schedulers":                         scheds,
		"faults_fired":                       faults,
		"situations_reached":                 sits,
		"runs_in_which":                      runCounts,
		"race_detector_runs":                 raceRuns,
		"determinism":                        det,
		"instrumentation":                    e.build.mode,
		"yield_points_in_source":             e.build.inst.Yields,
		"stopped_by_time_limit":              cut,
		"findings_shared_with_another_cause": suppressed,
		"components": map[string]any{
			"real": []string{"all three packages of the repository, compiled from the working tree", "golang.org/x/text transform and encoding", "bufio, io and the Go runtime"},
			"stub": []string{"byte sources, sinks and files", "network transport", "clock (synctest bubble)", "goroutine scheduling between yield points", "package sync inside the repository"},
		},
	}
	if e.build.why != "" {
		cov["instrumentation_note"] = e.build.why
	}
	if nsolo > 0 {
		cov["calls_with_fresh_process_baseline"] = nsolo
	}
	if len(sup) > 0 {
		cov["findings_shared_with_another_cause_samples"] = sup
	}
	if vio != nil {
		cov["violation"] = vio
	}
	nv := 0
	if vio != nil {
		nv = 1
	}
	ev := map[string]any{
		"property": prop,
		"tier":     e.tier,
		"seed":     int64(e.seed),
		"level":    "exploration",
		"coverage": cov,
		"assumptions": []string{
			"yield points are statements; what happens inside one statement is atomic for the scheduler (the race detector covers unsynchronised accesses)",
			"the reference table is Python's cp949 codec",
			"seeded search samples executions, it does not enumerate them",
		},
		"wall_s":     time.Since(e.start).Seconds(),
		"violations": nv,
	}
	if e.tier != "quick" && e.tier != "thorough" {
		ev["tier"] = "quick"
	}
	if err := writeJSON(filepath.Join(e.verif, "evidence", prop+".json"), ev); err != nil {
		die("%v", err)
	}
	fmt.Printf("%s: %d runs (%d under the race detector), %d distinct non-trivial executions, %.0f simulated hours, build %.1fs, exploration %.1fs\n",
		prop, runs, raceRuns, len(nont), float64(sim)/3.6e6, built.Seconds(), explored.Seconds())
	var fs []string
	for k, v := range faults {
		fs = append(fs, fmt.Sprintf("%s %d", k, v))
	}
	sort.Strings(fs)
	fmt.Printf("%s: faults fired: %s\n", prop, strings.Join(fs, "; "))
	if suppressed > 0 {
		fmt.Printf("%s: %d findings set aside because the same happens without what the property is about\n", prop, suppressed)
	}
}

// trimPlan keeps evidence small.
func trimPlan(p *plan.Plan) any {
	b, _ := json.Marshal(p)
	if len(b) < 4000 {
		return p
	}
	return string(b[:4000]) + "..."
}

func humanise(p *plan.Plan) {
	p.Walk(func(o *plan.Op) {
		d := o.Data
		if len(d) > 80 {
			d = d[:80]
		}
		if len(d) > 0 {
			o.Text = fmt.Sprintf("%q", d)
		}
	})
}
