package world

import (
	"strconv"

	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"os"
	"runtime"
	"runtime/debug"
	"testing"
	"time"

	"verif.local/dst/plan"
	"verif.local/dst/simrt"
	"verif.local/dst/simsync"
)

// Job is what the driver asks of a worker process.
type Job struct {
	Prop   string       `json:"prop"`
	Seed   uint64       `json:"seed"`
	From   int          `json:"from"`
	To     int          `json:"to"`
	Stride int          `json:"stride"`
	Race   bool         `json:"race"`
	Pool   string       `json:"pool"`
	Out    string       `json:"out"`
	Hashes string       `json:"hashes"`
	Stop   int64        `json:"stop"` // unix ms after which no new run starts
	Plans  []*plan.Plan `json:"plans"`
	Trace  bool         `json:"trace"`
	Won    string       `json:"won"`
	Repeat int          `json:"repeat"` // times the last plan is executed again until something is found
	Calls  []*plan.Call `json:"calls"`
	Dict   plan.Dict    `json:"dict"`
}

// Found is a violation together with the plan that showed it.
type Found struct {
	Index     int            `json:"index"`
	Viol      *Violation     `json:"viol"`
	All       []*Violation   `json:"all"`
	Recorded  []simrt.Switch `json:"recorded"`
	Hash      uint64         `json:"hash"`
	Trace     []string       `json:"trace,omitempty"`
	Steps     int64          `json:"steps"`
	PlanIndex int            `json:"plan_index"`
}

// Report is a worker's answer.
type Report struct {
	Done       int            `json:"done"`
	Native     bool           `json:"native,omitempty"` // goroutines of the library were left: the process ended early
	Last       int            `json:"last"`
	Found      *Found         `json:"found,omitempty"`
	Harness    string         `json:"harness,omitempty"`
	Counts     map[string]int `json:"counts"`    // occurrences
	RunCounts  map[string]int `json:"runcounts"` // runs in which it occurred
	Nontrivial int            `json:"nontrivial"`
	Steps      int64          `json:"steps"`
	SimTime    int64          `json:"simtime"`
	Switches   int64          `json:"switches"`
	Decisions  int64          `json:"decisions"`
	Schedules  map[string]int `json:"schedules"`
	Samples    []*plan.Plan   `json:"samples,omitempty"`
	Hashes     []uint64       `json:"hashes,omitempty"` // of explicit plans
	Traces     [][]string     `json:"traces,omitempty"`
	WallMS     int64          `json:"wall_ms"`
	Results    []string       `json:"results,omitempty"`
}

func TestWorker(t *testing.T) {
	jf := os.Getenv("VERIF_JOB")
	if jf == "" {
		t.Skip("no job")
	}
	raw, err := os.ReadFile(jf)
	if err != nil {
		t.Fatal(err)
	}
	var job Job
	d := json.NewDecoder(bytes.NewReader(raw))
	if err := d.Decode(&job); err != nil {
		t.Fatal(err)
	}
	plan.TheDict = job.Dict
	runtime.GOMAXPROCS(1)
	simsync.TrackPools = job.Prop == "C18"
	if job.Race {
		// a collection in the middle of a run makes the race detector lose
		// accesses at random: collect between runs
		debug.SetGCPercent(-1)
		debug.SetMemoryLimit(2 << 30)
	} else {
		debug.SetGCPercent(400)
	}
	w := &worker{t: t, job: &job, rep: &Report{Counts: map[string]int{}, RunCounts: map[string]int{}, Schedules: map[string]int{}}, start: time.Now()}
	OnNative = func(r *Result) { w.finish(r) }
	w.run()
}

var jiggle [][]byte

type worker struct {
	t       *testing.T
	job     *Job
	rep     *Report
	start   time.Time
	hashes  *bufio.Writer
	hf      *os.File
	prog    *os.File
	cur     *plan.Plan
	curI    int
	planIdx int
}

func (w *worker) run() {
	j := w.job
	if j.Hashes != "" {
		f, err := os.Create(j.Hashes)
		if err != nil {
			w.t.Fatal(err)
		}
		w.hf, w.hashes = f, bufio.NewWriterSize(f, 1<<16)
	}
	w.prog, _ = os.Create(j.Out + ".progress")
	if len(j.Plans) > 0 {
		for k := 0; k < len(j.Plans)+j.Repeat; k++ {
			i := min(k, len(j.Plans)-1)
			p := j.Plans[i]
			w.planIdx = i
			if k > i {
				// what the race detector still remembers depends on where small
				// pieces of memory lie
				jiggle = append(jiggle, make([]byte, 1+k%15))
			}
			for _, o := range p.CallOps() {
				o.Call.Fix()
			}
			r := w.one(p, p.Index)
			w.rep.Hashes = append(w.rep.Hashes, r.Hash)
			if j.Trace {
				w.rep.Traces = append(w.rep.Traces, r.Trace)
			}
			if w.rep.Found != nil || w.rep.Harness != "" {
				break
			}
		}
		w.flush()
		os.Exit(0)
	}
	var pool *plan.Pool
	if j.Pool != "" {
		b, err := os.ReadFile(j.Pool)
		if err != nil {
			w.t.Fatal(err)
		}
		pool = &plan.Pool{}
		if err := json.Unmarshal(b, pool); err != nil {
			w.t.Fatal(err)
		}
		for _, f := range pool.Calls {
			for _, c := range f {
				c.Fix()
			}
		}
	}
	var pb [8]byte
	for i := j.From; i < j.To; i += j.Stride {
		if j.Stop > 0 && w.rep.Done&15 == 0 && time.Now().UnixMilli() > j.Stop {
			break
		}
		if j.Won != "" && w.rep.Done&15 == 0 {
			// nothing after the first violation matters
			if b, err := os.ReadFile(j.Won); err == nil {
				if k, err := strconv.Atoi(string(b)); err == nil && i > k {
					break
				}
			}
		}
		if w.prog != nil {
			binary.LittleEndian.PutUint64(pb[:], uint64(i))
			w.prog.WriteAt(pb[:], 0)
		}
		p := plan.Gen(j.Prop, j.Seed, i, j.Race, pool)
		w.one(p, i)
		w.rep.Last = i
		if w.rep.Found != nil || w.rep.Harness != "" {
			break
		}
		if len(w.rep.Samples) < 1 && w.rep.Done == 7 {
			w.rep.Samples = append(w.rep.Samples, p)
		}
	}
	w.flush()
	os.Exit(0)
}

func (w *worker) one(p *plan.Plan, i int) *Result {
	w.cur, w.curI = p, i
	if w.job.Race {
		var ms runtime.MemStats
		if runtime.ReadMemStats(&ms); ms.HeapAlloc > 96<<20 {
			runtime.GC()
		}
	}
	r := &Result{}
	ended := true
	defer func() {
		if ended {
			w.finish(r)
		}
	}()
	Exec(w.t, p, w.job.Trace, r)
	ended = false
	w.take(r)
	return r
}

func (w *worker) take(r *Result) {
	rep := w.rep
	rep.Done++
	rep.Steps += r.Steps
	rep.SimTime += r.SimTime / 1e6 // milliseconds
	rep.Switches += int64(r.Switches)
	rep.Decisions += int64(r.Decisions)
	rep.Schedules[w.cur.Sched.Kind]++
	non := false
	for n, v := range r.Counts {
		rep.Counts[n] += v
		rep.RunCounts[n]++
		if n != "calls" && n != "situation: stream has two-byte characters" {
			non = true
		}
	}
	if len(w.cur.Tasks) > 1 {
		non = r.Switches > len(w.cur.Tasks)-1
	}
	flags := uint64(0)
	if non {
		rep.Nontrivial++
		flags = 1
	}
	if w.hashes != nil {
		var b [24]byte
		binary.LittleEndian.PutUint64(b[:], r.Hash)
		binary.LittleEndian.PutUint64(b[8:], r.Obs)
		binary.LittleEndian.PutUint64(b[16:], uint64(w.curI)<<1|flags)
		w.hashes.Write(b[:])
	}
	if r.Harness != "" {
		rep.Harness = r.Harness
	}
	if r.Viol != nil {
		rep.Found = &Found{Index: w.curI, Viol: r.Viol, All: r.All, Recorded: r.Recorded, Hash: r.Hash, Steps: r.Steps, PlanIndex: w.planIdx}
		if w.job.Trace {
			rep.Found.Trace = r.Trace
		}
	}
}

// finish is for a run after which the process cannot go on.
func (w *worker) finish(r *Result) {
	w.take(r)
	w.rep.Last = w.curI
	switch {
	case w.rep.Found != nil:
	case r.Native:
		w.rep.Native = true
	default:
		w.rep.Harness = "the run ended its process for no known reason"
	}
	w.rep.Hashes = append(w.rep.Hashes, r.Hash)
	w.flush()
	os.Exit(0)
}

func (w *worker) flush() {
	w.rep.WallMS = time.Since(w.start).Milliseconds()
	if w.hashes != nil {
		w.hashes.Flush()
		w.hf.Close()
	}
	b, err := json.Marshal(w.rep)
	if err != nil {
		w.t.Fatal(err)
	}
	tmp := w.job.Out + ".tmp"
	if err := os.WriteFile(tmp, b, 0o644); err != nil {
		w.t.Fatal(err)
	}
	os.Rename(tmp, w.job.Out)
}
