package main

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif.local/dst/plan"
	"verif.local/dst/simrt"
)

// These mirror the worker's side (world/worker_test.go).
type job struct {
	Prop   string       `json:"prop"`
	Seed   uint64       `json:"seed"`
	From   int          `json:"from"`
	To     int          `json:"to"`
	Stride int          `json:"stride"`
	Race   bool         `json:"race"`
	Pool   string       `json:"pool,omitempty"`
	Out    string       `json:"out"`
	Hashes string       `json:"hashes,omitempty"`
	Stop   int64        `json:"stop,omitempty"`
	Plans  []*plan.Plan `json:"plans,omitempty"`
	Trace  bool         `json:"trace,omitempty"`
	Repeat int          `json:"repeat,omitempty"`
	Proc   uint64       `json:"proc,omitempty"` // the host its process starts on
	Dict   *plan.Dict   `json:"dict,omitempty"`
	Won    string       `json:"won,omitempty"` // file with the lowest run that broke the property
}

type violation struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
	Task int    `json:"task"`
	Op   int    `json:"op"`
	Sub  int    `json:"sub"`
	Step int64  `json:"step"`
}

type found struct {
	Index     int            `json:"index"`
	Viol      *violation     `json:"viol"`
	All       []*violation   `json:"all,omitempty"`
	Recorded  []simrt.Switch `json:"recorded"`
	Hash      uint64         `json:"hash"`
	Trace     []string       `json:"trace,omitempty"`
	Steps     int64          `json:"steps"`
	PlanIndex int            `json:"plan_index"`
	Log       string         `json:"-"`
}

type report struct {
	Done       int            `json:"done"`
	Native     bool           `json:"native"`
	Last       int            `json:"last"`
	Found      *found         `json:"found"`
	Harness    string         `json:"harness"`
	Counts     map[string]int `json:"counts"`
	RunCounts  map[string]int `json:"runcounts"`
	Nontrivial int            `json:"nontrivial"`
	Steps      int64          `json:"steps"`
	SimTime    int64          `json:"simtime"`
	Switches   int64          `json:"switches"`
	Decisions  int64          `json:"decisions"`
	Schedules  map[string]int `json:"schedules"`
	Samples    []*plan.Plan   `json:"samples"`
	Hashes     []uint64       `json:"hashes"`
	Traces     [][]string     `json:"traces"`
	WallMS     int64          `json:"wall_ms"`
}

var jobN atomic.Int64

// errCrash: the worker process died.
type errCrash struct {
	log   string
	index int
}

func (e *errCrash) Error() string { return "worker died: " + firstLine(e.log) }

var errTimeout = errors.New("worker did not answer in time")

// run gives a job to a fresh worker process.
func (e *env) run(j *job, timeout time.Duration) (*report, error) {
	id := jobN.Add(1)
	base := filepath.Join(e.scratch, fmt.Sprintf("job%d", id))
	j.Out = base + ".out"
	j.Dict = &plan.TheDict
	b, err := json.Marshal(j)
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(base+".json", b, 0o644); err != nil {
		return nil, err
	}
	defer func() {
		for _, s := range []string{".json", ".out", ".out.progress", ".out.tmp"} {
			os.Remove(base + s)
		}
	}()
	bin := e.build.plain
	if j.Race {
		bin = e.build.race
	}
	cmd := exec.Command(bin, "-test.run", "^TestWorker$", "-test.timeout", "0")
	cmd.Dir = e.scratch
	cmd.Env = append(os.Environ(), "VERIF_JOB="+base+".json", "GORACE=halt_on_error=0 exitcode=0 history_size=7", "GOTRACEBACK=single")
	if e.build.inst.Rand {
		// every run seeds the generator everybody shares
		cmd.Env = append(cmd.Env, "VERIF_RAND=1", "GODEBUG=randseednop=0")
	}
	proc := j.Proc
	if len(j.Plans) > 0 {
		proc = j.Plans[0].Proc
	}
	if proc != 0 {
		cmd.Env = append(cmd.Env, "VERIF_HOST="+strconv.FormatUint(proc, 10))
	}
	if j.Prop == "C21" {
		cmd.Env = append(cmd.Env, "VERIF_TABLES="+strconv.FormatUint(simrt.Tables(), 16))
	}
	if j.Prop == "C21" && len(e.build.inst.Words) > 0 {
		cmd.Env = append(cmd.Env, "VERIF_WORDS="+strings.Join(e.build.inst.Words, "\x1f"))
	}
	var out limited
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		return nil, errTimeout
	}
	rb, rerr := os.ReadFile(j.Out)
	if rerr != nil {
		idx := -1
		if pb, perr := os.ReadFile(j.Out + ".progress"); perr == nil && len(pb) == 8 {
			idx = int(binary.LittleEndian.Uint64(pb))
		}
		return nil, &errCrash{out.String(), idx}
	}
	var r report
	if err := json.Unmarshal(rb, &r); err != nil {
		return nil, err
	}
	if r.Harness != "" {
		return nil, fmt.Errorf("the simulator failed: %s\n%s", r.Harness, out.String())
	}
	if r.Found != nil {
		r.Found.Log = out.String()
	}
	return &r, nil
}

type limited struct {
	mu sync.Mutex
	b  []byte
}

func (l *limited) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if room := 20000 - len(l.b); room > 0 {
		if room > len(p) {
			room = len(p)
		}
		l.b = append(l.b, p[:room]...)
	}
	return len(p), nil
}
func (l *limited) String() string { l.mu.Lock(); defer l.mu.Unlock(); return string(l.b) }

// raceRepeats is how often a plan is executed again when a data race is to be
// shown: the detector remembers a few accesses per word and forgets the others,
// depending on where the memory allocator put things.
const raceRepeats = 12

// fresh runs explicit plans in a fresh process and tells what was found.
// A dying process counts as a finding of kind "crash".
func (e *env) fresh(plans []*plan.Plan, trace bool, kind string) (*report, error) {
	j := &job{Prop: plans[0].Prop, Race: plans[0].Race, Plans: plans, Trace: trace}
	if kind == "race" {
		j.Repeat = raceRepeats
	}
	r, err := e.run(j, 120*time.Second)
	var c *errCrash
	if errors.As(err, &c) {
		if k := crashKind(c.log); k != "" {
			return &report{Done: len(plans), Found: &found{Index: plans[len(plans)-1].Index, PlanIndex: len(plans) - 1, Viol: &violation{Kind: "crash", Msg: "the process died: " + k, Task: -1, Op: -1}, Log: c.log}}, nil
		}
	}
	return r, err
}

// crashKind names the fatal errors that the code under test can cause.
func crashKind(log string) string {
	for _, k := range []string{"fatal error: concurrent map", "fatal error: stack overflow", "fatal error: sync:", "stack exceeds", "unexpected fault address", "SIGSEGV"} {
		if i := strings.Index(log, k); i >= 0 {
			return firstLine(log[i:])
		}
	}
	return ""
}

// solo evaluates calls, each alone in a fresh process that has the library as
// it stands, without seams: outside a simulation there is nobody to schedule
// what an instrumented call starts.
func (e *env) solo(calls []*plan.Call) (map[string]string, error) {
	if e.build.solo == "" {
		bin := filepath.Join(e.scratch, "solo")
		o, err := goCmd(filepath.Join(e.verif, "dst"), "build", "-modfile", filepath.Join(e.scratch, "go.mod"), "-o", bin, "./cmd/solo").CombinedOutput()
		if err != nil {
			return nil, fmt.Errorf("%w\n%s", err, o)
		}
		e.build.solo = bin
	}
	keys := map[string]*plan.Call{}
	var order []string
	for _, c := range calls {
		k := c.Key()
		if keys[k] == nil {
			keys[k] = c
			order = append(order, k)
		}
	}
	want := map[string]string{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var first error
	next := make(chan string)
	for i := 0; i < e.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := range next {
				ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
				cmd := exec.CommandContext(ctx, e.build.solo)
				cmd.Stdin = strings.NewReader(k)
				out, err := cmd.Output()
				cancel()
				var s string
				if err == nil {
					err = json.Unmarshal(out, &s)
				}
				mu.Lock()
				if err != nil {
					// the call itself kills the process: nothing to compare with
					if first == nil {
						first = fmt.Errorf("%s: %w", k, err)
					}
				} else {
					want[k] = s
				}
				mu.Unlock()
			}
		}()
	}
	for _, k := range order {
		next <- k
	}
	close(next)
	wg.Wait()
	if len(want) == 0 && first != nil {
		return nil, first
	}
	return want, nil
}
