// Package world executes plans: simulated callers, sources, sinks and network
// around the real library, with the oracles that judge what the callers see.
package world

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"

	"github.com/suapapa/go_hangul/encoding/cp949"
	"golang.org/x/text/transform"

	"verif.local/dst/calls"
	"verif.local/dst/model"
	"verif.local/dst/plan"
	"verif.local/dst/simrt"
)

// Violation is one broken guarantee.
type Violation struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
	Task int    `json:"task"`
	Op   int    `json:"op"`
	Sub  int    `json:"sub"`
	Step int64  `json:"step"`
}

// Result of one execution.
type Result struct {
	Viol       *Violation
	All        []*Violation
	Harness    string // the simulator itself failed
	Hash, Obs  uint64
	Counts     map[string]int
	Nontrivial bool
	Steps      int64
	SimTime    int64
	Switches   int
	Decisions  int
	Recorded   []simrt.Switch
	Trace      []string
	Native     bool // goroutines are left behind: the process must end
	Races      int
}

type world struct {
	clock
	k     *simrt.Kernel
	p     *plan.Plan
	enc   *cp949.CP949Encoding
	viol  []*Violation
	tasks []*taskCtx
}

// taskCtx is one simulated caller.
type taskCtx struct {
	w       *world
	id      int
	t       *simrt.Task
	op, sub int
	cnt     map[string]int
	kept    []*kept
	bad     bool          // its stream is meant to hang or end its goroutine
	soft    *[]*Violation // collects violations instead of the world
	churn   *churn
	sinks   []*lateSink
}

// ctx is one operation in progress.
type ctx struct {
	*taskCtx
	o    *plan.Op
	k    *simrt.Kernel
	prop string
}

// abortOp ends an operation after a violation.
type abortOp struct{}

// simPanic is what a panicking simulated stream throws.
type simPanic struct{}

func (w *world) add(v *Violation) {
	v.Step = w.k.Steps
	addViol(w, v)
}

//go:norace
func addViol(w *world, v *Violation) {
	n := make([]*Violation, len(w.viol)+1)
	for i := range w.viol {
		n[i] = w.viol[i]
	}
	n[len(w.viol)] = v
	w.viol = n
}

// fail records a violation and ends the operation.
func (c *ctx) fail(kind, format string, args ...any) {
	c.note(kind, format, args...)
	panic(abortOp{})
}

func (c *ctx) note(kind, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	c.k.Ev("VIOLATION "+kind, 0, 0, nil, msg)
	v := &Violation{Kind: kind, Msg: msg, Task: c.id, Op: c.op, Sub: c.sub}
	if c.soft != nil {
		*c.soft = append(*c.soft, v)
		return
	}
	c.w.add(v)
}

func (c *taskCtx) count(name string) { c.cnt[name]++ }

// Errors the simulated streams fail with.
type simErr struct{ s string }

func (e *simErr) Error() string   { return e.s }
func (e *simErr) Timeout() bool   { return e.s == "simulated timeout" }
func (e *simErr) Temporary() bool { return e.Timeout() }

var simErrs = map[string]error{
	"custom":         &simErr{"simulated failure"},
	"reset":          &simErr{"simulated connection reset"},
	"timeout":        &simErr{"simulated timeout"},
	"full":           &simErr{"simulated no space left on device"},
	"unexpected-eof": io.ErrUnexpectedEOF,
	"closed-pipe":    io.ErrClosedPipe,
	"canceled":       &simErr{"simulated context canceled"},
	"deadline":       &simErr{"simulated deadline exceeded"},

	// real ones, of which some mean something else in another place
	"wrapped-eof":  fmt.Errorf("simulated: stream failed before its end: %w", io.EOF),
	"eintr":        &fs.PathError{Op: "read", Path: "/dev/stdin", Err: syscall.EINTR},
	"eagain":       syscall.EAGAIN,
	"os-deadline":  os.ErrDeadlineExceeded,
	"os-closed":    os.ErrClosed,
	"no-progress":  io.ErrNoProgress,
	"short-buffer": io.ErrShortBuffer,
	"short-src":    transform.ErrShortSrc,
	"short-dst":    transform.ErrShortDst,
	"truncation":   cp949.ErrCP949UnexpectedStream,
	"list":         errList{"simulated", "errors"},
}

// errList cannot be compared.
type errList []string

func (e errList) Error() string { return strings.Join(e, " ") }

func errOf(kind string) error {
	if e, ok := simErrs[kind]; ok {
		return e
	}
	return &simErr{"simulated " + kind}
}

// Exec runs a plan in a bubble of its own.
func Exec(t *testing.T, p *plan.Plan, trace bool, res *Result) {
	res.Counts = map[string]int{}
	races := simrt.RaceErrors()
	// a reported race may make the test framework end this goroutine
	defer res.races(races)
	synctest.Test(t, func(t *testing.T) { execIn(p, trace, res) })
}

func (res *Result) races(races int) {
	res.Races = simrt.RaceErrors() - races
	if res.Races > 0 && res.Viol == nil {
		res.Viol = &Violation{Kind: "race", Msg: fmt.Sprintf("%d data race(s) reported by the race detector under this schedule", res.Races), Task: -1, Op: -1}
		res.All = append(res.All, res.Viol)
	}
}

// seedRand: the library draws from math/rand.
var seedRand = os.Getenv("VERIF_RAND") != ""

// OnNative is called when goroutines that cannot be ended are left over; the
// worker flushes its results and exits there.
var OnNative = func(*Result) {}

func execIn(p *plan.Plan, trace bool, res *Result) {
	k := simrt.New(p.Sched, p.StepCap)
	k.TraceOn = trace
	w := &world{k: k, p: p, enc: cp949.NewCP949Encoding()}
	k.SetWall(p.Wall)
	simrt.SeedRand(p.Seed)
	if seedRand {
		rand.Seed(int64(p.Seed))
	}
	if p.Link != nil {
		w.link(p.Link)
	}
	for i, pt := range p.Tasks {
		tc := &taskCtx{w: w, id: i, cnt: map[string]int{}}
		w.tasks = append(w.tasks, tc)
		pt := pt
		tc.t = k.Spawn(calls.Sprintf("caller%d", i), func() { tc.run(pt) })
	}
	w.hostIn()
	out := k.Run()
	w.hostOut()
	if k.Overrun != "" {
		for _, tc := range w.tasks {
			if tc.t.Name == k.Overrun {
				w.add(&Violation{Kind: "no-progress", Msg: fmt.Sprintf("%s ran %d steps without finishing (%s)", k.Overrun, k.Steps, tc.what()), Task: tc.id, Op: tc.op, Sub: tc.sub})
			}
		}
		if len(w.viol) == 0 {
			w.add(&Violation{Kind: "no-progress", Msg: fmt.Sprintf("%s ran %d steps without finishing", k.Overrun, k.Steps), Task: -1, Op: -1})
		}
	} else if k.Tired {
		res.Counts["given up: timers of the library never come to rest"]++
	} else if len(out.Stuck) > 0 {
		for _, st := range out.Stuck {
			// goroutines of the library may wait for work forever; callers may not
			for _, tc := range w.tasks {
				if tc.t == st {
					w.add(&Violation{Kind: "stuck", Msg: fmt.Sprintf("%s waits forever (%s)", st.Name, tc.what()), Task: tc.id, Op: tc.op, Sub: tc.sub})
				}
			}
		}
	}
	for _, t := range k.Tasks() {
		if t.Panic != nil {
			if t.Name == "go" {
				w.add(&Violation{Kind: "panic", Msg: fmt.Sprintf("a goroutine of the library panicked: %v", t.Panic), Task: -1, Op: -1})
			} else {
				res.Harness = fmt.Sprintf("%s: %v\n%s", t.Name, t.Panic, t.Stack)
			}
		}
	}
	for _, tc := range w.tasks {
		for n, v := range tc.cnt {
			res.Counts[n] += v
		}
	}
	if out.Natives > 0 {
		res.Counts["situation: waited in a channel or timer of the library"] += out.Natives
	}
	if len(out.Stalled) > 0 {
		res.Counts["stalled callers left"] += len(out.Stalled)
	}
	res.All = w.viol
	if len(w.viol) > 0 {
		res.Viol = w.viol[0]
	}
	res.Hash, res.Obs = k.Hash(), k.ObsHash()
	res.Steps, res.SimTime = k.Steps, k.SimTime
	res.Switches, res.Decisions = k.Switched, k.Decided
	res.Recorded, res.Trace = k.Recorded, k.Trace
	if out.Native {
		res.Native = true
		OnNative(res)
	}
}

func (c *taskCtx) what() string {
	if c.w.p.Link != nil {
		return "an endpoint of the connection"
	}
	if c.op < 0 || c.op >= len(c.w.p.Tasks[c.id].Ops) {
		return "idle"
	}
	o := c.w.p.Tasks[c.id].Ops[c.op]
	s := fmt.Sprintf("op %d, %s", c.op, o.Kind)
	if o.Call != nil {
		s += " " + o.Call.F
	}
	return s
}

func (c *taskCtx) run(pt *plan.Task) {
	c.w.sleep(pt.Delay)
	for i, o := range pt.Ops {
		c.op, c.sub = i, 0
		x := &ctx{taskCtx: c, o: o, k: c.w.k, prop: c.w.p.Prop}
		x.k.Ev("op "+o.Kind, int64(i), 0, nil, "")
		x.timed(func() { x.hosted(func() { x.safely(func() { x.dispatch() }) }) })
		x.idle()
		x.afterwards()
		x.checkKept("after a later operation")
	}
	c.op = len(pt.Ops)
	if len(pt.Ops) > 0 {
		x := &ctx{taskCtx: c, o: pt.Ops[len(pt.Ops)-1], k: c.w.k, prop: c.w.p.Prop}
		x.checkKept("at the end")
	}
	c.w.k.Ev("done", 0, 0, nil, "")
}

// safely contains what a caller would: its own stream's panic. A panic of the
// library's own is a violation.
func (c *ctx) safely(f func()) {
	defer func() {
		switch v := recover().(type) {
		case nil:
		case abortOp:
		case simPanic:
			c.k.Ev("recovered", 0, 0, nil, "")
		case *simrt.Kill:
			panic(v)
		case runtime.Error:
			c.note("panic", "the library panicked: %v", v)
		default:
			c.note("panic", "the library panicked: %v", v)
		}
	}()
	f()
}

func (c *ctx) dispatch() {
	switch c.o.Kind {
	case "rd":
		c.rd()
	case "wr":
		c.wr()
	case "td", "tr", "tw", "tb":
		c.coder(c.newCoder(c.o.Enc), c.o, -1)
	case "reuse":
		c.reuse()
	case "rstack":
		c.rstack()
	case "wstack":
		c.wstack()
	case "call":
		c.call()
	case "churn":
		c.churning()
	case "scale":
		c.scaling()
	default:
		panic("world: unknown op " + c.o.Kind)
	}
}

func (c *ctx) encoding() *cp949.CP949Encoding {
	if c.w.p.OneEnc {
		return c.w.enc
	}
	return cp949.NewCP949Encoding()
}

func at(l []int, i int) int {
	if len(l) == 0 {
		return 1 << 20
	}
	return l[i%len(l)]
}

func (c *ctx) think(i int) {
	c.collect(i)
	if n := len(c.o.Think); n > 0 {
		c.w.sleep(c.o.Think[i%n])
	}
}

// kept is data the caller was given or passed in, watched for changes.
type kept struct {
	what string
	res  calls.Res
	want string
	arg  []byte
	argw []byte
	dead bool
}

func (c *ctx) checkKept(when string) {
	for _, r := range c.kept {
		if r.dead {
			continue
		}
		if got := r.res.Render(""); got != r.want {
			r.dead = true
			c.note("own-result", "%s: data returned earlier changed %s: was %s, is %s", r.what, when, r.want, got)
		}
		if r.arg != nil && string(r.arg) != string(r.argw) {
			r.dead = true
			c.note("own-arg", "%s: the caller's argument changed %s: was %x, is %x", r.what, when, r.argw, r.arg)
		}
	}
}

func (c *ctx) call() {
	cl := c.o.Call
	var arg []byte
	if cl.X != nil {
		arg = append(make([]byte, 0, len(cl.X)+8), cl.X...)
	}
	c.trackBuf(arg)
	for i := range arg[len(arg):cap(arg)] {
		arg[len(arg):cap(arg)][i] = 0xEE
	}
	var enc *cp949.CP949Encoding
	if c.w.p.OneEnc {
		enc = c.w.enc
	}
	res := calls.Eval(cl, arg, enc)
	c.k.Ev("call "+cl.F, 0, 0, nil, res.S)
	c.count("calls")
	if string(arg) != string(cl.X) {
		c.note("own-arg", "%s(%s) modified its argument to %x", cl.F, argText(cl), arg)
	}
	for _, b := range arg[len(arg):cap(arg)] {
		if b != 0xEE {
			c.note("own-arg", "%s(%s) wrote beyond its argument", cl.F, argText(cl))
			break
		}
	}
	if c.o.Want != "" && res.S != c.o.Want {
		c.note("call-result", "%s(%s) returned %s; alone in a fresh process it returns %s", cl.F, argText(cl), res.S, c.o.Want)
	}
	c.elsewhere(cl, enc, res.S)
	k := &kept{what: cl.F + "(" + argText(cl) + ")", res: res, want: res.Render(""), arg: arg, argw: append([]byte(nil), arg...)}
	switch c.o.Own {
	case "keep":
		c.kept = append(c.kept, k)
	case "scribble":
		// the argument is the caller's again: overwrite it, the result must stand
		scribble(arg)
		if got := res.Render(""); got != k.want {
			c.note("own-result", "%s: the result changed from %s to %s when the caller reused its argument", k.what, k.want, got)
		}
		// the result is the caller's too, spare capacity included
		scribble(res.Bytes[:cap(res.Bytes)])
		rs := res.Runes[:cap(res.Runes)]
		for i := range rs {
			rs[i] = 'X'
		}
		c.count("results overwritten")
	}
}

func argText(cl *plan.Call) string {
	switch {
	case cl.X != nil || cl.B != "":
		s := calls.Sprintf("%q", cl.X)
		if cl.B != "" || cl.C != "" {
			s += calls.Sprintf(", %q, %q", cl.B, cl.C)
		}
		return s
	case cl.F == "Join":
		return calls.Sprintf("%U, %U, %U", cl.R[0], cl.R[1], cl.R[2])
	}
	return calls.Sprintf("%U", cl.R[0])
}

func scribble(b []byte) {
	for i := range b {
		b[i] = 0xDB
	}
}

// diff describes the first difference between two byte strings.
func diff(got, want []byte) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	ctx := func(b []byte) string {
		lo, hi := i-6, i+12
		if lo < 0 {
			lo = 0
		}
		if hi > len(b) {
			hi = len(b)
		}
		if lo > hi {
			lo = hi
		}
		return fmt.Sprintf("%x", b[lo:hi])
	}
	return fmt.Sprintf("%d bytes, expected %d; first difference at byte %d: got ..%s, expected ..%s", len(got), len(want), i, ctx(got), ctx(want))
}

func hasPrefix(b, p []byte) bool { return len(b) >= len(p) && string(b[:len(p)]) == string(p) }

func sameErr(got, want error) bool {
	if l, ok := want.(errList); ok {
		var g errList
		return errors.As(got, &g) && g.Error() == l.Error()
	}
	return got == want || errors.Is(got, want)
}

// Names sorts the keys of a count map.
func Names(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

var _ = model.Decode
