package world

import (
	"errors"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"time"

	"golang.org/x/text/encoding"
	"golang.org/x/text/transform"

	"github.com/suapapa/go_hangul/encoding/cp949"

	"verif.local/dst/calls"
	"verif.local/dst/plan"
	"verif.local/dst/simrt"
)

// The process around the library: what it can ask about is decided by the plan
// (simrt/host.go answers); what it could change is compared with what it was.

// host is that process during one run.
type host struct {
	out, in *os.File
	off     int64     // of the input
	real    hostState // to return to
	base    hostState // while the run lasts
	booted  bool
	op      int
}

// hostState is what everybody in a process shares.
type hostState struct {
	args                  []string
	stdin, stdout, stderr *os.File
	logOut                io.Writer
	logFlags              int
	logPrefix             string
	local                 *time.Location
	env                   string
	cwd                   string
	procs                 int
	flags                 int
	vars                  [14]any
	tables                uint64
}

func state(all bool) hostState {
	s := hostState{args: os.Args, stdin: os.Stdin, stdout: os.Stdout, stderr: os.Stderr, logOut: log.Writer(), logFlags: log.Flags(), logPrefix: log.Prefix(), local: time.Local, procs: runtime.GOMAXPROCS(0)}
	s.vars = [14]any{io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrShortBuffer, io.ErrNoProgress, io.ErrClosedPipe, transform.ErrShortDst, transform.ErrShortSrc, transform.ErrEndOfSpan,
		encoding.ErrInvalidUTF8, cp949.ErrCP949UnexpectedStream, transform.Discard, io.Discard, errors.ErrUnsupported}
	if all {
		s.env = strings.Join(os.Environ(), "\x00")
		s.cwd, _ = os.Getwd()
		flag.VisitAll(func(f *flag.Flag) {
			if !strings.HasPrefix(f.Name, "test.") {
				s.flags++
			}
		})
		s.tables = simrt.Tables()
	}
	return s
}

// changed names the first thing that is not as it was.
func (s *hostState) changed(n *hostState, all bool) string {
	for _, c := range []struct {
		what string
		same bool
	}{
		{"os.Args", reflect.DeepEqual(s.args, n.args)},
		{"os.Stdin", s.stdin == n.stdin}, {"os.Stdout", s.stdout == n.stdout}, {"os.Stderr", s.stderr == n.stderr},
		{"the output of package log", s.logOut == n.logOut}, {"the flags of package log", s.logFlags == n.logFlags}, {"the prefix of package log", s.logPrefix == n.logPrefix},
		{"time.Local", s.local == n.local}, {"GOMAXPROCS", s.procs == n.procs},
		{"an exported variable of another package", s.vars == n.vars},
		{"the environment", !all || s.env == n.env}, {"the working directory", !all || s.cwd == n.cwd},
		{"the command line flags", !all || s.flags == n.flags}, {"the tables of package unicode", !all || s.tables == n.tables},
	} {
		if !c.same {
			return c.what
		}
	}
	return ""
}

// theHost outlives runs: the process is one.
var theHost host

// atStart is the process as package initialisation left it.
var atStart = state(true)

//go:norace
func (w *world) hostIn() {
	if w.p.Prop != "C21" {
		return
	}
	h := &theHost
	h.op = 0
	if !h.booted {
		h.booted = true
		for _, t := range simrt.TakeTouched() {
			w.add(&Violation{Kind: "touched", Msg: "package initialisation: " + t, Task: -1, Op: -1})
		}
		for _, c := range []struct {
			what string
			bad  bool
		}{{"the flags of package log", atStart.logFlags != log.LstdFlags}, {"the prefix of package log", atStart.logPrefix != ""}, {"the command line flags", atStart.flags != 0}, {"the tables of package unicode", os.Getenv("VERIF_TABLES") != "" && os.Getenv("VERIF_TABLES") != strconv.FormatUint(atStart.tables, 16)},
			{"time.Local", atStart.local != time.Local || atStart.local.String() != "Local"}} {
			if c.bad {
				w.add(&Violation{Kind: "touched", Msg: "package initialisation changed " + c.what, Task: -1, Op: -1})
			}
		}
	}
	simrt.SetHost(w.p.Host)
	simrt.TakeAsked()
	if w.p.Host == 0 {
		return
	}
	if h.out == nil {
		h.out, h.in = temp(), temp()
	}
	h.real = state(false)
	r := simrt.NewRng(simrt.Mix(w.p.Host, 0x0a))
	os.Stdout, os.Stderr = h.out, h.out
	if w.p.Host > 1 {
		os.Args = simrt.HostArgs(r)
		h.in.Truncate(0)
		h.in.WriteAt([]byte([]string{"", "y\n", "1\n2\n3\n", "가나다\n", "\xb0\xa1\n"}[r.Intn(5)]), 0)
		time.Local = []*time.Location{h.real.local, time.UTC, time.FixedZone("KST", 9*3600), time.FixedZone("", -43200)}[r.Intn(4)]
		log.SetFlags(r.Intn(64))
		log.SetPrefix([]string{"", "app: ", "%s"}[r.Intn(3)])
	}
	os.Stdin = h.in
	log.SetOutput(h.out)
	h.out.Truncate(0)
	h.out.Seek(0, io.SeekStart)
	h.in.Seek(0, io.SeekStart)
	h.base = state(true)
	h.base.args = append([]string(nil), os.Args...)
	w.count("fault: command line, standard streams, zone, log settings differ")
}

func temp() *os.File {
	f, err := os.CreateTemp("", "dst-host")
	if err != nil {
		panic("world: " + err.Error())
	}
	os.Remove(f.Name())
	return f
}

func (w *world) count(name string) {
	if len(w.tasks) > 0 {
		w.tasks[0].count(name)
	}
}

// hosted runs an operation and looks at the process afterwards.
//
//go:norace
func (c *ctx) hosted(f func()) {
	if c.prop != "C21" {
		f()
		return
	}
	h := &theHost
	if c.w.p.Shift && c.w.p.Host > 1 {
		h.op++
		simrt.SetHost(simrt.Mix(c.w.p.Host, uint64(h.op)) | 2)
		c.count("fault: the environment changed between operations")
	}
	switch c.o.From {
	case "deep":
		c.count("situation: called from deep in the stack")
		deep(c.o.Deep, f)
	case "panicking":
		c.count("situation: called while the caller panics")
		if v := panicking(f); v != whilePanicking {
			c.note("swallowed-panic", "the caller's own panic %v became %v", whilePanicking, v)
		}
	case "locked":
		c.count("situation: called from a locked thread")
		runtime.LockOSThread()
		f()
		runtime.UnlockOSThread()
	default:
		f()
	}
	for _, t := range simrt.TakeTouched() {
		c.note("touched", "the library changed the process: %s", t)
	}
	for what, n := range simrt.TakeAsked() {
		c.cnt["fault: answered "+what] += n
	}
	if c.w.p.Host == 0 {
		return
	}
	h.look(c.w, func(kind, msg string) { c.note(kind, "%s", msg) }, false)
}

// elsewhere makes the same call in other surroundings.
//
//go:norace
func (c *ctx) elsewhere(cl *plan.Call, enc *cp949.CP949Encoding, want string) {
	if c.prop != "C21" {
		return
	}
	for i := 0; i < 3; i++ {
		if c.w.p.Host > 1 {
			theHost.op++
			simrt.SetHost(simrt.Mix(c.w.p.Host, uint64(theHost.op), 3) | 2)
		}
		if got := calls.Eval(cl, append([]byte(nil), cl.X...), enc).S; got != want {
			c.note("call-result", "%s(%s) returned %s, and %s in other surroundings", cl.F, argText(cl), want, got)
			break
		}
		c.count("situation: same call in other surroundings")
	}
	if !c.w.p.Shift {
		simrt.SetHost(c.w.p.Host)
	}
}

func (h *host) look(w *world, note func(kind, msg string), all bool) {
	if n, _ := h.out.Seek(0, io.SeekCurrent); n > 0 {
		b := make([]byte, min(n, 200))
		h.out.ReadAt(b, 0)
		h.out.Truncate(0)
		h.out.Seek(0, io.SeekStart)
		note("printed", fmt.Sprintf("the library printed %q", b))
	}
	if n, _ := h.in.Seek(0, io.SeekCurrent); n > 0 {
		h.in.Seek(0, io.SeekStart)
		note("stdin", fmt.Sprintf("the library read %d bytes of the standard input", n))
	}
	now := state(all)
	if s := h.base.changed(&now, all); s != "" {
		note("touched", "the library changed "+s)
		h.base = state(true)
		h.base.args = append([]string(nil), os.Args...)
	}
}

//go:norace
func (w *world) hostOut() {
	h := &theHost
	if w.p.Prop != "C21" || w.p.Host == 0 {
		return
	}
	add := func(kind, msg string) { w.add(&Violation{Kind: kind, Msg: msg, Task: -1, Op: -1}) }
	for _, t := range simrt.TakeTouched() {
		add("touched", "the library changed the process: "+t)
	}
	h.look(w, add, true)
	r := h.real
	os.Args, os.Stdin, os.Stdout, os.Stderr, time.Local = r.args, r.stdin, r.stdout, r.stderr, r.local
	log.SetOutput(r.logOut)
	log.SetFlags(r.logFlags)
	log.SetPrefix(r.logPrefix)
	simrt.SetHost(0)
}

// deep calls f from n frames further down.
//
//go:noinline
func deep(n int, f func()) byte {
	var pad [160]byte
	if n <= 0 {
		f()
		return 0
	}
	pad[n%len(pad)] = byte(n)
	return deep(n-1, f) + pad[(n*7)%len(pad)]
}

type callerPanic struct{}

func (callerPanic) String() string { return "of the caller" }

var whilePanicking = callerPanic{}

// panicking calls f in a deferred function while a panic goes on, and returns
// the panic that came out.
func panicking(f func()) (v any) {
	defer func() {
		if v = recover(); v != any(whilePanicking) {
			if _, ok := v.(*simrt.Kill); ok {
				panic(v)
			}
		}
	}()
	defer f()
	panic(whilePanicking)
}
