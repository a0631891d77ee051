package simrt

import (
	"errors"
	"flag"
	"fmt"
	"io/fs"
	"log"
	"math/rand"
	"os"
	"os/signal"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
	"unicode"
)

// The process around the library as instrumented code sees it. With a host
// seed every answer is drawn from it and from what is asked, and what would
// change the process is recorded instead of done. Without one (seed 0) the
// real process answers.

var (
	hostMu    sync.Mutex
	hostSeed  uint64
	hostWords []string
	touched   []string
	asked     = map[string]int{}
)

func init() {
	if s := os.Getenv("VERIF_HOST"); s != "" {
		hostSeed, _ = strconv.ParseUint(s, 10, 64)
	}
	if s := os.Getenv("VERIF_WORDS"); s != "" {
		hostWords = strings.Split(s, "\x1f")
	}
}

// SetHost changes the process around the library.
func SetHost(seed uint64) {
	hostMu.Lock()
	hostSeed = seed
	hostMu.Unlock()
}

// HostWords are the words the library itself has.
func HostWords() []string { return hostWords }

// TakeTouched returns what the library tried to change since the last call.
func TakeTouched() []string {
	hostMu.Lock()
	defer hostMu.Unlock()
	t := touched
	touched = nil
	return t
}

// TakeAsked returns how often the library asked for what.
func TakeAsked() map[string]int {
	hostMu.Lock()
	defer hostMu.Unlock()
	if len(asked) == 0 {
		return nil
	}
	a := asked
	asked = map[string]int{}
	return a
}

// ask returns the source of the answer to a question, or nil without a host.
//
//go:norace
func ask(what, arg string) *Rng {
	if hostSeed == 0 {
		return nil
	}
	hostMu.Lock()
	defer hostMu.Unlock()
	asked[what]++
	return NewRng(Mix(hostSeed, HashString(what), HashString(arg)))
}

// touch records an attempt to change the process; with a host it is not done.
//
//go:norace
func touch(format string, args ...any) bool {
	if hostSeed == 0 {
		return false
	}
	s := fmt.Sprintf(format, args...)
	hostMu.Lock()
	defer hostMu.Unlock()
	if len(touched) < 20 {
		touched = append(touched, s)
	}
	return true
}

var hostFlags = []string{"1", "true", "0", "false", "on", "off", "yes", "no", "t", "TRUE", "enabled", "debug"}
var hostValues = []string{
	"2", "3", "7", "8", "10", "16", "64", "100", "255", "1024", "4096", "65536", "1048576", "-1", "-8", "0x10", "1e3", "99999999999999999999", "3.5", "10ms", "1s", "5m",
	"C", "POSIX", "ko", "ko_KR", "ko_KR.UTF-8", "ko_KR.EUC-KR", "ko_KR.CP949", "ko_KR.eucKR", "en_US.UTF-8", "ja_JP.SJIS", "zh_CN.GBK", "tr_TR.UTF-8", "UTF-8", "utf8", "cp949", "CP949", "euc-kr", "uhc", "949",
	"/", "/tmp", "/dev/null", "/nonexistent/dir", ".", "root", "nobody", "localhost", "test", "production", "dev", "ci", "strict", "lenient", "compat", "fast", "safe", "legacy", "none", "all", "replace", "ignore", "?", "□", "한글", "a=b", "a,b", "linux", "dumb", "xterm-256color", " ", "\xb0\xa1",
}

func hostValue(r *Rng) string {
	switch k := r.Intn(10); {
	case k < 4 && len(hostWords) > 0:
		return hostWords[r.Intn(len(hostWords))]
	case k < 7:
		return hostFlags[r.Intn(len(hostFlags))]
	}
	return hostValues[r.Intn(len(hostValues))]
}

// HostArgs are command line arguments.
func HostArgs(r *Rng) []string {
	a := []string{[]string{"a.out", "/usr/bin/app", "server.test", "", "./main"}[r.Intn(5)]}
	for n := r.Intn(4); n > 0; n-- {
		v := hostValue(r)
		switch r.Intn(4) {
		case 0:
			v = "-" + v
		case 1:
			v = "--" + v
		case 2:
			v = "-test." + v
		}
		a = append(a, v)
	}
	if r.P(1, 12) {
		return nil
	}
	return a
}

var hostErrs = []error{syscall.ENOENT, syscall.ENOENT, syscall.ENOENT, syscall.EACCES, syscall.EMFILE, syscall.EIO, syscall.ENOTDIR, syscall.EINTR}

func hostErr(r *Rng, op, name string) error {
	return &fs.PathError{Op: op, Path: name, Err: hostErrs[r.Intn(len(hostErrs))]}
}

var errHost = errors.New("simulated: not available here")

func lookup(what, name string) (string, bool, bool) {
	r := ask(what, name)
	if r == nil {
		return "", false, false
	}
	// all ways to ask for a variable agree
	r = NewRng(Mix(hostSeed, 0xe17, HashString(name)))
	switch {
	case r.P(1, 3):
		return "", false, true
	case r.P(1, 8):
		return "", true, true
	}
	return hostValue(r), true, true
}

// OsGetenv stands in for os.Getenv; likewise all below.
func OsGetenv(name string) string {
	v, _, ok := lookup("os.Getenv", name)
	if !ok {
		return os.Getenv(name)
	}
	return v
}

func OsLookupEnv(name string) (string, bool) {
	v, has, ok := lookup("os.LookupEnv", name)
	if !ok {
		return os.LookupEnv(name)
	}
	return v, has
}

func OsExpandEnv(s string) string { return os.Expand(s, OsGetenv) }

func OsEnviron() []string {
	r := ask("os.Environ", "")
	if r == nil {
		return os.Environ()
	}
	var l []string
	for _, n := range append([]string{"PATH", "HOME", "LANG", "LC_ALL", "TZ", "DEBUG", "GODEBUG", "USER"}, hostWords...) {
		if v, has, _ := lookup("os.LookupEnv", n); has && n != "" && !strings.Contains(n, "=") {
			l = append(l, n+"="+v)
		}
	}
	return l
}

func SyscallGetenv(name string) (string, bool) { return OsLookupEnv(name) }

func hostPath(what string, real func() (string, error)) (string, error) {
	r := ask(what, "")
	switch {
	case r == nil:
		return real()
	case r.P(1, 3):
		return "", &fs.PathError{Op: what, Err: syscall.ENOENT}
	}
	return []string{"/", "/tmp", "/home/user", "/root", "/var/empty", "/tmp/한글", "C:\\Users\\me", "/usr/bin/app", "/home/user/.config"}[r.Intn(9)], nil
}

func OsGetwd() (string, error)         { return hostPath("os.Getwd", os.Getwd) }
func OsExecutable() (string, error)    { return hostPath("os.Executable", os.Executable) }
func OsUserHomeDir() (string, error)   { return hostPath("os.UserHomeDir", os.UserHomeDir) }
func OsUserCacheDir() (string, error)  { return hostPath("os.UserCacheDir", os.UserCacheDir) }
func OsUserConfigDir() (string, error) { return hostPath("os.UserConfigDir", os.UserConfigDir) }

func OsTempDir() string {
	s, err := hostPath("os.TempDir", func() (string, error) { return os.TempDir(), nil })
	if err != nil {
		return "/nonexistent"
	}
	return s
}

func OsHostname() (string, error) {
	r := ask("os.Hostname", "")
	switch {
	case r == nil:
		return os.Hostname()
	case r.P(1, 4):
		return "", errHost
	}
	return hostValue(r), nil
}

func hostInt(what string, real func() int, l ...int) int {
	r := ask(what, "")
	if r == nil {
		return real()
	}
	return l[r.Intn(len(l))]
}

func OsGetpid() int      { return hostInt("os.Getpid", os.Getpid, 1, 2, 77, 4096, 32767, 4194303) }
func OsGetppid() int     { return hostInt("os.Getppid", os.Getppid, 0, 1, 2, 4096) }
func OsGetuid() int      { return hostInt("os.Getuid", os.Getuid, 0, 1, 1000, 65534, -1) }
func OsGeteuid() int     { return hostInt("os.Geteuid", os.Geteuid, 0, 1, 1000, 65534, -1) }
func OsGetgid() int      { return hostInt("os.Getgid", os.Getgid, 0, 1, 1000, 65534, -1) }
func OsGetegid() int     { return hostInt("os.Getegid", os.Getegid, 0, 1, 1000, 65534, -1) }
func OsGetpagesize() int { return hostInt("os.Getpagesize", os.Getpagesize, 4096, 8192, 16384, 65536) }
func RuntimeNumCPU() int {
	return hostInt("runtime.NumCPU", runtime.NumCPU, 1, 1, 2, 3, 4, 8, 16, 64, 192, 1024)
}
func RuntimeNumGoroutine() int {
	return hostInt("runtime.NumGoroutine", runtime.NumGoroutine, 1, 2, 3, 10, 100, 1000, 10001, 1000000)
}

func RuntimeGOMAXPROCS(n int) int {
	if n > 0 && hostSeed != 0 {
		touch("runtime.GOMAXPROCS(%d)", n)
	} else if n > 0 {
		return runtime.GOMAXPROCS(n)
	}
	return hostInt("runtime.GOMAXPROCS", func() int { return runtime.GOMAXPROCS(0) }, 1, 1, 2, 3, 4, 8, 16, 64, 192)
}

func RuntimeReadMemStats(m *runtime.MemStats) {
	r := ask("runtime.ReadMemStats", "")
	runtime.ReadMemStats(m)
	if r == nil {
		return
	}
	v := func() uint64 { return r.Next() >> uint(24+r.Intn(40)) }
	m.Alloc, m.TotalAlloc, m.Sys, m.Mallocs, m.Frees = v(), v(), v(), v(), v()
	m.HeapAlloc, m.HeapSys, m.HeapInuse, m.HeapObjects, m.NextGC = m.Alloc, v(), v(), v(), v()
	m.NumGC = uint32(v())
}

func DebugReadBuildInfo() (*debug.BuildInfo, bool) {
	r := ask("debug.ReadBuildInfo", "")
	switch {
	case r == nil:
		return debug.ReadBuildInfo()
	case r.P(1, 2):
		return nil, false
	}
	return &debug.BuildInfo{GoVersion: "go1.99", Path: hostValue(r), Main: debug.Module{Path: hostValue(r), Version: "(devel)"}}, true
}

func FlagLookup(name string) *flag.Flag {
	r := ask("flag.Lookup", name)
	switch {
	case r == nil:
		return flag.Lookup(name)
	case r.P(1, 2):
		return nil
	}
	s := flag.NewFlagSet("", flag.ContinueOnError)
	s.String(name, hostValue(r), "")
	return s.Lookup(name)
}

func FlagParsed() bool { return hostBool("flag.Parsed", flag.Parsed) }

func TestingTesting() bool { return hostBool("testing.Testing", testing.Testing) }

func hostBool(what string, real func() bool) bool {
	r := ask(what, "")
	if r == nil {
		return real()
	}
	return r.P(1, 2)
}

func TimeLoadLocation(name string) (*time.Location, error) {
	if r := ask("time.LoadLocation", name); r != nil && r.P(1, 2) {
		return nil, errors.New("unknown time zone " + name)
	}
	return time.LoadLocation(name)
}

// Files: most are not there, some are, with a few words in them.

func hostFile(what, op, name string) (data []byte, err error, ok bool) {
	if r := ask(what, name); r == nil {
		return nil, nil, false
	}
	r := NewRng(Mix(hostSeed, 0xf17e, HashString(name)))
	if r.P(2, 3) {
		return nil, hostErr(r, op, name), true
	}
	for n := r.Intn(4); n >= 0; n-- {
		data = append(data, hostValue(r)...)
		if n > 0 || r.P(1, 2) {
			data = append(data, '\n')
		}
	}
	return data, nil, true
}

func hostOpen(what, name string) (*os.File, error, bool) {
	b, err, ok := hostFile(what, "open", name)
	if !ok || err != nil {
		return nil, err, ok
	}
	f, err := os.CreateTemp("", "host")
	if err != nil {
		return nil, err, true
	}
	os.Remove(f.Name())
	f.Write(b)
	f.Seek(0, 0)
	return f, nil, true
}

func OsOpen(name string) (*os.File, error) {
	f, err, ok := hostOpen("os.Open", name)
	if !ok {
		return os.Open(name)
	}
	return f, err
}

func OsReadFile(name string) ([]byte, error) {
	b, err, ok := hostFile("os.ReadFile", "open", name)
	if !ok {
		return os.ReadFile(name)
	}
	return b, err
}

func OsStat(name string) (fs.FileInfo, error) {
	f, err, ok := hostOpen("os.Stat", name)
	switch {
	case !ok:
		return os.Stat(name)
	case err != nil:
		return nil, err
	}
	defer f.Close()
	return f.Stat()
}

func OsLstat(name string) (fs.FileInfo, error) { return OsStat(name) }

func OsReadDir(name string) ([]fs.DirEntry, error) {
	r := ask("os.ReadDir", name)
	switch {
	case r == nil:
		return os.ReadDir(name)
	case r.P(2, 3):
		return nil, hostErr(r, "open", name)
	}
	return nil, nil
}

// What follows would change something.

func denied(op, name string) error { return &fs.PathError{Op: op, Path: name, Err: syscall.EROFS} }

func OsOpenFile(name string, mode int, perm fs.FileMode) (*os.File, error) {
	if mode&(os.O_WRONLY|os.O_RDWR|os.O_APPEND|os.O_CREATE|os.O_TRUNC) != 0 {
		if touch("os.OpenFile(%q) for writing", name) {
			return nil, denied("open", name)
		}
		return os.OpenFile(name, mode, perm)
	}
	f, err, ok := hostOpen("os.OpenFile", name)
	if !ok {
		return os.OpenFile(name, mode, perm)
	}
	return f, err
}

func OsCreate(name string) (*os.File, error) {
	if touch("os.Create(%q)", name) {
		return nil, denied("open", name)
	}
	return os.Create(name)
}

func OsCreateTemp(dir, pattern string) (*os.File, error) {
	if touch("os.CreateTemp(%q, %q)", dir, pattern) {
		return nil, denied("open", pattern)
	}
	return os.CreateTemp(dir, pattern)
}

func OsMkdirTemp(dir, pattern string) (string, error) {
	if touch("os.MkdirTemp(%q, %q)", dir, pattern) {
		return "", denied("mkdir", pattern)
	}
	return os.MkdirTemp(dir, pattern)
}

func OsWriteFile(name string, b []byte, perm fs.FileMode) error {
	if touch("os.WriteFile(%q)", name) {
		return denied("open", name)
	}
	return os.WriteFile(name, b, perm)
}

func OsMkdir(name string, perm fs.FileMode) error {
	if touch("os.Mkdir(%q)", name) {
		return denied("mkdir", name)
	}
	return os.Mkdir(name, perm)
}

func OsMkdirAll(name string, perm fs.FileMode) error {
	if touch("os.MkdirAll(%q)", name) {
		return denied("mkdir", name)
	}
	return os.MkdirAll(name, perm)
}

func OsRemove(name string) error {
	touch("os.Remove(%q)", name)
	return denied("remove", name) // never in a sandbox
}

func OsRemoveAll(name string) error {
	touch("os.RemoveAll(%q)", name)
	return denied("remove", name)
}

func OsRename(a, b string) error {
	touch("os.Rename(%q, %q)", a, b)
	return denied("rename", a)
}

func OsChdir(name string) error {
	if touch("os.Chdir(%q)", name) {
		return nil
	}
	return os.Chdir(name)
}

func OsSetenv(name, v string) error {
	if touch("os.Setenv(%q, %q)", name, v) {
		return nil
	}
	return os.Setenv(name, v)
}

func OsUnsetenv(name string) error {
	if touch("os.Unsetenv(%q)", name) {
		return nil
	}
	return os.Unsetenv(name)
}

func OsClearenv() {
	if !touch("os.Clearenv()") {
		os.Clearenv()
	}
}

// OsExit: inside a simulation nothing ends the process; what follows is as
// unreachable as it would be.
func OsExit(n int) {
	touch("os.Exit(%d)", n)
	if active == nil {
		os.Exit(n)
	}
	panic(fmt.Sprintf("the library ended the process: os.Exit(%d)", n))
}

func logFatal(s string) {
	touch("log.Fatal(%q)", s)
	if active == nil {
		log.Fatal(s)
	}
	panic("the library ended the process: log.Fatal: " + s)
}

func LogFatal(v ...any)                 { logFatal(fmt.Sprint(v...)) }
func LogFatalln(v ...any)               { logFatal(fmt.Sprintln(v...)) }
func LogFatalf(format string, v ...any) { logFatal(fmt.Sprintf(format, v...)) }

func RandSeed(n int64) {
	if !touch("rand.Seed(%d)", n) {
		rand.Seed(n)
	}
}

func DebugSetGCPercent(n int) int {
	if touch("debug.SetGCPercent(%d)", n) {
		return 100
	}
	return debug.SetGCPercent(n)
}

func DebugSetMemoryLimit(n int64) int64 {
	if n >= 0 && touch("debug.SetMemoryLimit(%d)", n) {
		return 1<<63 - 1
	}
	return debug.SetMemoryLimit(n)
}

func DebugSetMaxStack(n int) int {
	if touch("debug.SetMaxStack(%d)", n) {
		return 1000000000
	}
	return debug.SetMaxStack(n)
}

func DebugSetMaxThreads(n int) int {
	if touch("debug.SetMaxThreads(%d)", n) {
		return 10000
	}
	return debug.SetMaxThreads(n)
}

func DebugSetPanicOnFault(on bool) bool {
	if touch("debug.SetPanicOnFault(%v)", on) {
		return false
	}
	return debug.SetPanicOnFault(on)
}

func DebugSetTraceback(s string) {
	if !touch("debug.SetTraceback(%q)", s) {
		debug.SetTraceback(s)
	}
}

func SignalNotify(c chan<- os.Signal, s ...os.Signal) {
	if !touch("signal.Notify(%v)", s) {
		signal.Notify(c, s...)
	}
}

func SignalIgnore(s ...os.Signal) {
	if !touch("signal.Ignore(%v)", s) {
		signal.Ignore(s...)
	}
}

func SignalReset(s ...os.Signal) {
	if !touch("signal.Reset(%v)", s) {
		signal.Reset(s...)
	}
}

// Print and Println stand in for the predeclared functions, which write to the
// standard error stream whatever os.Stderr is.
func Print(v ...any) {
	if !touch("print(%s)", fmt.Sprint(v...)) {
		fmt.Fprint(os.Stderr, v...)
	}
}

func Println(v ...any) {
	if !touch("println(%s)", fmt.Sprint(v...)) {
		fmt.Fprintln(os.Stderr, v...)
	}
}

// Tables sums up what package unicode has in variables.
func Tables() uint64 {
	h := uint64(14695981039346656037)
	add := func(v uint64) { h = (h ^ v) * 1099511628211 }
	for _, t := range []*unicode.RangeTable{unicode.Hangul, unicode.Han, unicode.Letter, unicode.White_Space, unicode.Scripts["Hangul"], unicode.Scripts["Han"]} {
		for _, r := range t.R16 {
			add(uint64(r.Lo)<<32 | uint64(r.Hi)<<16 | uint64(r.Stride))
		}
		for _, r := range t.R32 {
			add(uint64(r.Lo)<<32 | uint64(r.Hi)<<8 | uint64(r.Stride))
		}
	}
	add(uint64(len(unicode.Scripts)))
	add(uint64(len(unicode.CaseRanges)))
	return h
}
