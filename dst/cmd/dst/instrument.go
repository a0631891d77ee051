package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"verif.local/dst/plan"
)

// The build step: every Go source file of the repository that has function
// bodies gets a copy in the scratch directory with
//   - a call of the simulator's yield point before every statement,
//   - package sync replaced by the simulated one,
//   - go statements turned into simulated tasks,
//   - the clock, timers and sleeping replaced by the simulator's,
//   - map iteration in a fixed order.
// The copies take the place of the originals through go build's -overlay.

const (
	rtName = "simrt__"
	rtPath = "verif.local/dst/simrt"
	syPath = "verif.local/dst/simsync"
)

type edit struct {
	at, end int
	seq     int
	s       string
}

// clockNames: what of package time is replaced. Tickers and the channels of
// timers stay: they block natively and follow the simulated time as they are.
var clockNames = map[string]string{
	"Now": "TimeNow", "Since": "TimeSince", "Until": "TimeUntil", "Sleep": "TimeSleep",
	"AfterFunc": "AfterFunc", "NewTimer": "NewTimer", "Timer": "Timer",
}

// hostNames: what of the process around it the library could ask about or
// change, by import path; simrt has a function for each, named after both.
var hostNames = map[string]string{
	"os": "Getenv LookupEnv ExpandEnv Environ Getwd Executable UserHomeDir UserCacheDir UserConfigDir TempDir Hostname " +
		"Getpid Getppid Getuid Geteuid Getgid Getegid Getpagesize Open ReadFile Stat Lstat ReadDir OpenFile Create CreateTemp MkdirTemp " +
		"WriteFile Mkdir MkdirAll Remove RemoveAll Rename Chdir Setenv Unsetenv Clearenv Exit",
	"io/ioutil":     "ReadFile=OsReadFile WriteFile=OsWriteFile TempFile=OsCreateTemp TempDir=OsMkdirTemp",
	"syscall":       "Getenv Setenv=OsSetenv Unsetenv=OsUnsetenv Clearenv=OsClearenv Environ=OsEnviron Exit=OsExit Getpid=OsGetpid Getppid=OsGetppid Getuid=OsGetuid Getgid=OsGetgid Getpagesize=OsGetpagesize Chdir=OsChdir",
	"runtime":       "NumCPU NumGoroutine GOMAXPROCS ReadMemStats",
	"runtime/debug": "SetGCPercent SetMemoryLimit SetMaxStack SetMaxThreads SetPanicOnFault SetTraceback ReadBuildInfo",
	"math/rand":     "Seed",
	"math/rand/v2": "IntN=V2IntN Int=V2Int Int32=V2Int32 Int32N=V2Int32N Int64=V2Int64 Int64N=V2Int64N Uint32=V2Uint32 Uint32N=V2Uint32N " +
		"Uint64=V2Uint64 Float64=V2Float64 Float32=V2Float32 NormFloat64=V2NormFloat64 ExpFloat64=V2ExpFloat64 Perm=V2Perm Shuffle=V2Shuffle",
	"crypto/rand": "Read=V2Read Reader=V2Reader",
	"log":         "Fatal Fatalln Fatalf",
	"flag":        "Lookup Parsed",
	"testing":     "Testing",
	"time":        "LoadLocation",
	"os/signal":   "Notify Ignore Reset",
}

// hostKeep: an import stays used.
var hostKeep = map[string]string{
	"os": "FileMode", "io/ioutil": "=Discard", "syscall": "Errno", "runtime": "Error", "runtime/debug": "BuildInfo", "math/rand": "Source", "math/rand/v2": "Source", "crypto/rand": "=Int",
	"log": "Logger", "flag": "Flag", "testing": "T", "time": "Time", "os/signal": "=Notify",
}

// hostName returns the stand-in for a function of a package, or "".
func hostName(path, name string) string {
	for _, n := range strings.Fields(hostNames[path]) {
		if i := strings.IndexByte(n, '='); i >= 0 {
			if n[:i] == name {
				return n[i+1:]
			}
		} else if n == name {
			b := filepath.Base(path)
			return strings.ToUpper(b[:1]) + b[1:] + name
		}
	}
	return ""
}

type instrumented struct {
	Hosts   int
	Dict    plan.Dict
	Words   []string // short strings in files that deal with the process around
	Files   int
	Yields  int
	Syncs   int
	Gos     int
	Maps    int
	Clocks  int
	Rand    bool // math/rand is used
	Chans   bool // channels or select somewhere
	Work    bool // copying and converting count as work
	Copies  int
	Overlay map[string]string
}

type nopImporter struct{}

func (nopImporter) Import(path string) (*types.Package, error) {
	name := filepath.Base(path)
	if len(name) == 2 && name[0] == 'v' { // a version
		name = filepath.Base(filepath.Dir(path))
	}
	p := types.NewPackage(path, name)
	p.MarkComplete()
	return p, nil
}

func goDirs(root string) (map[string][]string, error) {
	m := map[string][]string{}
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			n := fi.Name()
			if p != root && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			m[filepath.Dir(p)] = append(m[filepath.Dir(p)], p)
		}
		return nil
	})
	return m, err
}

func instrument(root, out string, work bool) (*instrumented, error) {
	dirs, err := goDirs(root)
	if err != nil {
		return nil, err
	}
	res := &instrumented{Overlay: map[string]string{}, Work: work}
	var names []string
	for d := range dirs {
		names = append(names, d)
	}
	sort.Strings(names)
	for _, d := range names {
		fset := token.NewFileSet()
		var files []*ast.File
		var paths []string
		srcs := map[string][]byte{}
		for _, p := range dirs[d] {
			b, err := os.ReadFile(p)
			if err != nil {
				return nil, err
			}
			f, err := parser.ParseFile(fset, p, b, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			files = append(files, f)
			paths = append(paths, p)
			srcs[p] = b
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
		byPkg := map[string][]*ast.File{}
		for _, f := range files {
			byPkg[f.Name.Name] = append(byPkg[f.Name.Name], f)
		}
		for n, fs := range byPkg {
			cfg := types.Config{Importer: nopImporter{}, Error: func(error) {}}
			cfg.Check(n, fset, fs, info)
		}
		res.mentions(files, info)
		chans := map[string]bool{}
		for n, fs := range byPkg {
			for _, f := range fs {
				if hasChan(f) {
					chans[n] = true
					res.Chans = true
				}
			}
		}
		var asking, rest []*ast.File
		for _, f := range files {
			if importsHost(f) {
				asking = append(asking, f)
			} else {
				rest = append(rest, f)
			}
		}
		if len(asking) > 0 {
			res.words(asking, true)
			res.words(rest, false)
		}
		for i, f := range files {
			s, ok := instrumentFile(fset, f, srcs[paths[i]], info, res, chans[f.Name.Name])
			if !ok {
				continue
			}
			rel, _ := filepath.Rel(root, paths[i])
			dst := filepath.Join(out, strings.ReplaceAll(rel, string(filepath.Separator), "__"))
			if err := os.WriteFile(dst, s, 0o644); err != nil {
				return nil, err
			}
			res.Overlay[paths[i]] = dst
			res.Files++
		}
	}
	return res, nil
}

// mentions collects what the library's own text mentions, tables aside.
func (res *instrumented) mentions(files []*ast.File, info *types.Info) {
	d := &res.Dict
	rs, ss, is, cs := map[rune]bool{}, map[string]bool{}, map[int]bool{}, map[int]bool{}
	for _, c := range d.Runes {
		rs[c] = true
	}
	for _, s := range d.Strs {
		ss[s] = true
	}
	for _, n := range d.Ints {
		is[n] = true
	}
	addRune := func(c rune) {
		if c >= 0x20 && c <= utf8.MaxRune && !rs[c] && len(d.Runes) < 400 {
			rs[c] = true
			d.Runes = append(d.Runes, c)
		}
	}
	addInt := func(n int64) {
		if n >= 2 && n <= 1<<17 && !is[int(n)] && len(d.Ints) < 200 {
			is[int(n)] = true
			d.Ints = append(d.Ints, int(n))
		}
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.CompositeLit:
				return len(x.Elts) <= 40
			case *ast.BinaryExpr:
				if v := info.Types[x].Value; v != nil && v.Kind() == constant.Int {
					if k, ok := constant.Int64Val(v); ok {
						addInt(k)
					}
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.CHAR:
					if s, err := strconv.Unquote(x.Value); err == nil {
						for _, c := range s {
							addRune(c)
						}
					}
				case token.STRING:
					s, err := strconv.Unquote(x.Value)
					if err != nil || s == "" || len(s) > 24 {
						break
					}
					if !ss[s] && len(d.Strs) < 200 {
						ss[s] = true
						d.Strs = append(d.Strs, s)
					}
					for _, c := range s {
						addRune(c)
					}
				case token.INT:
					k, err := strconv.ParseInt(x.Value, 0, 64)
					if err != nil {
						break
					}
					if hex := strings.HasPrefix(x.Value, "0x") || strings.HasPrefix(x.Value, "0X"); !hex || k&(k-1) == 0 && k < 0x10000 {
						addInt(k)
					}
					if k >= 0x80 {
						addRune(rune(k))
					}
					if k >= 0x8100 && k <= 0xfeff && !cs[int(k)] && len(d.Codes) < 200 {
						cs[int(k)] = true
						d.Codes = append(d.Codes, int(k))
					}
				}
			}
			return true
		})
	}
}

func importsHost(f *ast.File) bool {
	for _, im := range f.Imports {
		switch im.Path.Value {
		case `"os"`, `"io/ioutil"`, `"syscall"`, `"flag"`, `"os/user"`, `"runtime/debug"`:
			return true
		}
	}
	return false
}

// words collects what answers to the library's questions it may know.
func (res *instrumented) words(files []*ast.File, all bool) {
	seen := map[string]bool{}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			l, ok := n.(*ast.BasicLit)
			if !ok {
				return true
			}
			w := l.Value
			switch l.Kind {
			case token.STRING:
				w, _ = strconv.Unquote(l.Value)
			case token.INT:
				if len(w) > 6 || !all {
					return true
				}
			default:
				return true
			}
			if w != "" && len(w) <= 40 && !seen[w] && len(res.Words) < 100 && !strings.ContainsAny(w, "\x00\x1f") {
				seen[w] = true
				res.Words = append(res.Words, w)
			}
			return true
		})
	}
}

func hasChan(f *ast.File) bool {
	found := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ChanType, *ast.SelectStmt, *ast.SendStmt:
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		case *ast.SelectorExpr: // what is set in one run is not there in the next
			if id, ok := x.X.(*ast.Ident); ok && id.Name == "time" {
				switch x.Sel.Name {
				case "Tick", "NewTicker", "After", "NewTimer", "AfterFunc", "Sleep":
					found = true
				}
			}
		}
		return !found
	})
	return found
}

func instrumentFile(fset *token.FileSet, f *ast.File, src []byte, info *types.Info, res *instrumented, chans bool) ([]byte, bool) {
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	ins := func(at int, s string) { edits = append(edits, edit{at, at, len(edits), s}) }
	rep := func(from, to int, s string) { edits = append(edits, edit{from, to, len(edits), s}) }
	yield := func(p token.Pos) {
		ins(off(p), rtName+".Y();")
		res.Yields++
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			yield(s.Pos())
			if a, ok := s.(*ast.AssignStmt); ok && res.Work && a.Tok == token.ADD_ASSIGN && simple(a.Lhs[0]) && kindOf(info, a.Lhs[0]) == "string" {
				ins(off(s.Pos()), rtName+".Work(len("+string(src[off(a.Lhs[0].Pos()):off(a.Lhs[0].End())])+"));")
				res.Copies++
			}
		}
	}
	need, generic := false, false
	uses := map[string]bool{} // of imports whose use was replaced
	nmap := 0
	// function types of interface methods etc. have no body and need nothing
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Body != nil {
				need = true
				if len(x.Body.List) == 0 {
					yield(x.Body.Lbrace + 1)
				}
			}
		case *ast.FuncLit:
			need = true
			if len(x.Body.List) == 0 {
				yield(x.Body.Lbrace + 1)
			}
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				yield(x.Body.Lbrace + 1)
			}
		case *ast.RangeStmt:
			if len(x.Body.List) == 0 {
				yield(x.Body.Lbrace + 1)
			}
			tv := info.Types[x.X]
			if tv.Type == nil || x.Key == nil {
				break
			}
			if _, ok := tv.Type.Underlying().(*types.Map); !ok {
				break
			}
			// for k, v := range m {  ->
			// for _, k := range simrt.Keys(m) { v, ok := m[k]; if !ok { continue }
			if !simple(x.X) {
				break
			}
			key, ok1 := x.Key.(*ast.Ident)
			var val *ast.Ident
			ok2 := true
			if x.Value != nil {
				val, ok2 = x.Value.(*ast.Ident)
			}
			if !ok1 || !ok2 || x.Tok != token.DEFINE {
				break
			}
			m := string(src[off(x.X.Pos()):off(x.X.End())])
			k := key.Name
			if k == "_" {
				k = fmt.Sprintf("simk%d__", nmap)
			}
			v := "_"
			if val != nil {
				v = val.Name
			}
			okn := fmt.Sprintf("simok%d__", nmap)
			nmap++
			rep(off(x.Key.Pos()), off(x.X.End()), fmt.Sprintf("_, %s := range %s.Keys(%s)", k, rtName, m))
			ins(off(x.Body.Lbrace)+1, fmt.Sprintf("%s, %s := %s[%s]; if !%s { continue };", v, okn, m, k, okn))
			generic = true
			res.Maps++
		case *ast.GoStmt:
			need = true
			res.Gos++
			call := x.Call
			s := rtName + ".GoCall("
			rep(off(x.Go), off(call.Fun.Pos()), s)
			if len(call.Args) > 0 {
				rep(off(call.Lparen), off(call.Lparen)+1, ", ")
			} else {
				rep(off(call.Lparen), off(call.Lparen)+1, "")
			}
		case *ast.BinaryExpr:
			if res.Work && x.Op == token.ADD && info.Types[x].Value == nil && kindOf(info, x) == "string" && kindOf(info, x.X) == "string" && info.Types[x.X].Value == nil {
				ins(off(x.X.Pos()), rtName+".WorkString(")
				ins(off(x.X.End()), ")")
				res.Copies++
			}
		case *ast.CallExpr:
			if res.Work {
				if from, to, f := copies(info, x); f == "Copy" {
					rep(off(from), off(to), rtName+".Copy")
					res.Copies++
				} else if f != "" {
					ins(off(from), rtName+"."+f+"(")
					ins(off(to), ")")
					res.Copies++
				}
			}
			id, ok := x.Fun.(*ast.Ident)
			if !ok || id.Name != "print" && id.Name != "println" {
				break
			}
			if _, ok := info.Uses[id].(*types.Builtin); ok {
				rep(off(id.Pos()), off(id.End()), rtName+"."+strings.ToUpper(id.Name[:1])+id.Name[1:])
				need = true
				res.Hosts++
			}
		case *ast.SelectorExpr:
			id, ok := x.X.(*ast.Ident)
			if !ok {
				break
			}
			pkg, ok := info.Uses[id].(*types.PkgName)
			if !ok {
				break
			}
			if pkg.Imported().Path() == "runtime" && x.Sel.Name == "SetFinalizer" {
				rep(off(x.Pos()), off(x.End()), rtName+".SetFinalizer")
				need = true
				uses["var _ "+id.Name+".Error\n"] = true
				break
			}
			if n := hostName(pkg.Imported().Path(), x.Sel.Name); n != "" {
				rep(off(x.Pos()), off(x.End()), rtName+"."+n)
				need = true
				if k := hostKeep[pkg.Imported().Path()]; strings.HasPrefix(k, "=") {
					uses["var _ = "+id.Name+"."+k[1:]+"\n"] = true
				} else {
					uses["var _ "+id.Name+"."+k+"\n"] = true
				}
				res.Hosts++
				break
			}
			if pkg.Imported().Path() != "time" || clockNames[x.Sel.Name] == "" {
				break
			}
			rep(off(x.Pos()), off(x.End()), rtName+"."+clockNames[x.Sel.Name])
			need = true
			uses["var _ "+id.Name+".Time\n"] = true
			res.Clocks++
		case *ast.ImportSpec:
			if x.Path.Value == `"math/rand"` {
				res.Rand = true
			}
			if x.Path.Value == `"sync"` {
				if x.Name == nil {
					ins(off(x.Path.Pos()), "sync ")
				}
				rep(off(x.Path.Pos()), off(x.Path.End()), `"`+syPath+`"`)
				need = true
				res.Syncs++
			}
		}
		return true
	})
	var globals []string
	if chans {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				for _, n := range sp.(*ast.ValueSpec).Names {
					if n.Name != "_" {
						globals = append(globals, "&"+n.Name)
						need = true
					}
				}
			}
		}
	}
	if !need {
		return nil, false
	}
	ins(off(f.Name.End()), "; import "+rtName+" \""+rtPath+"\"")
	head := ""
	if generic || res.Syncs > 0 || res.Copies > 0 {
		head = "//go:build go1.21\n\n"
		for _, cg := range f.Comments {
			if cg.Pos() < f.Package {
				for _, c := range cg.List {
					if strings.HasPrefix(c.Text, "//go:build") || strings.HasPrefix(c.Text, "// +build") {
						head = ""
					}
				}
			}
		}
	}
	ins(len(src), "\nvar _ = "+rtName+".Y\n")
	for s := range uses {
		ins(len(src), s)
	}
	if chans {
		ins(len(src), "var _ = "+rtName+".Globals("+strings.Join(globals, ", ")+")\n")
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
	var b strings.Builder
	b.WriteString(head)
	pos := 0
	for _, e := range edits {
		if e.at < pos { // inside a replaced range
			continue
		}
		b.Write(src[pos:e.at])
		b.WriteString(e.s)
		pos = e.end
	}
	b.Write(src[pos:])
	return []byte(b.String()), true
}

// kindOf tells the type of an expression if it is one of a few.
func kindOf(info *types.Info, e ast.Expr) string {
	t := info.Types[e].Type
	if t == nil {
		if id, ok := e.(*ast.Ident); ok && info.Uses[id] != nil {
			t = info.Uses[id].Type()
		}
	}
	if t == nil {
		return ""
	}
	switch s := t.String(); s {
	case "string", "[]byte", "[]rune", "[]uint8", "[]int32":
		return strings.Replace(strings.Replace(s, "uint8", "byte", 1), "int32", "rune", 1)
	}
	return ""
}

// whole: functions that always go through all of their first argument.
var whole = map[string]string{
	"bytes":        "Clone Count Fields Map Replace ReplaceAll Runes Split ToLower ToUpper ToTitle ToValidUTF8",
	"strings":      "Clone Count Fields Replace ReplaceAll Split ToLower ToUpper ToTitle ToValidUTF8",
	"unicode/utf8": "RuneCount RuneCountInString Valid ValidString",
}

// copies tells which part of a call, which goes through all of a text in one
// step, is to be enclosed in or replaced by what function that counts it.
func copies(info *types.Info, x *ast.CallExpr) (from, to token.Pos, f string) {
	count := func(e ast.Expr) (token.Pos, token.Pos, string) {
		if info.Types[e].Value == nil {
			switch kindOf(info, e) {
			case "string":
				return e.Pos(), e.End(), "WorkString"
			case "[]byte":
				return e.Pos(), e.End(), "WorkBytes"
			case "[]rune":
				return e.Pos(), e.End(), "WorkRunes"
			}
		}
		return 0, 0, ""
	}
	if tv := info.Types[x.Fun]; tv.IsType() && len(x.Args) == 1 {
		to := kindOf(info, x.Fun)
		if from := kindOf(info, x.Args[0]); to != "" && from != "" && to != from && (to == "string" || from == "string") {
			return count(x.Args[0])
		}
		return 0, 0, ""
	}
	switch fn := x.Fun.(type) {
	case *ast.Ident:
		if _, ok := info.Uses[fn].(*types.Builtin); !ok {
			break
		}
		switch {
		case fn.Name == "append" && x.Ellipsis.IsValid() && len(x.Args) == 2:
			return count(x.Args[1])
		case fn.Name == "copy" && len(x.Args) == 2 && info.Types[x.Args[1]].Value == nil:
			a, b := kindOf(info, x.Args[0]), kindOf(info, x.Args[1])
			if a == "[]byte" && (b == "string" || b == a) {
				return fn.Pos(), fn.End(), "Copy"
			}
		}
	case *ast.SelectorExpr:
		id, ok := fn.X.(*ast.Ident)
		if !ok || len(x.Args) == 0 {
			break
		}
		if pkg, ok := info.Uses[id].(*types.PkgName); ok {
			for _, n := range strings.Fields(whole[pkg.Imported().Path()]) {
				if n == fn.Sel.Name {
					return count(x.Args[0])
				}
			}
		}
	}
	return 0, 0, ""
}

// simple: an expression that can be evaluated again without effect.
func simple(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return simple(x.X)
	case *ast.ParenExpr:
		return simple(x.X)
	case *ast.StarExpr:
		return simple(x.X)
	}
	return false
}

func writeOverlay(path string, m map[string]string) error {
	b, err := json.Marshal(map[string]any{"Replace": m})
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}
