package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"verif.local/dst/plan"
)

type builds struct {
	plain, race string
	solo        string // the library without seams, for calls alone in a process
	mode        string // full, coarse
	inst        *instrumented
	overlay     string
	why         string
}

func goCmd(dir string, args ...string) *exec.Cmd {
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GO111MODULE=on", "CGO_ENABLED=1", "GOSUMDB=off", "GONOSUMDB=*", "GONOSUMCHECK=1")
	return c
}

// build makes the worker binaries from the repository's current working tree.
func (e *env) buildAll(race bool, prop string) {
	b := &builds{mode: "full"}
	e.build = b
	// a private go.mod: the library is replaced by the working tree
	mod, err := os.ReadFile(filepath.Join(e.verif, "dst", "go.mod"))
	if err != nil {
		die("%v", err)
	}
	ms := strings.ReplaceAll(string(mod), "=> /repo", "=> "+e.repo)
	if err := os.WriteFile(filepath.Join(e.scratch, "go.mod"), []byte(ms), 0o644); err != nil {
		die("%v", err)
	}
	sum, err := os.ReadFile(filepath.Join(e.verif, "dst", "go.sum"))
	if err != nil {
		die("%v", err)
	}
	if rs, err := os.ReadFile(filepath.Join(e.repo, "go.sum")); err == nil {
		sum = append(append(sum, '\n'), rs...)
	}
	if err := os.WriteFile(filepath.Join(e.scratch, "go.sum"), sum, 0o644); err != nil {
		die("%v", err)
	}
	dir := filepath.Join(e.scratch, "inst")
	os.MkdirAll(dir, 0o755)
	inst, err := instrument(e.repo, dir, prop == "C22")
	if err != nil {
		// the repository does not parse
		die("the repository does not build: %v", err)
	}
	b.inst = inst
	plan.TheDict = inst.Dict
	b.overlay = filepath.Join(e.scratch, "overlay.json")
	if err := writeOverlay(b.overlay, inst.Overlay); err != nil {
		die("%v", err)
	}
	out, err := e.compileBoth(race)
	if err != nil && inst.Work {
		fmt.Fprintf(os.Stderr, "dst: statements only are counted: %s\n", firstLine(out))
		inst, _ = instrument(e.repo, dir, false)
		b.inst = inst
		if err := writeOverlay(b.overlay, inst.Overlay); err != nil {
			die("%v", err)
		}
		out, err = e.compileBoth(race)
	}
	if err != nil && b.mode == "full" {
		b.mode, b.why, b.overlay = "coarse", "the instrumented library does not compile: "+firstLine(out), ""
		fmt.Fprintf(os.Stderr, "dst: %s\n%s", b.why, out)
		out, err = e.compileBoth(race)
	}
	if err != nil {
		die("the repository does not build: %v\n%s", err, out)
	}
}

func (e *env) compileBoth(race bool) (string, error) {
	b := e.build
	var wg sync.WaitGroup
	var outs [2]string
	var errs [2]error
	for i := 0; i < 2; i++ {
		if i == 1 && !race {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			args := []string{"test", "-c", "-vet=off", "-modfile", filepath.Join(e.scratch, "go.mod")}
			bin := filepath.Join(e.scratch, "plain.test")
			if i == 1 {
				bin = filepath.Join(e.scratch, "race.test")
				args = append(args, "-race")
			}
			if b.overlay != "" {
				args = append(args, "-overlay", b.overlay)
			}
			args = append(args, "-o", bin, "./world")
			o, err := goCmd(filepath.Join(e.verif, "dst"), args...).CombinedOutput()
			outs[i], errs[i] = string(o), err
			if i == 0 {
				b.plain = bin
			} else {
				b.race = bin
			}
		}()
	}
	wg.Wait()
	for i := range errs {
		if errs[i] != nil {
			return outs[i], errs[i]
		}
	}
	return "", nil
}
