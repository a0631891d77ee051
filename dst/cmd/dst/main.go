// Command dst builds the simulated library from the repository's working tree
// and decides properties by seeded simulation.
package main

import (
	"sync"

	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type env struct {
	repo, verif, scratch string
	seed                 uint64
	tier                 string
	workers              int
	start                time.Time
	build                *builds
	wonMu                sync.Mutex
	hasWon               bool
	lowest               int
}

func die(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "dst: "+format+"\n", args...)
	cleanup()
	os.Exit(2)
}

var cleanup = func() {}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: dst check PROPERTY | dst replay FILE")
		os.Exit(2)
	}
	e := &env{repo: getenv("VERIF_REPO", "/repo"), verif: getenv("VERIF_DIR", "/verif"), tier: getenv("VERIF_TIER", "quick"), workers: 8, start: time.Now()}
	e.seed = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseInt(s, 0, 64)
		if err != nil {
			die("VERIF_SEED: %v", err)
		}
		e.seed = uint64(n)
	}
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		e.workers, _ = strconv.Atoi(s)
	}
	var err error
	e.scratch, err = os.MkdirTemp("", "dst-")
	if err != nil {
		die("%v", err)
	}
	cleanup = func() { os.RemoveAll(e.scratch) }
	defer cleanup()
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM)
	go func() { <-sig; cleanup(); os.Exit(2) }()

	code := 0
	switch os.Args[1] {
	case "check":
		code = e.check(os.Args[2])
	case "debug": // dst debug PROPERTY INDEX [race]
		code = e.debug(os.Args[2], os.Args[3], len(os.Args) > 4)
	case "replay":
		code = e.replay(os.Args[2])
	default:
		die("unknown command %s", os.Args[1])
	}
	cleanup()
	os.Exit(code)
}

func getenv(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func writeJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
