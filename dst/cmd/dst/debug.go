package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"time"

	"verif.local/dst/plan"
)

// debug runs one index several times both ways a run can be given to a worker.
func (e *env) debug(prop, index string, race bool) int {
	i, err := strconv.Atoi(index)
	if err != nil {
		die("%v", err)
	}
	from := i
	if s := os.Getenv("VERIF_FROM"); s != "" {
		from, _ = strconv.Atoi(s)
	}
	stride := 4
	c := cfgs[prop]
	e.buildAll(race, prop)
	var pool *plan.Pool
	poolFile := ""
	if c.pool {
		pool = plan.GenPool(e.seed, c.families)
		poolFile = filepath.Join(e.scratch, "pool.json")
		if err := writeJSON(poolFile, pool); err != nil {
			die("%v", err)
		}
	}
	show := func(how string, r *report, err error) {
		if err != nil {
			fmt.Fprintln(os.Stdout, how, "error:", err)
			return
		}
		f := "-"
		if r.Found != nil {
			f = r.Found.Viol.Kind + ": " + r.Found.Viol.Msg
			if os.Getenv("VERIF_LOG") != "" {
				f += "\n" + r.Found.Log
			}
		}
		fmt.Printf("%s: %x steps=%d %s\n", how, r.Hashes, r.Steps, f)
	}
	for k := 0; k < 4; k++ {
		r, err := e.run(&job{Prop: prop, Seed: e.seed, From: from, To: i + 1, Stride: stride, Race: race, Pool: poolFile}, time.Minute)
		show("range", r, err)
		var l []*plan.Plan
		for j := from; j <= i; j += stride {
			l = append(l, plan.Gen(prop, e.seed, j, race, pool))
		}
		r, err = e.fresh(l, false, "race")
		show("plan ", r, err)
	}
	return 0
}
