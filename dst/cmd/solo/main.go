// Command solo answers "what does this call return alone in a fresh process":
// it makes the calls given as data on stdin, and is built from the library as
// it stands, without the seams of the simulator.
package main

import (
	"encoding/json"
	"fmt"
	"os"

	"verif.local/dst/calls"
	"verif.local/dst/plan"
)

func main() {
	var c plan.Call
	if err := json.NewDecoder(os.Stdin).Decode(&c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	c.Fix()
	r := calls.Eval(&c, append([]byte(nil), c.X...), nil)
	b, _ := json.Marshal(r.S)
	os.Stdout.Write(b)
}
