// Command replay runs harnesses natively on given input values.
package main

import (
	"encoding/json"
	"fmt"
	"os"

	"verif/harness/props"
	"verif/harness/sym"
)

type kase struct {
	Harness string
	Shards  map[string]int
	Values  map[string]uint64
	Runs    int
	Observe bool
}

func main() {
	var cs []kase
	if err := json.NewDecoder(os.Stdin).Decode(&cs); err != nil {
		fmt.Println("bad input:", err)
		os.Exit(4)
	}
	sym.CaptureStdout()
	code := 0
	for i, c := range cs {
		f := props.All[c.Harness]
		if f == nil {
			fmt.Fprintln(sym.Out, "no harness", c.Harness)
			os.Exit(4)
		}
		for k := 0; k < c.Runs && code == 0 || k == 0; k++ {
			r := one(f, c)
			if !c.Observe {
				code = r
			}
		}
		if c.Observe {
			fmt.Fprintf(sym.Out, "\n== %d\n", i)
		}
	}
	os.Exit(code)
}

func one(f func(), c kase) (code int) {
	sym.Reset(c.Shards, c.Values)
	sym.Observing = c.Observe
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(sym.AssumeFailed); ok {
				fmt.Fprintln(sym.Out, "ASSUME failed")
				code = 3
				return
			}
			fmt.Fprintln(sym.Out, "PANIC", r)
			code = 2
		}
	}()
	f()
	sym.CheckFrozen()
	if len(sym.Failed) > 0 {
		for i, m := range sym.Failed {
			if i < 10 {
				fmt.Fprintln(sym.Out, "REPLAY-FAILED", m)
			}
		}
		return 1
	}
	return 0
}
