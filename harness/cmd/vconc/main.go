//go:build vsched

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"

	"hv/vs"
)

// vconc explore SCEN BOUND NPROC SECS DIR -> JSON statistics on stdout
// vconc list
func main() {
	runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
	if vs.Main() {
		return
	}
	switch os.Args[1] {
	case "list":
		for _, s := range vs.All() {
			fmt.Printf("%s\t%s\n", s.Name, s.Desc)
		}
	case "explore":
		bound, _ := strconv.Atoi(os.Args[3])
		np, _ := strconv.Atoi(os.Args[4])
		secs, _ := strconv.ParseFloat(os.Args[5], 64)
		st, err := vs.Explore(os.Args[2], bound, np, secs, os.Args[6])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var conf []vs.Violation
		unconfirmed := 0
		for i := range st.Violations {
			if len(conf) >= 2 {
				break
			}
			if ok, why := vs.Confirm(&st.Violations[i], 5, os.Args[6]); ok {
				conf = append(conf, st.Violations[i])
			} else {
				unconfirmed++
				fmt.Fprintf(os.Stderr, "unconfirmed: %v: %s\n", st.Violations[i].What, why)
			}
		}
		// A state is a decision point reached by a distinct sequence of choices, a
		// transition one scheduling step of the implementation, a trace one execution.
		out := map[string]any{
			"States": st.Transitions + 1, "Transitions": st.Points, "Traces": st.Executions,
			"Bound": st.Bound, "PerLevel": st.PerLevel, "Outcomes": st.Outcomes, "Capped": st.Capped || st.Bound < bound,
			"Frontier": st.Frontier, "Diverged": st.Diverged, "Overflows": st.Overflows, "Limits": st.Limits,
			"Unconfirmed": unconfirmed, "WallS": st.WallS, "Samples": st.Sample, "Violations": conf,
		}
		b, _ := json.MarshalIndent(out, "", " ")
		os.Stdout.Write(append(b, '\n'))
	}
}
