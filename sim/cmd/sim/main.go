package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"syscall"
)

var out = os.Stdout // results; fd 1 itself is the agent's stdout

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim check|one|replay|selftest ...")
		os.Exit(2)
	}
	os.Setenv("TZ", "UTC")
	switch os.Args[1] {
	case "one":
		cmdOne(os.Args[2:])
	case "worker":
		cmdWorker(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2:])
	case "minimise":
		cmdMinimise(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

// hushStdout keeps the agent's own printing out of our output.
func hushStdout() {
	fd, err := syscall.Dup(1)
	if err != nil {
		return
	}
	out = os.NewFile(uintptr(fd), "results")
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err == nil {
		syscall.Dup2(int(null.Fd()), 1)
	}
	runtime.GOMAXPROCS(1)
}

func cmdOne(args []string) {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	n := fs.Int("n", 1, "")
	v := fs.Bool("v", false, "")
	twice := fs.Bool("twice", false, "")
	fs.Parse(args)
	prop, scen := fs.Arg(0), fs.Arg(1)
	seed, _ := strconv.ParseUint(fs.Arg(2), 10, 64)
	hushStdout()
	logRuns = *v
	kinds := map[string]int{}
	var steps, sim int64
	var wall float64
	for i := 0; i < *n; i++ {
		p := scenarios[scen].gen(prop, seed+uint64(i))
		r := runPlan(p, nil)
		steps += r.Steps
		sim += r.SimNS
		wall += r.WallMS
		if r.Err != "" {
			kinds["ERR "+r.Err]++
		}
		for _, x := range r.Viol {
			if kinds[x.Kind] < 3 {
				fmt.Fprintf(out, "seed %d %s: %s\n", p.Seed, x.Kind, x.Msg)
			}
			kinds[x.Kind]++
		}
		if *v {
			b, _ := json.MarshalIndent(p, "", " ")
			fmt.Fprintln(out, string(b))
			for _, l := range r.Log {
				fmt.Fprintln(out, l)
			}
			r.Devs, r.Log, r.States = nil, nil, nil
			b, _ = json.Marshal(r)
			fmt.Fprintln(out, string(b))
		}
		if *twice {
			r2 := runPlan(p, nil)
			if r2.Hash != r.Hash {
				fmt.Fprintf(out, "seed %d NONDETERMINISTIC steps %d %d\n", p.Seed, r.Steps, r2.Steps)
			}
			r3 := runPlan(p, r.Devs)
			if r3.Hash != r.Hash {
				fmt.Fprintf(out, "seed %d REPLAY DIFFERS steps %d %d\n", p.Seed, r.Steps, r3.Steps)
			}
		}
	}
	fmt.Fprintf(out, "runs %d steps %d sim %.0fs wall %.0fms kinds %v\n", *n, steps, float64(sim)/1e9, wall, kinds)
}
