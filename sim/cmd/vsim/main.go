// vsim is the driver of the simulation: it builds the working tree of the
// repository against the simulated kernel, generates workloads, schedules and
// faults from one seed, and judges every execution.
package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"verif/sim/proto"
)

func main() {
	code := run()
	for _, d := range cleanup {
		_ = os.RemoveAll(d)
	}
	os.Exit(code)
}

func run() (code int) {
	defer func() {
		if e := recover(); e != nil {
			if ie, ok := e.(*InfraError); ok {
				fmt.Fprintln(os.Stderr, "ERROR:", ie.msg)
				code = 2
				return
			}
			panic(e)
		}
	}()
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	if d := os.Getenv("VERIF_REPO"); d != "" {
		repoDir = d
	}
	args := os.Args[1:]
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: vsim check ID | replay FILE | list | build | determinism ID")
		return 2
	}
	if args[0] == "list" {
		ids := []string{}
		for id := range properties {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(ids)
		return 0
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	sim, err := Build()
	if err != nil {
		fmt.Fprintln(os.Stderr, "ERROR:", err)
		return 2
	}
	switch args[0] {
	case "build":
		return 0
	case "check":
		for _, id := range args[1:] {
			p := properties[id]
			if p == nil {
				fmt.Fprintln(os.Stderr, "no such property:", id)
				return 2
			}
			if c := campaign(p, tier, seed, sim); c > code {
				code = c
			}
		}
		return code
	case "determinism": // every run is repeated
		sim.rerunEv = 1
		for _, id := range args[1:] {
			if c := campaign(properties[id], tier, seed, sim); c > code {
				code = c
			}
		}
		return code
	case "trace": // trace ID N: the system calls of a workload
		p := properties[args[1]]
		n, _ := strconv.Atoi(args[2])
		x := newX(sim, p)
		x.showTrace()
		fmt.Println(p.Check(x, p.Gen(NewRand(p.ID, ":", seed, ":", n), n)))
		return 0
	case "replay":
		return replay(args[1], sim)
	}
	return 2
}

// showTrace prints the system calls of every run.
func (x *X) showTrace() {
	x.trace = true
	x.onRun = func(sc *proto.Scenario, r *proto.Result) {
		fmt.Println("----", sc.Prog, sc.Args, "exit", r.Exit)
		for _, o := range r.Trace {
			fmt.Printf("%4d %-10s %s %s n=%d ret=%d err=%d\n", o.I, o.Name, o.Path, o.P2, o.N, o.Ret, o.Err)
		}
		fmt.Println(string(r.Stderr), string(r.Prog))
	}
}
