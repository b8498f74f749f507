package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"time"
)

func num(s string) uint64 {
	n, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		fmt.Fprintln(os.Stderr, "not a number:", s)
		os.Exit(2)
	}
	return n
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim check|worker|plans|replay|loop|plan ...")
		os.Exit(2)
	}
	memoTypes()
	a := os.Args[2:]
	switch os.Args[1] {
	case "worker":
		workerSeeds(a[0], num(a[1]), num(a[2]), num(a[3]), len(a) > 4)
	case "plans":
		workerPlans(a[0])
	case "probe":
		setupRuntime()
		probe(a[0])
	case "replay":
		os.Exit(replay(a[0]))
	case "check":
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		prop := fs.String("prop", "", "property")
		tier := fs.String("tier", "quick", "quick or thorough")
		seed := fs.Uint64("seed", 1, "VERIF_SEED")
		out := fs.String("out", "", "evidence directory")
		build := fs.String("build", "", "how this was built")
		stmts := fs.String("stmts", "", "list of the statement hooks")
		known := fs.String("known", "", "known findings")
		fs.Parse(a)
		os.Exit(check(*prop, *tier, *seed, *out, *build, *stmts, *known))
	case "plan":
		js, _ := json.MarshalIndent(planFor(a[0], planSeed(num(a[1]), num(a[2]))), "", " ")
		fmt.Println(string(js))
	case "min":
		// For exploration by hand: minimise single runs.
		for _, x := range a[2:] {
			plans := []*Plan{planFor(a[0], planSeed(num(a[1]), num(x)))}
			v := try(a[0], plans)
			if v == nil {
				fmt.Println(x, "not reproduced")
				continue
			}
			m := &minimiser{prop: a[0], deadline: time.Now().Add(300 * time.Second)}
			plans, v = m.run(plans, v)
			p := plans[len(plans)-1]
			fmt.Println(x, v.Msg)
			for _, t := range p.Tasks {
				fmt.Printf("  %v %+v\n", t.Decs, t.Slots)
				for _, o := range t.Ops {
					fmt.Printf("  %s dec %d slot %d opt %d acts %v %q\n", o.Op, o.Dec, o.Slot, o.Opt, o.Acts, o.Doc)
				}
			}
		}
	case "loop":
		// For exploration by hand: all violations of a range of runs.
		debug.SetGCPercent(-1)
		counts := map[string]int{}
		from, n := num(a[2]), num(a[3])
		for i := from; i < from+n; i++ {
			p := planFor(a[0], planSeed(num(a[1]), i))
			if v, bug := execute(p); v != nil || bug != "" {
				key := p.Tasks[0].Decs[0].Type
				counts[key]++
				if counts[key] <= 1 {
					fmt.Println(i, v, bug)
					if os.Getenv("V") != "" {
						js, _ := json.Marshal(p)
						fmt.Println(string(js))
					}
				}
			}
			if i%32 == 31 {
				debug.FreeOSMemory()
			}
		}
		fmt.Println(counts)
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}
