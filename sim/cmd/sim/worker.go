package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"

	"github.com/romshark/jscan-experimental-decoder/verifhook"
)

// A worker process executes simulated runs one after the other and reports on
// its standard output. It announces every run, so that a crash of the process
// is attributed to the run that caused it.

// Stats is what one worker measured.
type Stats struct {
	Runs      int               `json:"runs"`
	Steps     uint64            `json:"steps"`
	Calls     int               `json:"calls"`
	Switches  uint64            `json:"switches"`
	Hot       uint64            `json:"hot"`
	Warm      uint64            `json:"warm"`
	Before    uint64            `json:"before"`
	Reset     uint64            `json:"reset"`
	Reads     int64             `json:"reads"`  // of the clock
	Passed    int64             `json:"passed"` // seconds
	Faults    map[string]uint64 `json:"faults"`
	DocFaults map[string]int    `json:"docFaults"`
	Types     map[string]int    `json:"types"`
	Outcomes  map[string]int    `json:"outcomes"`
	Hashes    []uint64          `json:"hashes"` // statement traces of the non-trivial runs
	All       []uint64          `json:"all,omitempty"`
	Stmts     []int             `json:"stmts"`
	Sample    json.RawMessage   `json:"sample,omitempty"`
	Build     string            `json:"build"`
}

func planSeed(verifSeed, i uint64) uint64 { return mix(mix(verifSeed)^(i*0x9e3779b97f4a7c15)) >> 1 }

func planFor(prop string, seed uint64) *Plan {
	p := profiles[prop].Gen(newRng(strSeed(prop), seed))
	p.Prop, p.Seed = prop, seed
	if r := newRng(strSeed(prop+" before"), seed); r.P(20) {
		// What the process did before.
		for i := r.Range(1, pick(r, 2, 8)); i > 0; i-- {
			tc := pickType(r, nil)
			if d := p.Tasks[0].Decs; len(d) > 0 && r.P(50) {
				tc = akin(r, typeByName[d[r.N(len(d))].Type])
			}
			c := swarmDoc(r)
			b := Before{Type: tc.Name, Kind: pick(r, kBytes, kString, kOneBytes, kOneString)}
			if b.Doc = genDoc(r, tc.RT, c); r.P(10) {
				b.Doc, _ = damage(r, b.Doc)
			}
			p.Before = append(p.Before, b)
		}
	}
	return p
}

// execute runs a plan. Anything the profile did not expect is a violation too,
// except a failure of the simulator itself.
func execute(p *Plan) (v *Violation, bug string) {
	defer func() {
		if x := recover(); x != nil {
			theWorld, curCtx = nil, nil
			if b, ok := x.(oracleBug); ok {
				bug = b.msg
				return
			}
			stack := string(debug.Stack())
			v = viol(p, 0, "panic while the outcome was examined: %v; %s", x, shortStack(stack))
		}
	}()
	statReset += uint64(verifhook.Reset())
	verifhook.SetClock(p.Seed)
	if len(p.Before) > 0 {
		single(func(*world) {
			for _, b := range p.Before {
				tc := typeByName[b.Type]
				call(mkDec(DecPlan{Type: b.Type, Kind: b.Kind}, newTok()), input(b.Doc), tc.New().Ptr, optTable[0], &opCtx{quiet: true}, stepBudget(tc, b.Doc))
				statBefore++
			}
		})
	}
	cyclic = false
	clear(dumpPath)
	for _, t := range p.Tasks {
		for _, s := range t.Slots {
			cyclic = cyclic || s.Cyc
		}
	}
	return profiles[p.Prop].Exec(p), ""
}

func shortStack(s string) string {
	var l []string
	for _, x := range strings.Split(s, "\n") {
		if strings.Contains(x, ".go:") {
			x = strings.TrimSpace(x)
			if i := strings.LastIndex(x, " +0x"); i > 0 {
				x = x[:i]
			}
			l = append(l, x)
		}
	}
	if len(l) > 8 {
		l = l[:8]
	}
	return strings.Join(l, " < ")
}

func nontrivial(p *Plan, before [nFaultKinds]uint64) bool {
	n := 0
	for _, t := range p.Tasks {
		n += len(t.Ops)
		for _, o := range t.Ops {
			if o.Note != "" {
				return true
			}
		}
	}
	return n > 1 || before != statFault
}

func setupRuntime() {
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(3 << 30)
	debug.SetMaxStack(256 << 20)
}

// workerSeeds executes runs [from,from+n) of a check.
func workerSeeds(prop string, verifSeed, from, n uint64, keepAll bool) {
	setupRuntime()
	out := bufio.NewWriter(os.Stdout)
	st := Stats{Faults: map[string]uint64{}, DocFaults: map[string]int{}, Types: map[string]int{}, Outcomes: map[string]int{}, Build: buildMode()}
	for i := from; i < from+n; i++ {
		fmt.Fprintf(out, "S %d\n", i)
		out.Flush()
		p := planFor(prop, planSeed(verifSeed, i))
		before := statFault
		v, bug := execute(p)
		if bug != "" {
			js, _ := json.Marshal(p)
			fmt.Fprintf(out, "B %s (plan %s)\n", strings.ReplaceAll(bug, "\n", " "), js)
			out.Flush()
			os.Exit(3)
		}
		if v != nil {
			js, _ := json.Marshal(v)
			fmt.Fprintf(out, "V %s\n", js)
			out.Flush()
			os.Exit(0)
		}
		st.Runs++
		for _, t := range p.Tasks {
			for _, d := range t.Decs {
				st.Types[d.Type]++
			}
			for _, o := range t.Ops {
				if o.Note != "" {
					for _, k := range strings.Split(o.Note, "+") {
						st.DocFaults[k]++
					}
				}
				if o.Slot < 0 {
					st.DocFaults["nil destination"]++
				}
			}
		}
		if nontrivial(p, before) {
			st.Hashes = append(st.Hashes, lastHash)
		}
		if keepAll {
			st.All = append(st.All, lastHash)
		}
		if i == from {
			st.Sample, _ = json.Marshal(p)
		}
		if i%32 == 31 {
			debug.FreeOSMemory()
		}
	}
	st.Steps, st.Switches, st.Hot, st.Warm = statSteps, statSwitch, statHot, statWarm
	st.Before, st.Reset = statBefore, statReset
	st.Reads, st.Passed = verifhook.ClockReads, verifhook.ClockPassed
	st.Calls = statCalls
	for i, n := range statOutcome {
		st.Outcomes[outcomeNames[i]] = n
	}
	for i, n := range statFault {
		st.Faults[faultNames[i]] = n
	}
	for i, s := range stmtSeen {
		if s {
			st.Stmts = append(st.Stmts, i)
		}
	}
	js, _ := json.Marshal(&st)
	fmt.Fprintf(out, "E %s\n", js)
	out.Flush()
}

// ReplayFile is a recorded violation.
type ReplayFile struct {
	Property  string  `json:"property"`
	Violation string  `json:"violation"`
	Seed      uint64  `json:"seed"`
	VerifSeed uint64  `json:"verif_seed"`
	Index     uint64  `json:"index"`
	Build     string  `json:"build"`
	How       string  `json:"how_to_replay"`
	Plans     []*Plan `json:"plans"` // executed in order in one process; the last one violates
}

// workerPlans executes the plans of a replay file.
func workerPlans(file string) {
	setupRuntime()
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println("B", err)
		os.Exit(3)
	}
	var f ReplayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println("B", err)
		os.Exit(3)
	}
	for i, p := range f.Plans {
		fmt.Printf("S %d\n", i)
		v, bug := execute(p)
		if bug != "" {
			fmt.Println("B", bug)
			os.Exit(3)
		}
		if v != nil {
			js, _ := json.Marshal(v)
			fmt.Printf("V %s\n", js)
			return
		}
	}
	fmt.Println("E {}")
}
