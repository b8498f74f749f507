package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// childResult is what came of one worker process.
type childResult struct {
	viol  *Violation
	bug   string
	last  int64 // last run announced, -1: none
	stats *Stats
}

var childEnv = func() []string {
	var env []string
	for _, e := range os.Environ() {
		switch k, _, _ := strings.Cut(e, "="); k {
		case "GOMAXPROCS", "GODEBUG", "GOGC", "GOMEMLIMIT", "GORACE", "ASAN_OPTIONS", "GOTRACEBACK":
		default:
			env = append(env, e)
		}
	}
	return append(env, "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1,clobberfree=1", "GOGC=off",
		"GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "ASAN_OPTIONS=detect_leaks=0", "GOTRACEBACK=single")
}()

type headBuf struct {
	b []byte
}

func (h *headBuf) Write(p []byte) (int, error) {
	if n := 16384 - len(h.b); n > 0 {
		h.b = append(h.b, p[:min(n, len(p))]...)
	}
	return len(p), nil
}

// child runs a worker process. A crash or a hang is a violation.
func child(prop string, idle time.Duration, args ...string) childResult {
	res := childResult{last: -1}
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = childEnv
	var stderr headBuf
	cmd.Stderr = &stderr
	pipe, err := cmd.StdoutPipe()
	if err == nil {
		err = cmd.Start()
	}
	if err != nil {
		res.bug = "cannot start a worker: " + err.Error()
		return res
	}
	var hung atomic.Bool
	timer := time.AfterFunc(idle, func() { hung.Store(true); cmd.Process.Kill() })
	sc := bufio.NewScanner(pipe)
	sc.Buffer(make([]byte, 1<<16), 1<<28)
	ended := false
	for sc.Scan() {
		timer.Reset(idle)
		line := sc.Text()
		if len(line) < 2 {
			continue
		}
		switch rest := line[2:]; line[:2] {
		case "S ":
			fmt.Sscan(rest, &res.last)
		case "V ":
			res.viol = new(Violation)
			json.Unmarshal([]byte(rest), res.viol)
		case "B ":
			res.bug = rest
		case "E ":
			ended = true
			res.stats = new(Stats)
			json.Unmarshal([]byte(rest), res.stats)
		}
	}
	werr := cmd.Wait()
	timer.Stop()
	if res.viol != nil || res.bug != "" {
		return res
	}
	if hung.Load() {
		res.viol = &Violation{Prop: prop, Msg: fmt.Sprintf("the call did not end within %v", idle), external: true}
		return res
	}
	if werr != nil || !ended {
		if res.last < 0 {
			res.bug = fmt.Sprintf("worker failed before its first run: %v: %s", werr, stderr.b)
			return res
		}
		if werr != nil && strings.Contains(werr.Error(), "signal: killed") {
			res.viol = &Violation{Prop: prop, Msg: "the process was killed, most likely because it used up all memory", external: true}
			return res
		}
		res.viol = &Violation{Prop: prop, Msg: crashText(string(stderr.b), werr)}
		res.viol.crash = true
		if strings.HasPrefix(res.viol.Msg, "data race") && !strings.Contains(string(stderr.b), "jscan-experimental-decoder") {
			res.bug, res.viol = "data race inside the simulator: "+res.viol.Msg, nil
		}
	}
	return res
}

func crashText(s string, err error) string {
	kind := "the process crashed"
	switch {
	case strings.Contains(s, "WARNING: DATA RACE"):
		kind = "data race"
	case strings.Contains(s, "AddressSanitizer"):
		kind = "memory outside of live objects was accessed"
	}
	var l []string
	for _, x := range strings.Split(s, "\n") {
		x = strings.TrimSpace(x)
		if x == "" || strings.HasPrefix(x, "=====") {
			continue
		}
		if i := strings.Index(x, " +0x"); i > 0 {
			x = x[:i]
		}
		l = append(l, x)
		if len(l) == 14 {
			break
		}
	}
	return fmt.Sprintf("%s (%v): %s", kind, err, strings.Join(l, " | "))
}

type tierCfg struct {
	runs  int
	batch int
	cap   time.Duration
}

// Number of simulated runs.
var tiers = map[string]map[string]tierCfg{
	"quick": {
		"C01": {320000, 250, 0}, "C02": {240000, 250, 0}, "C03": {80000, 100, 0}, "C04": {220000, 250, 0},
		"C05": {80000, 100, 0}, "C06": {170000, 200, 0}, "C07": {240000, 250, 0}, "C08": {600000, 250, 0},
		"C09": {400000, 250, 0}, "C10": {80000, 64, 0}, "C11": {500000, 250, 0}, "C12": {100000, 64, 0}, "C13": {260000, 250, 0},
		"C17": {600000, 250, 0},
	},
	"thorough": {},
}

func tierOf(tier, prop string) tierCfg {
	c := tiers["quick"][prop]
	c.cap = 100 * time.Second
	if tier == "thorough" {
		c.runs *= 12
		c.cap = 11 * time.Minute
	}
	return c
}

func check(prop, tier string, verifSeed uint64, outDir string, buildNote string, stmtsFile string, knownFile string) int {
	start := time.Now()
	if profiles[prop] == nil {
		fmt.Println("unknown property", prop)
		return 2
	}
	cfg := tierOf(tier, prop)
	os.Remove(filepath.Join(outDir, prop+".json"))
	const par = 8
	nb := (cfg.runs + cfg.batch - 1) / cfg.batch
	type found struct {
		from, idx uint64
		v         *Violation
	}
	var mu sync.Mutex
	var best *found
	var bugs []string
	agg := newAgg()
	var next atomic.Int64
	var wg sync.WaitGroup
	var capped atomic.Bool
	for k := 0; k < par; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				b := next.Add(1) - 1
				if b >= int64(nb) {
					return
				}
				if time.Since(start) > cfg.cap {
					capped.Store(true)
					return
				}
				mu.Lock()
				stop := len(bugs) > 0 || best != nil && best.from < uint64(b)*uint64(cfg.batch)
				mu.Unlock()
				if stop {
					return
				}
				from := uint64(b) * uint64(cfg.batch)
				args := []string{"worker", prop, fmt.Sprint(verifSeed), fmt.Sprint(from), fmt.Sprint(cfg.batch)}
				if b == 0 {
					args = append(args, "all")
				}
				r := child(prop, 150*time.Second, args...)
				mu.Lock()
				switch {
				case r.bug != "":
					bugs = append(bugs, r.bug)
				case r.viol != nil:
					if best == nil || uint64(r.last) < best.idx {
						best = &found{from, uint64(r.last), r.viol}
					}
				default:
					agg.add(r.stats)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	searchTime := time.Since(start)
	// One seed is one execution: the first batch again, in a new process.
	determinism := "not checked"
	if best == nil && len(bugs) == 0 && agg.first != nil {
		r := child(prop, 150*time.Second, "worker", prop, fmt.Sprint(verifSeed), "0", fmt.Sprint(cfg.batch), "all")
		if r.stats != nil {
			same := 0
			for i := range r.stats.All {
				if i < len(agg.first) && r.stats.All[i] == agg.first[i] {
					same++
				}
			}
			determinism = fmt.Sprintf("%d of %d runs repeated in a second process with the same statement trace", same, len(agg.first))
		}
	}
	known, knownViol := 0, ""
	if best == nil && len(bugs) == 0 {
		known, knownViol = probes(prop, knownFile)
	}
	nviol := 0
	if best != nil || knownViol != "" {
		nviol = 1
	}
	ev := agg.evidence(prop, tier, verifSeed, searchTime, time.Since(start), buildNote, stmtsFile, determinism, capped.Load(), nviol, known, cfg)
	os.MkdirAll(outDir, 0o755)
	if err := os.WriteFile(filepath.Join(outDir, prop+".json"), ev, 0o644); err != nil {
		fmt.Println("evidence:", err)
		return 2
	}
	if best != nil {
		return report(prop, verifSeed, best.from, best.idx, best.v, outDir)
	}
	if len(bugs) > 0 {
		fmt.Println("ERROR of the check itself:", bugs[0])
		return 2
	}
	if knownViol != "" {
		file := filepath.Join(outDir, "replays", prop+"-probe.json")
		os.MkdirAll(filepath.Dir(file), 0o755)
		js, _ := json.MarshalIndent(map[string]any{"property": prop, "probe": knownViol}, "", " ")
		os.WriteFile(file, append(js, '\n'), 0o644)
		fmt.Println(knownViol)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
		return 1
	}
	fmt.Printf("%s holds on %d simulated runs (%d distinct non-trivial executions, %d statements executed, %.0f s)\n",
		prop, agg.Runs, len(agg.hashes), agg.Steps, time.Since(start).Seconds())
	return 0
}

// ---- violations -----------------------------------------------------------------------

// try executes plans in a new process.
func try(prop string, plans []*Plan) *Violation {
	f, err := os.CreateTemp("", "plan")
	if err != nil {
		return nil
	}
	defer os.Remove(f.Name())
	js, _ := json.Marshal(&ReplayFile{Property: prop, Plans: plans})
	f.Write(js)
	f.Close()
	r := child(prop, 60*time.Second, "plans", f.Name())
	if r.bug != "" || r.viol == nil || r.last != int64(len(plans)-1) {
		return nil
	}
	return r.viol
}

func report(prop string, verifSeed, from, idx uint64, v *Violation, outDir string) int {
	seed := planSeed(verifSeed, idx)
	fmt.Printf("run %d (seed %d): %s\n", idx, seed, v.Msg)
	plans := []*Plan{planFor(prop, seed)}
	note := ""
	if w := try(prop, plans); w != nil {
		v = w
	} else {
		// It takes what earlier runs in the same process left behind.
		plans = nil
		for i := from; i <= idx; i++ {
			plans = append(plans, planFor(prop, planSeed(verifSeed, i)))
		}
		if w := try(prop, plans); w != nil {
			v = w
		} else {
			if v.external {
				// A stalled or overloaded machine, and not the code.
				fmt.Println("ERROR of the check itself: not reproduced:", v.Msg)
				return 2
			}
			note = " (not reproduced in a new process)"
		}
	}
	if note == "" {
		m := &minimiser{prop: prop, deadline: time.Now().Add(25 * time.Second)}
		plans, v = m.run(plans, v)
	}
	file := filepath.Join(outDir, "replays", fmt.Sprintf("%s-%d.json", prop, seed))
	os.MkdirAll(filepath.Dir(file), 0o755)
	js, _ := json.MarshalIndent(&ReplayFile{
		Property: prop, Violation: v.Msg, Seed: seed, VerifSeed: verifSeed, Index: idx, Build: buildMode(),
		How: "bash /verif/replay.sh " + file, Plans: plans,
	}, "", " ")
	os.WriteFile(file, append(js, '\n'), 0o644)
	fmt.Printf("minimised: %s%s\n", v.Msg, note)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
	return 1
}

// replay executes a replay file and reports whether it violates the property.
func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var f ReplayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		return 2
	}
	r := child(f.Property, 60*time.Second, "plans", file)
	if r.bug != "" {
		fmt.Println(r.bug)
		return 2
	}
	if r.viol == nil {
		fmt.Println("not reproduced: the property holds on this execution")
		return 0
	}
	fmt.Println(r.viol.Msg)
	if r.viol.Msg == f.Violation {
		fmt.Println("(exactly as recorded)")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, file)
	return 1
}

// ---- evidence -------------------------------------------------------------------------

type aggregate struct {
	Stats
	hashes map[uint64]bool
	stmts  map[int]bool
	first  []uint64
	sample []json.RawMessage
}

func newAgg() *aggregate {
	return &aggregate{Stats: Stats{Faults: map[string]uint64{}, DocFaults: map[string]int{}, Types: map[string]int{}, Outcomes: map[string]int{}},
		hashes: map[uint64]bool{}, stmts: map[int]bool{}}
}

func (a *aggregate) add(s *Stats) {
	a.Runs += s.Runs
	a.Steps += s.Steps
	a.Calls += s.Calls
	a.Switches += s.Switches
	a.Hot += s.Hot
	a.Warm += s.Warm
	a.Before += s.Before
	a.Reset += s.Reset
	a.Reads += s.Reads
	a.Passed += s.Passed
	for k, n := range s.Faults {
		a.Faults[k] += n
	}
	for k, n := range s.DocFaults {
		a.DocFaults[k] += n
	}
	for k, n := range s.Types {
		a.Types[k] += n
	}
	for k, n := range s.Outcomes {
		a.Outcomes[k] += n
	}
	for _, h := range s.Hashes {
		a.hashes[h] = true
	}
	for _, i := range s.Stmts {
		a.stmts[i] = true
	}
	if s.All != nil {
		a.first = s.All
	}
	if len(a.sample) < 2 && s.Sample != nil {
		a.sample = append(a.sample, s.Sample)
	}
}

func (a *aggregate) evidence(prop, tier string, seed uint64, search, wall time.Duration, build, stmtsFile, det string, capped bool, nviol, known int, cfg tierCfg) []byte {
	type loc struct {
		ID   int
		File string
	}
	var locs []loc
	if b, err := os.ReadFile(stmtsFile); err == nil {
		json.Unmarshal(b, &locs)
	}
	per := map[string][2]int{}
	for _, l := range locs {
		c := per[l.File]
		c[1]++
		if a.stmts[l.ID] {
			c[0]++
		}
		per[l.File] = c
	}
	cov := map[string]string{}
	for f, c := range per {
		cov[f] = fmt.Sprintf("%d of %d statements", c[0], c[1])
	}
	hours := search.Hours()
	faults := map[string]uint64{}
	for k, n := range a.Faults {
		if n > 0 {
			faults[k] = n
		}
	}
	for k, n := range a.DocFaults {
		if n > 0 {
			faults["document: "+k] = uint64(n)
		}
	}
	d := descriptions[prop]
	var samples []any
	for _, s := range a.sample {
		var buf bytes.Buffer
		if len(s) > 6000 {
			s, _ = json.Marshal(string(s[:6000]) + "…")
		}
		json.Compact(&buf, s)
		samples = append(samples, json.RawMessage(buf.Bytes()))
	}
	if samples == nil {
		samples = []any{}
	}
	var types []string
	for t := range a.Types {
		types = append(types, t)
	}
	sort.Strings(types)
	m := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall.Seconds(), "violations": nviol,
		"assumptions": []string{
			"statement granularity: tasks, collections and stack moves interleave at statements of the code under test, not inside runtime functions",
			"Go 1.21 runtime on amd64, GOMAXPROCS=1, asynchronous preemption off, collector under the simulator's control",
		},
		"coverage": map[string]any{
			"evaluations":         a.Runs,
			"distinct_nontrivial": len(a.hashes),
			"rule": "one evaluation is one simulated run, generated from its seed: " + d.rule +
				" Non-trivial: at least two calls, a damaged or mistyped document, or an injected fault. Distinct: the 64-bit hash over the sequence of all statements of the code under test and all task switches of the run.",
			"samples":                                samples,
			"runs_per_hour":                          int(float64(a.Runs) / hours),
			"seeds_per_hour":                         int(float64(a.Runs) / hours),
			"calls_simulated":                        a.Calls,
			"simulated_time":                         fmt.Sprintf("%d statements of the code under test; %d h of the simulated clock passed between calls, which the code read %d times", a.Steps, a.Passed/3600, a.Reads),
			"simulated_steps":                        a.Steps,
			"task_switches":                          a.Switches,
			"calls_made_only_to_lengthen_histories":  a.Warm,
			"calls_in_the_process_before_a_run":      a.Before,
			"package_variables_reset_between_runs":   a.Reset,
			"statements_that_may_touch_shared_state": a.Hot,
			"faults_injected":                        faults,
			"outcomes":                               a.Outcomes,
			"destination_types":                      types,
			"statements_reached":                     cov,
			"determinism":                            det,
			"oracle":                                 d.oracle,
			"stopped_by_time_limit":                  capped,
			"runs_planned":                           cfg.runs,
			"build":                                  build,
			"known_findings_still_there":             known,
			"components_running_real_code":           "jscandec, internal/atoi, internal/unescape, internal/jsonnum, the jscan tokenizer, the Go runtime (collector, stacks, maps)",
			"components_stubbed":                     "package sync inside the code under test (deterministic locks and pools); user unmarshalers are the simulator's",
		},
	}
	js, err := json.MarshalIndent(m, "", " ")
	if err != nil {
		panic(err)
	}
	return append(js, '\n')
}
