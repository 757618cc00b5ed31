// Command simctl builds simulation worlds from /repo's working tree, searches
// seeds for property violations, minimises and replays them.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"verifsim/plan"
)

func fail(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "simctl: "+format+"\n", a...)
	cleanup()
	os.Exit(2)
}

var scratch string

func cleanup() {
	if scratch != "" && os.Getenv("VERIF_KEEP") == "" {
		os.RemoveAll(scratch)
	}
}

func verifDir() string { return filepath.Dir(simDir()) }

func envInt(name string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}

func main() {
	if len(os.Args) < 2 {
		fail("usage: simctl check ID | replay FILE | build WORLD DIR | one ID SEED [SCENARIO]")
	}
	var err error
	scratch, err = os.MkdirTemp("", "verifsim-")
	if err != nil {
		fail("%v", err)
	}
	code := 0
	switch os.Args[1] {
	case "check":
		code = check(os.Args[2])
	case "replay":
		code = replay(os.Args[2])
	case "one":
		code = one(os.Args[2:])
	case "build":
		if err := os.MkdirAll(os.Args[3], 0o755); err != nil {
			fail("%v", err)
		}
		b, err := buildWorld(os.Args[3], os.Args[2], os.Args[2] == "core", len(os.Args) > 4)
		if err != nil {
			fail("%v", err)
		}
		saveBuilt(b)
	default:
		fail("unknown command %s", os.Args[1])
	}
	cleanup()
	os.Exit(code)
}

func saveBuilt(b *Built) {
	j, _ := json.Marshal(b)
	os.WriteFile(b.Bin+".json", j, 0o644)
}

// getBuilt builds the world, or takes the one VERIF_WORLD_DIR points to (development only).
func getBuilt(p *Prop, race bool) (*Built, error) {
	if d := os.Getenv("VERIF_WORLD_DIR"); d != "" {
		var b Built
		name := p.World
		j, err := os.ReadFile(filepath.Join(d, name+".json"))
		if err != nil {
			return nil, err
		}
		return &b, json.Unmarshal(j, &b)
	}
	dir := scratch
	if race {
		dir = filepath.Join(scratch, "race")
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return nil, err
		}
	}
	return buildWorld(dir, p.World, p.Gen, race)
}

func mix(a, b uint64) uint64 {
	r := plan.NewRand(a ^ b*0x9e3779b97f4a7c15)
	r.U64()
	return r.U64() >> 1
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}

type stats struct {
	runs, nontrivial int
	faults, probes   map[string]int
	scen             map[string]int
	sched, hist      map[string]struct{}
	simNs            int64
	events, switches uint64
	stalls           uint64
	sites            map[int]bool
	samples          []any
	maxSteps         uint64
	detRuns          int
	detFail, unrepro int
	known            map[int]int
	crashes          int
}

func check(id string) int {
	p := propByID(id)
	if p == nil {
		fail("unknown property %s", id)
	}
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	master := envInt("VERIF_SEED", 1)
	budget := time.Duration(p.QuickS) * time.Second
	if tier == "thorough" {
		budget = time.Duration(p.ThoroughS) * time.Second
	}
	if v := envInt("VERIF_BUDGET_S", 0); v > 0 {
		budget = time.Duration(v) * time.Second
	}
	builds := []*Built{}
	b, err := getBuilt(p, false)
	var ge *genError
	if errors.As(err, &ge) && slices.Contains([]string{"C02", "C04", "C06", "C07", "C16"}, id) {
		return noProgram(p, tier, master, ge, time.Since(t0).Seconds())
	}
	if err != nil {
		fail("build failed: %v", err)
	}
	builds = append(builds, b)
	if p.Race && os.Getenv("VERIF_WORLD_DIR") == "" {
		rb, err := getBuilt(p, true)
		if err != nil {
			fail("race build failed: %v", err)
		}
		builds = append(builds, rb)
	}
	buildS := time.Since(t0).Seconds()
	if p.Prepare != nil {
		for _, bb := range builds {
			if err := p.Prepare(bb); err != nil {
				fail("prepare: %v", err)
			}
		}
	}
	known := loadKnown(id)
	for _, bb := range builds {
		bb.known = known
	}
	st := &stats{faults: map[string]int{}, probes: map[string]int{}, scen: map[string]int{}, sched: map[string]struct{}{}, hist: map[string]struct{}{}, sites: map[int]bool{}, known: map[int]int{}}
	var mu sync.Mutex
	var next atomic.Int64
	var stop atomic.Bool
	type found struct {
		b    *Built
		seed uint64
		o    *Outcome
		rule string
		det  string
		idx  int64
	}
	var hit *found
	var harness error
	tSearch := time.Now()
	deadline := tSearch.Add(budget)
	workers := int(envInt("VERIF_WORKERS", 8))
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func(slot int) {
			defer wg.Done()
			for !stop.Load() && time.Now().Before(deadline) {
				i := next.Add(1) - 1
				bb := builds[0]
				if n := int64(p.raceEvery()); len(builds) > 1 && i%n == n-1 {
					bb = builds[1]
				}
				seed := mix(uint64(master)*1000003+hashStr(id), uint64(i))
				req := &plan.Request{Prop: id, Seed: seed, Tier: tier, Args: bb.args()}
				if i%16 == 0 {
					req.NSites = len(bb.Sites)
				}
				o := bb.exec(req, slot)
				// A violation counts once its seed has shown it again.
				if v := known.unknown(o.Viol); v != nil {
					again := false
					for k := 0; k < 4 && !again; k++ {
						again = bb.exec(req, slot).Has(v.Rule)
					}
					if !again {
						fmt.Fprintf(os.Stderr, "simctl: warning: seed %d showed %s (%s) once only; not counted\n", seed, v.Rule, v.Detail)
						mu.Lock()
						st.unrepro++
						mu.Unlock()
						o.Viol = nil
					}
				}
				if o.Err == nil && i%40 == 0 && o.Res != nil {
					o2 := bb.exec(req, slot)
					mu.Lock()
					st.detRuns++
					if o2.Raw != o.Raw {
						st.detFail++
						fmt.Fprintf(os.Stderr, "simctl: warning: seed %d is not repeatable:\n%.1500s\n%.1500s\n", seed, o.Raw, o2.Raw)
					}
					mu.Unlock()
				}
				mu.Lock()
				if o.Err != nil {
					if harness == nil {
						harness = fmt.Errorf("seed %d: %w", seed, o.Err)
					}
					stop.Store(true)
					mu.Unlock()
					return
				}
				st.runs++
				if r := o.Res; r != nil {
					st.add(r)
					if r.Steps > st.maxSteps {
						st.maxSteps = r.Steps
						if os.Getenv("VERIF_STEPS") != "" {
							fmt.Fprintf(os.Stderr, "steps %d seed %d scenario %s\n", r.Steps, seed, r.Plan.Scenario)
						}
					}
					if len(st.samples) < 3 && r.Nontrivial && i > 2 {
						st.samples = append(st.samples, map[string]any{"seed": seed, "scenario": r.Plan.Scenario, "scheduling_decisions": r.Events, "steps": r.Steps, "simulated_ns": r.SimTime, "faults": r.Faults, "schedule_hash": r.SchedHash})
					}
				} else {
					st.crashes++
				}
				for _, v := range o.Viol {
					if k := known.match(v); k >= 0 {
						st.known[k]++
						continue
					}
					// the violation with the smallest index wins, to be independent of timing as far as possible
					if hit == nil || i < hit.idx {
						hit = &found{bb, seed, o, v.Rule, v.Detail, i}
					}
					stop.Store(true)
				}
				mu.Unlock()
			}
		}(k)
	}
	wg.Wait()
	searchS := time.Since(tSearch).Seconds()
	if harness != nil && hit == nil {
		fail("%v", harness)
	}
	violations := 0
	code := 0
	var replayPath string
	if hit != nil {
		violations = 1
		code = 1
		replayPath = minimise(p, hit.b, hit.seed, hit.rule, hit.det, tier, hit.o)
	}
	for k, f := range known.list {
		fmt.Printf("KNOWN-FINDING: property=%s %s (met in %d of %d runs)\n", id, f.What, st.known[k], st.runs)
	}
	writeEvidence(p, tier, master, st, builds[0], buildS, searchS, time.Since(t0).Seconds(), violations, hit != nil, replayPath)
	fmt.Printf("%s: %d runs, %d non-trivial, %d distinct schedules, %.0f runs/h, %.0f s simulated, %d repeated for determinism\n",
		id, st.runs, st.nontrivial, len(st.sched), float64(st.runs)/searchS*3600, float64(st.simNs)/1e9, st.detRuns)
	if code == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replayPath)
		fmt.Printf("  %s: %s\n", hit.rule, hit.det)
	}
	return code
}

// noProgram reports that the generator made no program out of a specification:
// none of its messages can be exchanged.
func noProgram(p *Prop, tier string, master int64, ge *genError, wall float64) int {
	path := filepath.Join(verifDir(), "replays", fmt.Sprintf("%s-%s.json", p.ID, ge.Rule))
	os.MkdirAll(filepath.Dir(path), 0o755)
	j, _ := json.MarshalIndent(&Replay{Property: p.ID, Rule: ge.Rule, Detail: ge.Detail}, "", " ")
	if err := os.WriteFile(path, append(j, '\n'), 0o644); err != nil {
		fail("%v", err)
	}
	st := &stats{faults: map[string]int{}, probes: map[string]int{}, scen: map[string]int{}, sched: map[string]struct{}{}, hist: map[string]struct{}{}, sites: map[int]bool{}}
	writeEvidence(p, tier, master, st, &Built{}, wall, 1, wall, 1, true, path)
	fmt.Printf("VIOLATION property=%s replay=%s\n  %s: %s\n", p.ID, path, ge.Rule, ge.Detail)
	return 1
}

func (st *stats) add(r *plan.Result) {
	st.scen[r.Plan.Scenario]++
	if r.Nontrivial {
		st.nontrivial++
		st.sched[r.SchedHash+r.HistHash] = struct{}{}
	}
	st.hist[r.HistHash] = struct{}{}
	for k, n := range r.Faults {
		st.faults[k] += n
	}
	for k, n := range r.Probes {
		st.probes[k] += n
	}
	st.simNs += r.SimTime
	st.events += r.Events
	st.switches += r.Switches
	st.stalls += r.Stalls
	for _, s := range r.Sites {
		st.sites[s] = true
	}
}

func writeEvidence(p *Prop, tier string, seed int64, st *stats, b *Built, buildS, searchS, wall float64, violations int, hit bool, replayPath string) {
	var files = map[string][2]int{}
	for i, s := range b.Sites {
		c := files[s.File]
		c[1]++
		if st.sites[i] {
			c[0]++
		}
		files[s.File] = c
	}
	cov := map[string]any{}
	for f, c := range files {
		if c[0] > 0 {
			cov[f] = fmt.Sprintf("%d of %d statements reached", c[0], c[1])
		}
	}
	faults := st.faults
	if st.stalls > 0 {
		faults["clock jump / all threads stalled"] = int(st.stalls)
	}
	if len(st.samples) == 0 {
		st.samples = []any{map[string]any{"note": "no non-trivial run completed"}}
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": violations,
		"coverage": map[string]any{
			"evaluations":                        st.runs,
			"distinct_nontrivial":                len(st.sched),
			"rule":                               p.Rule,
			"samples":                            st.samples,
			"most_steps_in_a_run":                st.maxSteps,
			"nontrivial_runs":                    st.nontrivial,
			"runs_per_hour":                      int(float64(st.runs) / searchS * 3600),
			"seeds_per_hour":                     int(float64(st.runs) / searchS * 3600),
			"simulated_seconds":                  float64(st.simNs) / 1e9,
			"faults_injected":                    faults,
			"situations_reached":                 st.probes,
			"distinct_histories":                 len(st.hist),
			"scheduling_decisions":               st.events,
			"context_switches":                   st.switches,
			"runs_by_scenario":                   st.scen,
			"runs_ended_by_a_crash":              st.crashes,
			"runs_repeated_to_check_determinism": st.detRuns,
			"of_which_differed":                  st.detFail,
			"violations_seen_only_once":          st.unrepro,
			"statement_coverage_of_code_under_test_in_sampled_runs": cov,
			"components_real":    p.Real,
			"components_stubbed": p.Stub,
			"build_s":            buildS,
			"search_s":           searchS,
			"replay":             replayPath,
		},
		"assumptions": []string{
			"sequentially consistent execution: one simulated processor, preemption only at yield points (every statement of the code under test, channel, select, mutex and goroutine operations)",
			"virtual time advances only when nothing is runnable, and by injected stalls",
		},
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, p.ID+".json"), append(j, '\n'), 0o644); err != nil {
		fail("%v", err)
	}
}

// one runs a single seed with its history (development).
func one(a []string) int {
	p := propByID(a[0])
	seed, _ := strconv.ParseUint(a[1], 10, 64)
	b, err := getBuilt(p, false)
	if err != nil {
		fail("%v", err)
	}
	if p.Prepare != nil {
		if err := p.Prepare(b); err != nil {
			fail("%v", err)
		}
	}
	sc := ""
	if len(a) > 2 {
		sc = a[2]
	}
	o := b.exec(&plan.Request{Prop: p.ID, Seed: seed, Scenario: sc, Trace: true, Args: b.args()}, 0)
	if o.Res != nil {
		for _, h := range o.Res.History {
			fmt.Println(h)
		}
		o.Res.History, o.Res.Decisions = nil, nil
		j, _ := json.MarshalIndent(o.Res, "", " ")
		fmt.Println(string(j))
	}
	fmt.Println(o.Viol, o.Err)
	fmt.Println(tail(o.Stderr, 5000))
	return 0
}

func sortedKeys(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
