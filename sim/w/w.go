// Package w is the world framework: what every simulated run shares. A run is
// one process; everything in it happens on one simulated processor, so plain
// Go code between two yield points is atomic and needs no locks.
package w

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verifsim/plan"
)

// The types shared with the driver.
type (
	Rand      = plan.Rand
	Op        = plan.Op
	Sched     = plan.Sched
	Plan      = plan.Plan
	Violation = plan.Violation
	Result    = plan.Result
	Request   = plan.Request
)

// NewRand seeds a generator.
func NewRand(seed uint64) *Rand { return plan.NewRand(seed) }

// Pick draws one of the values.
func Pick[T any](r *Rand, v ...T) T { return v[r.N(len(v))] }

// MkOp builds an operation.
func MkOp(k string, a ...int) Op { return plan.MkOp(k, a...) }

// Scenario is a family of runs deciding some properties.
type Scenario struct {
	Name   string
	Props  []string
	Weight int
	Gen    func(r *Rand, p *Plan)
	Run    func(w *World)
}

var scenarios []*Scenario

// Register adds a scenario.
func Register(s *Scenario) {
	if s.Weight == 0 {
		s.Weight = 1
	}
	scenarios = append(scenarios, s)
}

// World is a run in progress.
type World struct {
	Plan    *Plan
	R       *Rand
	Args    map[string]string
	start   time.Time
	hist    []string
	hash    uint64
	trace   bool
	viol    []Violation
	faults  map[string]int
	probes  map[string]int
	pending int
	names   map[string]int
	Trivial bool
}

// Cur is the world of the run.
var Cur *World

// C reads a configuration value.
func (w *World) C(k string) int { return int(w.Plan.Cfg[k]) }

// Now is the simulated time since the start of the run.
func (w *World) Now() time.Duration { return time.Since(w.start) }

// Rec appends to the history.
func (w *World) Rec(format string, args ...any) {
	s := fmt.Sprintf("%012d g%d ", w.Now().Microseconds(), runtime.SimGoID()) + fmt.Sprintf(format, args...)
	for i := 0; i < len(s); i++ {
		w.hash = (w.hash ^ uint64(s[i])) * 0x100000001b3
	}
	if w.trace {
		w.hist = append(w.hist, s)
	}
}

// Violate reports a violation; the first of each rule is kept.
func (w *World) Violate(rule, format string, args ...any) {
	for _, v := range w.viol {
		if v.Rule == rule {
			return
		}
	}
	v := Violation{rule, fmt.Sprintf(format, args...)}
	w.Rec("VIOLATION %s: %s", v.Rule, v.Detail)
	w.viol = append(w.viol, v)
}

// For reports a violation of any of the given properties (comma separated) if
// the run is about one of them.
func (w *World) For(props, rule, format string, args ...any) {
	if w.Is(props) {
		w.Violate(rule, format, args...)
	}
}

// Is tells whether the run is about one of the given properties.
func (w *World) Is(props string) bool {
	for _, p := range strings.FieldsFunc(props, func(c rune) bool { return c == ',' || c == ' ' }) {
		if p == w.Plan.Prop {
			return true
		}
	}
	return false
}

// Failed tells whether a violation has been found.
func (w *World) Failed() bool { return len(w.viol) > 0 }

// Fault counts an injected fault that took effect.
func (w *World) Fault(kind string) { w.faults[kind]++ }

// Probe counts a situation of interest that was reached.
func (w *World) Probe(name string) { w.probes[name]++ }

// Go starts a tracked activity.
func (w *World) Go(name string, fn func()) {
	w.pending++
	w.names[name]++
	go func() {
		fn()
		w.pending--
		w.names[name]--
	}()
}

// Pending lists unfinished activities.
func (w *World) Pending() string {
	var l []string
	for n, c := range w.names {
		if c > 0 {
			l = append(l, fmt.Sprintf("%s(%d)", n, c))
		}
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// Join waits until every activity has ended, at most d of simulated time.
func (w *World) Join(d time.Duration) bool {
	return w.Until(d, func() bool { return w.pending == 0 })
}

// Until waits for a condition, at most d of simulated time; it polls with
// growing intervals and always once more at the end.
func (w *World) Until(d time.Duration, cond func() bool) bool {
	deadline := time.Now().Add(d)
	step := 10 * time.Microsecond
	for {
		if cond() {
			return true
		}
		left := time.Until(deadline)
		if left <= 0 {
			return false
		}
		if step > left {
			step = left
		}
		time.Sleep(step)
		if step < 20*time.Millisecond {
			step += step / 2
		}
	}
}

// Settle lets everything that can happen within d happen.
func (w *World) Settle(d time.Duration) { time.Sleep(d) }

func pickScenario(r *Rand, prop, name string) *Scenario {
	var l []*Scenario
	total := 0
	for _, s := range scenarios {
		if name != "" {
			if s.Name == name {
				return s
			}
			continue
		}
		for _, p := range s.Props {
			if p == prop {
				l = append(l, s)
				total += s.Weight
			}
		}
	}
	if total == 0 {
		fmt.Fprintf(os.Stderr, "no scenario for %s %s\n", prop, name)
		os.Exit(3)
	}
	k := r.N(total)
	for _, s := range l {
		if k -= s.Weight; k < 0 {
			return s
		}
	}
	return nil
}

// StepBudget is the number of scheduling points after which a run counts as
// one that makes no progress; worlds of much computation have a larger one.
var StepBudget uint64 = 3_000_000

// GenPlan derives a whole plan from a seed.
func GenPlan(prop, scenario string, seed uint64) *Plan {
	r := NewRand(seed)
	s := pickScenario(r, prop, scenario)
	p := &Plan{Prop: prop, Scenario: s.Name, Seed: seed, NetSeed: r.U64(), Cfg: map[string]int64{}}
	p.Sched = Sched{Seed: r.U64() | 1, MaxSteps: StepBudget}
	switch r.N(10) {
	case 0:
		p.Sched.Preempt = 0
	case 1, 2:
		p.Sched.Preempt = 65536 / 200
	case 3, 4:
		p.Sched.Preempt = 65536 / 30
	case 5, 6:
		p.Sched.Preempt = 65536 / 6
	case 7:
		p.Sched.Preempt = 65536 / 2
	case 8:
		p.Sched.Mode, p.Sched.Preempt = 1, 65536/400
	default:
		p.Sched.Mode, p.Sched.Preempt = 1, 65536/60
	}
	if r.P(30) {
		p.Sched.Stall = uint32(Pick(r, 65536/1000, 65536/100, 65536/20))
		p.Sched.StallMax = int64(Pick(r, time.Millisecond, 50*time.Millisecond, 2*time.Second))
	}
	s.Gen(r, p)
	return p
}

// warm gives the plan of a request. It does the same work whether the plan is
// given or derived from a seed: the caches of the standard library (which take
// locks, hence scheduling decisions, when they grow) are then the same, and a
// plan repeats what its seed did.
func warm(req *Request) *Plan {
	p := req.Plan
	if p == nil {
		p = GenPlan(req.Prop, req.Scenario, req.Seed)
	} else {
		GenPlan(p.Prop, req.Scenario, p.Seed)
	}
	b, err := json.Marshal(&Request{Plan: p})
	var q Request
	if err == nil {
		err = json.Unmarshal(b, &q)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "bad plan:", err)
		os.Exit(3)
	}
	return q.Plan
}

// Main runs one request read from standard input.
func Main() {
	var req Request
	if err := json.NewDecoder(os.Stdin).Decode(&req); err != nil {
		fmt.Fprintln(os.Stderr, "bad request:", err)
		os.Exit(3)
	}
	p := warm(&req)
	var sc *Scenario
	for _, s := range scenarios {
		if s.Name == p.Scenario {
			sc = s
		}
	}
	if sc == nil {
		fmt.Fprintln(os.Stderr, "unknown scenario", p.Scenario)
		os.Exit(3)
	}
	w := &World{Plan: p, R: NewRand(p.NetSeed), trace: req.Trace, faults: map[string]int{}, probes: map[string]int{}, names: map[string]int{}, hash: 14695981039346656037, Args: req.Args}
	Cur = w
	if req.PlanOnly {
		b, _ := json.Marshal(p)
		os.Stdout.Write(append(b, '\n'))
		return
	}
	record := make([]uint64, 1<<15)
	if req.Record != "" {
		record = mapRecord(req.Record)
	}
	hits := make([]uint32, req.NSites)
	opt := &runtime.SimOptions{Seed: p.Sched.Seed, Mode: p.Sched.Mode, Preempt: p.Sched.Preempt, Stall: p.Sched.Stall, StallMax: p.Sched.StallMax,
		MaxSteps: p.Sched.MaxSteps, Decisions: p.Sched.Decisions, Record: record, SiteHits: hits, Debug: req.Args["debug"] != ""}
	current = w
	runtime.SimStart(opt)
	w.start = time.Now()
	sc.Run(w)
	st := runtime.SimReadStats()
	runtime.SimStop()
	w.Emit(req.Trace, st, record, hits)
	os.Exit(0)
}

var current *World

// mapRecord maps the decision record to a file, so that it survives a crash.
func mapRecord(path string) []uint64 {
	const n = 1 << 17
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	if err == nil {
		err = f.Truncate(n * 8)
	}
	var m []byte
	if err == nil {
		m, err = syscall.Mmap(int(f.Fd()), 0, n*8, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "record:", err)
		os.Exit(3)
	}
	return unsafe.Slice((*uint64)(unsafe.Pointer(&m[0])), n)
}

// Emit writes the result.
func (w *World) Emit(trace bool, st runtime.SimStats, record []uint64, hits []uint32) {
	res := Result{Plan: w.Plan, Violations: w.viol, Faults: w.faults, Probes: w.probes, Events: st.Events, Steps: st.Steps,
		SchedHash: fmt.Sprintf("%016x", st.Hash), HistHash: fmt.Sprintf("%016x", w.hash), Switches: st.Switches, Stalls: st.Stalls,
		SimTime: st.Elapsed, Overflow: st.Overflow, Nontrivial: !w.Trivial}
	if trace || len(w.viol) > 0 {
		res.History = w.hist
		if w.Plan.Sched.Mode == 2 {
			res.Decisions = w.Plan.Sched.Decisions
		} else {
			res.Decisions = record[:st.Recorded]
		}
	}
	if !trace && len(w.viol) == 0 {
		// Enough for statistics; the seed tells the rest.
		res.Plan = &Plan{Prop: w.Plan.Prop, Scenario: w.Plan.Scenario, Seed: w.Plan.Seed}
	}
	for i, h := range hits {
		if h > 0 {
			res.Sites = append(res.Sites, i)
		}
	}
	b, _ := json.Marshal(res)
	os.Stdout.Write(append(b, '\n'))
}

// Start is when the run started.
func (w *World) Start() time.Time { return w.start }
