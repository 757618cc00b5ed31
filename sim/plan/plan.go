// Package plan holds what the driver and the worlds exchange.
package plan

import "time"

// Rand is a small deterministic generator.
type Rand struct{ s uint64 }

// NewRand seeds a generator.
func NewRand(seed uint64) *Rand { return &Rand{seed} }

// U64 draws 64 bits.
func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N draws from [0,n).
func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range draws from [a,b].
func (r *Rand) Range(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability p/100.
func (r *Rand) P(p int) bool { return r.N(100) < p }

// Pick draws one of the values.
func Pick[T any](r *Rand, v ...T) T { return v[r.N(len(v))] }

// Op is one step of a plan.
type Op struct {
	K string   `json:"k"`
	A []int64  `json:"a,omitempty"`
	S []string `json:"s,omitempty"`
}

// I is the i-th integer argument, or 0.
func (o Op) I(i int) int {
	if i < len(o.A) {
		return int(o.A[i])
	}
	return 0
}

// D is the i-th integer argument as microseconds.
func (o Op) D(i int) time.Duration { return time.Duration(o.I(i)) * time.Microsecond }

// Str is the i-th string argument.
func (o Op) Str(i int) string {
	if i < len(o.S) {
		return o.S[i]
	}
	return ""
}

// MkOp builds an operation.
func MkOp(k string, a ...int) Op {
	o := Op{K: k}
	for _, x := range a {
		o.A = append(o.A, int64(x))
	}
	return o
}

// Sched configures the scheduler of a run.
type Sched struct {
	Seed      uint64   `json:"seed"`
	Mode      int      `json:"mode"`
	Preempt   uint32   `json:"preempt"`
	Stall     uint32   `json:"stall"`
	StallMax  int64    `json:"stall_max"`
	MaxSteps  uint64   `json:"max_steps"`
	Decisions []uint64 `json:"decisions,omitempty"`
}

// Plan is everything that decides a run.
type Plan struct {
	Prop     string           `json:"prop"`
	Scenario string           `json:"scenario"`
	Seed     uint64           `json:"seed"`
	NetSeed  uint64           `json:"net_seed"`
	Cfg      map[string]int64 `json:"cfg"`
	Ops      []Op             `json:"ops"`
	Sched    Sched            `json:"sched"`
}

// Violation of a property.
type Violation struct {
	Rule   string `json:"rule"`
	Detail string `json:"detail"`
}

// Result of a run.
type Result struct {
	Plan       *Plan          `json:"plan"`
	Violations []Violation    `json:"violations,omitempty"`
	Faults     map[string]int `json:"faults,omitempty"`
	Probes     map[string]int `json:"probes,omitempty"`
	Events     uint64         `json:"events"`
	Steps      uint64         `json:"steps"`
	SchedHash  string         `json:"sched_hash"`
	HistHash   string         `json:"hist_hash"`
	Switches   uint64         `json:"switches"`
	Stalls     uint64         `json:"stalls"`
	SimTime    int64          `json:"sim_ns"`
	Decisions  []uint64       `json:"decisions,omitempty"`
	Overflow   bool           `json:"overflow,omitempty"`
	History    []string       `json:"history,omitempty"`
	Sites      []int          `json:"sites,omitempty"`
	Nontrivial bool           `json:"nontrivial"`
}

// Request is what the driver writes on a world's standard input.
type Request struct {
	Prop     string `json:"prop"`
	Seed     uint64 `json:"seed"`
	Tier     string `json:"tier"`
	Scenario string `json:"scenario,omitempty"`
	Plan     *Plan  `json:"plan,omitempty"`
	Trace    bool   `json:"trace"`
	NSites   int    `json:"nsites"`
	PlanOnly bool   `json:"plan_only,omitempty"`
	Record   string `json:"record,omitempty"` // file receiving the schedule decisions as they are made

	Args map[string]string `json:"args,omitempty"`
}
