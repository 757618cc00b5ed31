package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"time"

	"verifsim/plan"
)

// Replay is the content of a replay file.
type Replay struct {
	Property string     `json:"property"`
	Rule     string     `json:"rule"`
	Detail   string     `json:"detail"`
	World    string     `json:"world"`
	Race     bool       `json:"race,omitempty"`
	Seed     uint64     `json:"found_with_seed"`
	Plan     *plan.Plan `json:"plan"`
	Sched    string     `json:"schedule_hash"`
	Hist     string     `json:"history_hash"`
	Ops0     int        `json:"operations_before_minimisation"`
	Dec0     int        `json:"schedule_decisions_before_minimisation"`
	History  []string   `json:"history"`
	Stderr   string     `json:"stderr,omitempty"`
}

func clonePlan(p *plan.Plan) *plan.Plan {
	j, _ := json.Marshal(p)
	var q plan.Plan
	json.Unmarshal(j, &q)
	return &q
}

// attempt runs a plan; ok tells whether it shows the rule. When it does, the
// schedule's decisions are returned.
func (b *Built) attempt(p *plan.Plan, rule string, slot int, wantRecord bool) (ok bool, o *Outcome, dec []uint64) {
	req := &plan.Request{Prop: p.Prop, Plan: p, Args: b.args()}
	rec := filepath.Join(b.Dir, fmt.Sprintf("rec-%d", slot))
	if wantRecord {
		req.Record = rec
	}
	o = b.exec(req, slot)
	if o.Err != nil {
		return false, o, nil
	}
	shown := false
	for _, v := range o.Viol {
		shown = shown || v.Rule == rule && b.known.match(v) < 0
	}
	if !shown {
		return false, o, nil
	}
	if wantRecord {
		if p.Sched.Mode == 2 {
			dec = p.Sched.Decisions
		} else {
			dec = readRecord(rec)
		}
	}
	return true, o, dec
}

// firstOf tries candidates in parallel and returns the smallest index that works.
func (b *Built) firstOf(n int, deadline time.Time, try func(i, slot int) bool) int {
	var best atomic.Int64
	best.Store(int64(n))
	var next atomic.Int64
	var wg sync.WaitGroup
	for s := 0; s < 8; s++ {
		wg.Add(1)
		go func(slot int) {
			defer wg.Done()
			for {
				i := next.Add(1) - 1
				if i >= int64(n) || i > best.Load() || time.Now().After(deadline) {
					return
				}
				if try(int(i), slot) {
					for {
						cur := best.Load()
						if i >= cur || best.CompareAndSwap(cur, i) {
							break
						}
					}
				}
			}
		}(s)
	}
	wg.Wait()
	if int(best.Load()) == n {
		return -1
	}
	return int(best.Load())
}

func minimise(p *Prop, b *Built, seed uint64, rule, detail, tier string, o0 *Outcome) string {
	limit := time.Now().Add(60 * time.Second)
	pl, err := b.planOf(p.ID, "", tier, seed, b.args())
	if err != nil {
		fail("cannot regenerate the plan of seed %d: %v", seed, err)
	}
	rp := &Replay{Property: p.ID, Rule: rule, Detail: detail, World: p.World, Race: b.Race, Seed: seed, Ops0: len(pl.Ops)}
	best := clonePlan(pl)
	var dec []uint64
	ok := false
	for i := 0; i < 4 && !ok; i++ {
		ok, _, dec = b.attempt(best, rule, 0, true)
	}
	rp.Dec0 = len(dec)
	if !ok {
		fmt.Fprintf(os.Stderr, "simctl: warning: the plan of seed %d does not show %s; the replay is not minimised\n", seed, rule)
		limit = time.Now()
	}

	// 1. Fewer operations and faults: ddmin over the plan, trying a few schedules for each candidate.
	type cand struct{ from, to int }
	for gran := 2; len(best.Ops) > 0 && time.Now().Before(limit); {
		n := len(best.Ops)
		if gran > n {
			gran = n
		}
		var cs []cand
		for i := 0; i < gran; i++ {
			cs = append(cs, cand{n * i / gran, n * (i + 1) / gran})
		}
		const scheds = 6
		plans := make([]*plan.Plan, len(cs)*scheds)
		k := b.firstOf(len(plans), limit, func(i, slot int) bool {
			c := cs[i/scheds]
			q := clonePlan(best)
			q.Ops = append(append([]plan.Op{}, best.Ops[:c.from]...), best.Ops[c.to:]...)
			if i%scheds > 0 {
				q.Sched.Seed = mix(best.Sched.Seed, uint64(i)) | 1
			}
			plans[i] = q
			ok, _, _ := b.attempt(q, rule, slot, false)
			return ok
		})
		if k >= 0 {
			best = plans[k]
			if gran > 2 {
				gran--
			}
			continue
		}
		if gran >= n {
			break
		}
		gran *= 2
	}

	// 2. A calmer schedule: fewest scheduling decisions.
	ok, _, dec = b.attempt(best, rule, 0, true)
	if ok && best.Sched.Mode != 2 {
		q := clonePlan(best)
		q.Sched.Mode = 2
		q.Sched.Decisions = dec
		if ok2, _, _ := b.attempt(q, rule, 0, false); ok2 {
			best = q
			gran := 2
			for time.Now().Before(limit) && len(best.Sched.Decisions) > 0 {
				d := best.Sched.Decisions
				n := len(d)
				if gran > n {
					gran = n
				}
				plans := make([]*plan.Plan, gran)
				k := b.firstOf(gran, limit, func(i, slot int) bool {
					q := clonePlan(best)
					q.Sched.Decisions = append(append([]uint64{}, d[:n*i/gran]...), d[n*(i+1)/gran:]...)
					plans[i] = q
					ok, _, _ := b.attempt(q, rule, slot, false)
					return ok
				})
				if k >= 0 {
					best = plans[k]
					if gran > 2 {
						gran--
					}
					continue
				}
				if gran >= n {
					break
				}
				gran *= 2
			}
		}
	}

	// 3. The final trace, twice.
	trace := func(q *plan.Plan) *Outcome {
		var last *Outcome
		for i := 0; i < 2; i++ {
			o := b.exec(&plan.Request{Prop: p.ID, Plan: q, Trace: true, Args: b.args()}, 0)
			if !o.Has(rule) || last != nil && last.Raw != o.Raw {
				return nil
			}
			last = o
		}
		return last
	}
	last := trace(best)
	if last == nil {
		fmt.Fprintf(os.Stderr, "simctl: warning: the minimised trace of seed %d is not exactly repeatable; the whole one is kept\n", seed)
		best = pl
		if last = trace(best); last == nil {
			last = o0
		}
	}
	for _, v := range last.Viol {
		if v.Rule == rule {
			rp.Detail = v.Detail
		}
	}
	rp.Plan = best
	if last.Res != nil {
		rp.Sched, rp.Hist, rp.History = last.Res.SchedHash, last.Res.HistHash, last.Res.History
	}
	rp.Stderr = tail(last.Stderr, 6000)
	dir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", p.ID, rule, seed))
	j, _ := json.MarshalIndent(rp, "", " ")
	if err := os.WriteFile(path, append(j, '\n'), 0o644); err != nil {
		fail("%v", err)
	}
	fmt.Printf("minimised: %d of %d operations, %d of %d scheduling decisions\n", len(best.Ops), rp.Ops0, len(best.Sched.Decisions), rp.Dec0)
	return path
}

func replay(path string) int {
	j, err := os.ReadFile(path)
	if err != nil {
		fail("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(j, &rp); err != nil {
		fail("%v", err)
	}
	p := propByID(rp.Property)
	b, err := getBuilt(p, rp.Race)
	var ge *genError
	if errors.As(err, &ge) && rp.Plan == nil && ge.Rule == rp.Rule {
		fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", ge.Rule, ge.Detail, p.ID, path)
		return 1
	}
	if err == nil && rp.Plan == nil {
		fmt.Println("the recorded violation does not occur on this tree")
		return 0
	}
	if err != nil {
		fail("%v", err)
	}
	if p.Prepare != nil {
		if err := p.Prepare(b); err != nil {
			fail("%v", err)
		}
	}
	o := b.exec(&plan.Request{Prop: p.ID, Plan: rp.Plan, Trace: true, Args: b.args()}, 0)
	if o.Err != nil {
		fail("%v", o.Err)
	}
	if o.Res != nil {
		for _, h := range o.Res.History {
			fmt.Println(h)
		}
		fmt.Printf("schedule %s (recorded %s), history %s (recorded %s)\n", o.Res.SchedHash, rp.Sched, o.Res.HistHash, rp.Hist)
	}
	if o.Has(rp.Rule) {
		for _, v := range o.Viol {
			fmt.Printf("%s: %s\n", v.Rule, v.Detail)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	fmt.Println("the recorded violation does not occur on this tree")
	return 0
}
