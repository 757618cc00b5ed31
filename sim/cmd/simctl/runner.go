package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"verifsim/plan"
)

// Outcome of one child process.
type Outcome struct {
	Res    *plan.Result
	Viol   []plan.Violation
	Exit   int
	Stderr string
	Err    error // harness error
	Raw    string
}

// Has tells whether the outcome shows the given rule.
func (o *Outcome) Has(rule string) bool {
	for _, v := range o.Viol {
		if v.Rule == rule {
			return true
		}
	}
	return false
}

const watchdog = 180 * time.Second

func (b *Built) exec(req *plan.Request, slot int) *Outcome {
	in, _ := json.Marshal(req)
	ctx, cancel := context.WithTimeout(context.Background(), watchdog)
	defer cancel()
	c := exec.CommandContext(ctx, b.Bin)
	c.Dir = b.Dir
	c.Stdin = bytes.NewReader(in)
	var so, se bytes.Buffer
	c.Stdout = &so
	c.Stderr = &limited{b: &se, max: 1 << 20}
	c.Env = []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "TZ=UTC", "GOMAXPROCS=1", "GOGC=off", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=all",
		"GORACE=atexit_sleep_ms=0 halt_on_error=0 exitcode=66 history_size=3"}
	err := c.Run()
	o := &Outcome{Stderr: se.String(), Raw: so.String()}
	if ctx.Err() != nil {
		o.Viol = append(o.Viol, plan.Violation{Rule: "hang", Detail: "the process did not finish: a loop without any scheduling point"})
		return o
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		o.Exit = ee.ExitCode()
	} else if err != nil {
		o.Err = err
		return o
	}
	if o.Exit == 0 || o.Exit == 66 {
		var r plan.Result
		if e := json.Unmarshal(so.Bytes(), &r); e != nil {
			o.Err = fmt.Errorf("unreadable result (%v): %.300s / %.300s", e, so.String(), se.String())
			return o
		}
		o.Res = &r
		o.Viol = append(o.Viol, r.Violations...)
		if b.Race {
			o.Viol = append(o.Viol, raceViolations(o.Stderr)...)
		}
		return o
	}
	switch o.Exit {
	case 96:
		o.Viol = append(o.Viol, plan.Violation{Rule: "deadlock", Detail: firstRepoFrames(o.Stderr, 3)})
	case 97:
		if filepath.Base(b.Bin) == "brokers" && b.lastSites(o.Stderr) == "" {
			return o // a client library spins: none of the last 1024 yield points is the repository's
		}
		o.Viol = append(o.Viol, plan.Violation{Rule: "livelock", Detail: "step budget exhausted; recent yield sites: " + b.lastSites(o.Stderr)})
	case 2:
		if filepath.Base(b.Bin) == "brokers" && libraryCrash(o.Stderr) {
			return o // counted as a run without a result
		}
		o.Viol = append(o.Viol, plan.Violation{Rule: "crash", Detail: crashLine(o.Stderr) + " at " + firstRepoFrames(o.Stderr, 3)})
	default:
		if o.Exit == -1 {
			o.Err = fmt.Errorf("world killed: %v", err)
			return o
		}
		o.Err = fmt.Errorf("world exited with %d: %s", o.Exit, tail(o.Stderr, 2000))
	}
	return o
}

// libraryCrash tells whether the goroutine which crashed ran and was started
// by code of the client libraries only.
func libraryCrash(s string) bool {
	i := strings.Index(s, "\ngoroutine ")
	if i < 0 || strings.HasPrefix(crashLine(s), "fatal") {
		return false
	}
	stack, _, _ := strings.Cut(s[i+1:], "\n\n")
	return strings.Contains(stack, "/pkg/mod/") && !strings.Contains(stack, repo+"/") && !strings.Contains(stack, "/verif/sim/") && !strings.Contains(stack, "/worlds/")
}

type limited struct {
	b   *bytes.Buffer
	max int
}

func (l *limited) Write(p []byte) (int, error) {
	if r := l.max - l.b.Len(); r > 0 {
		if len(p) > r {
			l.b.Write(p[:r])
		} else {
			l.b.Write(p)
		}
	}
	return len(p), nil
}

func crashLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") {
			return l
		}
	}
	return strings.SplitN(s, "\n", 2)[0]
}

var frameRe = regexp.MustCompile(`(?m)^\s+(` + regexp.QuoteMeta(repo) + `/\S+|/verif/sim/gen/\S+|/\S*/gen/sim\S+):(\d+)`)

func firstRepoFrames(s string, n int) string {
	var out []string
	for _, m := range frameRe.FindAllStringSubmatch(s, n) {
		out = append(out, m[1]+":"+m[2])
	}
	return strings.Join(out, " ")
}

var siteRe = regexp.MustCompile(`(\d+):(\d+)`)

func (b *Built) lastSites(s string) string {
	i := strings.Index(s, "SIM-LAST")
	if i < 0 {
		return "?"
	}
	line := strings.SplitN(s[i:], "\n", 2)[0]
	seen := map[string]bool{}
	var out []string
	for _, m := range siteRe.FindAllStringSubmatch(line, -1) {
		var id int
		fmt.Sscan(m[2], &id)
		if id < len(b.Sites) && id >= 0 {
			t := fmt.Sprintf("%s:%d", b.Sites[id].File, b.Sites[id].Line)
			if !seen[t] {
				seen[t] = true
				out = append(out, t)
			}
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, " ")
}

// raceViolations keeps the reports whose two accesses are both made by code
// under test (or by runtime helpers called directly from it).
func raceViolations(s string) []plan.Violation {
	var out []plan.Violation
	for _, rep := range strings.Split(s, "==================") {
		if !strings.Contains(rep, "WARNING: DATA RACE") {
			continue
		}
		var where []string
		ok := true
		for _, part := range splitAccesses(rep) {
			m := frameAny.FindStringSubmatch(part)
			if m == nil || !(strings.HasPrefix(m[1], repo+"/") || strings.Contains(m[1], "/gen/sim")) {
				ok = false
				break
			}
			if f := frameFunc.FindStringSubmatch(part); f != nil && f[1] == m[1] && sequential.MatchString(f[0]) {
				ok = false // the harness orders these calls without synchronizing
				break
			}
			where = append(where, m[1]+":"+m[2])
		}
		if ok && len(where) == 2 {
			out = append(out, plan.Violation{Rule: "race", Detail: "data race between " + where[0] + " and " + where[1]})
			return out
		}
	}
	return out
}

// sequential are calls on generated code which the harness makes one after the
// other, or on messages which it owns.
var sequential = regexp.MustCompile(`^  \S*/gen/sim\w+\.(\(\*?\w+\)|\w+)\.(CorrelationID|SetCorrelationID|Subscribe\w*|Unsubscribe\w*|Close)\(\)\n`)

var frameFunc = regexp.MustCompile(`(?m)^  \S+\(\)\n      (/\S+\.go):\d+`)

var frameAny = regexp.MustCompile(`(?m)^      (/\S+\.go):(\d+)`)

// splitAccesses gives the stack of each of the two accesses, without frames of the runtime itself.
func splitAccesses(rep string) []string {
	var parts []string
	var cur []string
	in := false
	flush := func() {
		if in {
			parts = append(parts, strings.Join(cur, "\n"))
		}
		cur = nil
	}
	for _, l := range strings.Split(rep, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "Read at") || strings.HasPrefix(t, "Write at") || strings.HasPrefix(t, "Previous read at") || strings.HasPrefix(t, "Previous write at") || strings.HasPrefix(t, "Atomic") || strings.HasPrefix(t, "Previous atomic"):
			flush()
			in = true
		case strings.HasPrefix(t, "Goroutine "):
			flush()
			in = false
		default:
			if in && !strings.Contains(l, "/src/runtime/") {
				cur = append(cur, l)
			}
		}
	}
	flush()
	return parts
}

func readRecord(path string) []uint64 {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []uint64
	for i := 0; i+8 <= len(b); i += 8 {
		v := binary.LittleEndian.Uint64(b[i:])
		if v == 0 {
			break
		}
		out = append(out, v)
	}
	return out
}

func (b *Built) planOf(prop, scenario, tier string, seed uint64, args map[string]string) (*plan.Plan, error) {
	in, _ := json.Marshal(&plan.Request{Prop: prop, Scenario: scenario, Tier: tier, Seed: seed, PlanOnly: true, Args: args})
	c := exec.Command(b.Bin)
	c.Stdin = bytes.NewReader(in)
	c.Dir = b.Dir
	c.Env = []string{"GOMAXPROCS=1"}
	out, err := c.Output()
	if err != nil {
		return nil, err
	}
	var p plan.Plan
	return &p, json.Unmarshal(out, &p)
}
