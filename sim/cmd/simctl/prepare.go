package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"verifsim/plan"
)

var depRe = regexp.MustCompile(`\$ref: *['"]?\.?/?([A-Za-z0-9_-]+\.(?:yaml|yml|json))#`)

// copyPool gives the codegen world the specifications found in the repository:
// pool/<k>/<position><file name>.
func copyPool(b *Built) (int, error) {
	var specs []string
	for _, root := range []string{"/test", "/examples"} {
		_ = filepath.Walk(repo+root, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() && strings.HasPrefix(fi.Name(), "asyncapi") && (strings.HasSuffix(p, ".yaml") || strings.HasSuffix(p, ".json")) {
				specs = append(specs, p)
			}
			return nil
		})
	}
	own, _ := filepath.Glob(simDir() + "/specs/*.yaml")
	specs = append(specs, own...)
	sort.Strings(specs)
	for k, s := range specs {
		dir := filepath.Join(b.Dir, "pool", fmt.Sprint(k))
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return 0, err
		}
		files := []string{s}
		src, err := os.ReadFile(s)
		if err != nil {
			return 0, err
		}
		seen := map[string]bool{}
		for _, m := range depRe.FindAllSubmatch(src, -1) {
			if n := string(m[1]); !seen[n] {
				seen[n] = true
				files = append(files, filepath.Join(filepath.Dir(s), n))
			}
		}
		for i, f := range files {
			c, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			if err := os.WriteFile(filepath.Join(dir, fmt.Sprint(i)+filepath.Base(f)), c, 0o644); err != nil {
				return 0, err
			}
		}
	}
	return len(specs), nil
}

// The reference option sets of the history scenario: see refOptions there.
var refOptSets = []int{1 | 2 | 4 | 8, 1 | 2 | 4, 4 | 8 | 16, 4 | 8 | 32 | 128, 1 | 2 | 4 | 8 | 64 | 256, 2 | 4 | 8 | 128 | 256}

const refRandoms = 24

// prepareCodegen computes the outcome of single generations, each in a process
// of its own with its own hash seeds.
func prepareCodegen(b *Built) error {
	n, err := copyPool(b)
	if err != nil {
		return err
	}
	b.Args = map[string]string{"pool": fmt.Sprint(n)}
	type job struct{ kind, k, o int }
	jobs := make(chan job)
	refs := map[string]string{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var first error
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(slot int) {
			defer wg.Done()
			for j := range jobs {
				o := b.exec(&plan.Request{Prop: "ref", Scenario: "reference", Seed: uint64(j.kind*1000003 + j.k*101 + j.o), Args: map[string]string{
					"kind": fmt.Sprint(j.kind), "k": fmt.Sprint(j.k), "opts": fmt.Sprint(j.o)}}, slot)
				h := ""
				if o.Res != nil {
					for p := range o.Res.Probes {
						h = strings.TrimPrefix(p, "hash ")
					}
				}
				mu.Lock()
				if h == "" && first == nil {
					first = fmt.Errorf("reference generation %v failed: %v %v %s", j, o.Err, o.Viol, tail(o.Stderr, 2000))
				}
				refs[fmt.Sprintf("%d/%d/%d", j.kind, j.k, j.o)] = h
				mu.Unlock()
			}
		}(i)
	}
	for k := 0; k < n; k++ {
		for _, o := range refOptSets {
			jobs <- job{0, k, o}
		}
	}
	for k := 0; k < refRandoms; k++ {
		for _, o := range refOptSets {
			jobs <- job{1, k, o}
		}
	}
	close(jobs)
	wg.Wait()
	if first != nil {
		return first
	}
	j, err := json.Marshal(refs)
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(b.Dir, "refs.json"), j, 0o644)
}

func prepareC19(b *Built) error {
	n, err := copyPool(b)
	b.Args = map[string]string{"pool": fmt.Sprint(n)}
	return err
}
