package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"regexp"

	"verifsim/plan"
)

// Finding is a genuine defect that is recorded rather than repaired.
type Finding struct {
	Property string `json:"property"`
	Rule     string `json:"rule"`
	Match    string `json:"match"` // regular expression on the violation's detail
	What     string `json:"what"`
	re       *regexp.Regexp
}

type knownSet struct{ list []Finding }

func loadKnown(id string) *knownSet {
	k := &knownSet{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.json"))
	if err != nil {
		return k
	}
	var f struct {
		Findings []Finding `json:"findings"`
		Fixed    []string  `json:"fixed"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fail("known-findings.json: %v", err)
	}
	for _, x := range f.Findings {
		if x.Property == id {
			x.re = regexp.MustCompile(x.Match)
			k.list = append(k.list, x)
		}
	}
	return k
}

func (k *knownSet) match(v plan.Violation) int {
	for i, f := range k.list {
		if f.Rule == v.Rule && f.re.MatchString(v.Detail) {
			return i
		}
	}
	return -1
}

// unknown gives the first violation that is not a listed finding.
func (k *knownSet) unknown(vs []plan.Violation) *plan.Violation {
	for i := range vs {
		if k.match(vs[i]) < 0 {
			return &vs[i]
		}
	}
	return nil
}
