package main

import (
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/codegen"
	"github.com/lerenn/asyncapi-codegen/pkg/codegen/options"
	"verifsim/w"
)

// The history scenario: several generations in one process, of different
// specifications with different options, some failing. Whenever the same
// inputs come again the outcome has to be the same, and for the inputs with a
// reference it has to be that of a process which did nothing else.
//
// Ops:
//   gen   A kind spec opts around wait   (around: what is no input differs)
//   again A opts      (the specification object used last, once more)
//   bad   A kind      (a generation that has to fail)

func init() {
	w.Register(&w.Scenario{Name: "history", Props: []string{"C18"}, Gen: genHistory, Run: runHistory})
	w.Register(&w.Scenario{Name: "reference", Props: []string{"ref"}, Gen: func(*w.Rand, *w.Plan) {}, Run: runReference})
}

const (
	refOptSets  = 6
	refRandoms  = 24
	poolDefault = 64
)

// refOptions are the option sets with references.
func refOptions(i int) int {
	all := oApp | oUser | oTypes
	return []int{all | oRaw, all, oTypes | oRaw | oNoDates, oTypes | oRaw | oPtrs | oKeys0, all | oRaw | oCamelNames | oKeys1, oUser | oTypes | oRaw | oKeys0 | oKeys1}[i%refOptSets]
}

func genHistory(r *w.Rand, p *w.Plan) {
	n, agains := r.Range(3, 8), 0
	type in struct{ kind, k, o int }
	var used []in
	for i := 0; i < n; i++ {
		switch {
		case i > 0 && r.P(10):
			p.Ops = append(p.Ops, w.MkOp("bad", r.N(6)))
			continue
		case len(used) > 0 && agains < 2 && r.P(12):
			agains++ // few, as the same specification grows with each
			p.Ops = append(p.Ops, w.MkOp("again"))
			continue
		case len(used) > 0 && r.P(50):
			x := w.Pick(r, used...)
			if r.P(30) {
				x.o = genOptions(r) // same specification, other options
			}
			used = append(used, x)
			p.Ops = append(p.Ops, w.MkOp("gen", x.kind, x.k, x.o, around(r), w.Pick(r, 0, 0, 1, 3600, 40000000)))
			continue
		}
		x := in{1, r.N(1 << 20), genOptions(r)}
		switch r.N(4) {
		case 0:
			x = in{0, r.N(1 << 10), refOptions(r.N(refOptSets))}
		case 1:
			x = in{1, r.N(refRandoms), refOptions(r.N(refOptSets))}
		}
		used = append(used, x)
		p.Ops = append(p.Ops, w.MkOp("gen", x.kind, x.k, x.o, around(r), w.Pick(r, 0, 0, 1, 3600, 40000000)))
	}
	// What was asked for first is asked for again at the end.
	p.Ops = append(p.Ops, w.MkOp("gen", used[0].kind, used[0].k, used[0].o, around(r), w.Pick(r, 0, 1, 3600)))
}

// What is no input of a generation: an output of before (of some kind), the
// place of the files, the environment.
const (
	aGarbage = 1 << iota
	aLonger
	aPlace
	aEnviron
)

func around(r *w.Rand) int {
	if r.P(40) {
		return 0
	}
	return r.N(16)
}

var environ = []string{"USER", "HOSTNAME", "LANG", "TZ", "PWD", "GOPACKAGE", "GOFILE", "GOLINE", "DEBUG", "GOOS", "SOURCE_DATE_EPOCH", "ASYNCAPI_DOCKERIZED"}

func runHistory(wd *w.World) {
	defer scratchDir()()
	refs := references()
	pool := poolSize(wd.Args)
	seen := map[string][]byte{}
	what := map[string]string{}
	var last codegen.CodeGen
	lastKey, lastOpts := "", 0
	var lastOut []byte
	wd.Trivial = len(wd.Plan.Ops) < 2
	for i, op := range wd.Plan.Ops {
		switch op.K {
		case "gen":
			kind, k, o := op.I(0), op.I(1), op.I(2)
			if kind == 0 {
				if pool == 0 {
					continue
				}
				k %= pool
			}
			if d := op.I(4); d > 0 {
				time.Sleep(time.Duration(d) * time.Second)
				wd.Probe("another time")
			}
			at := ""
			if op.I(3)&aPlace != 0 {
				at = fmt.Sprintf("-at%d", i)
				wd.Probe("another place")
			}
			in := inputsAt(kind, k, at)
			_ = os.Remove("out.go")
			if op.I(3)&aGarbage != 0 {
				_ = os.WriteFile("out.go", []byte("// "+strings.Repeat("an output of before, written by hand\n// ", 1+i*20)), 0o644)
				wd.Probe("output of another origin in place")
			}
			if op.I(3)&aLonger != 0 && len(seen) > 0 {
				_ = os.WriteFile("out.go", append(append([]byte(nil), lastOut...), "\n// and more\n"...), 0o644)
				wd.Probe("longer output in place")
			}
			if op.I(3)&aEnviron != 0 {
				for n, e := range environ {
					if (i+n)%3 == 0 {
						_ = os.Setenv(e, fmt.Sprint("env", i))
					} else {
						_ = os.Unsetenv(e)
					}
				}
				wd.Probe("another environment")
			}
			out, cg, err := produceOver(in, o, "out.go")
			lastOut = out
			key := refKey(kind, k, o)
			wd.Rec("generation %d of %s with %s: %s (%d bytes)", i, strings.Join(in, ","), optString(o), hashOf(out), len(out))
			if err != nil {
				wd.Probe("generation with an error")
				last, lastKey = codegen.CodeGen{}, ""
			} else {
				last, lastKey, lastOpts = cg, key, o
				wd.Probe("generation")
			}
			if kind == 0 {
				wd.Probe("specification of the repository")
			}
			if before, ok := seen[key]; ok {
				wd.Probe("same inputs again")
				if string(before) != string(out) {
					wd.Violate("repetition", "%s with options %q gave another output after %s: %s", strings.Join(in, ","), optString(o), what[key], firstDiff(before, out))
				}
			}
			if ref, ok := refs[key]; ok {
				wd.Probe("compared with a process of its own")
				if ref != hashOf(out) {
					wd.Violate("process", "%s with options %q gave another output (%d bytes, error %v) than in a process of its own, after %s", strings.Join(in, ","), optString(o), len(out), err, history(wd.Plan.Ops[:i]))
				}
			}
			seen[key] = out
			what[key] = "the generations that followed"
		case "again":
			if lastKey == "" {
				continue
			}
			_ = os.Remove("out.go")
			out := []byte("error")
			if err := generate(last, optionsOf(lastOpts, "out.go")); err == nil {
				out, _ = os.ReadFile("out.go")
			}
			wd.Rec("again: %s", hashOf(out))
			wd.Probe("same object again")
			if string(seen[lastKey]) != string(out) {
				wd.Violate("again", "the same generator gave another output the second time (%s, %q): %s", lastKey, optString(lastOpts), firstDiff(seen[lastKey], out))
			}
		case "bad":
			wd.Fault("failing generation")
			bad(op.I(0))
		}
	}
	runtime.SimQuiesce()
}

func history(ops []w.Op) string {
	var l []string
	for _, o := range ops {
		s := o.K
		if o.K == "gen" {
			s += fmt.Sprintf(" %d/%d with %q", o.I(0), o.I(1), optString(o.I(2)))
		}
		l = append(l, s)
	}
	if l == nil {
		return "nothing else"
	}
	return strings.Join(l, ", ")
}

// bad is a generation that fails somewhere.
func bad(kind int) {
	in := inputs(1, 3)
	all := oApp | oUser | oTypes | oRaw | oNoDates | oPtrs | oKeys1 | oCamelNames
	o := optionsOf(all, "bad.go")
	switch kind {
	case 0:
		o.ConvertKeys = "unknown"
	case 1:
		o.NamingScheme = "unknown"
	case 2:
		o.OutputPath = "missing/bad.go"
	case 3:
		_ = os.WriteFile("bad.json", []byte(`{"asyncapi":"3.0.0","channels":{"x":{"messages":{"m":{"$ref":"#/components/messages/none"}}}}}`), 0o644)
		in = []string{"./bad.json"}
	case 4:
		_ = os.WriteFile("bad.yaml", []byte("asyncapi: 2.6.0\nchannels:\n  x:\n    publish:\n      message: {$ref: '#/components/messages/none'}\n"), 0o644)
		in = []string{"./bad.yaml"}
	case 5:
		o.PackageName = "not a package name"
		o.DisableFormatting = false
	}
	var cg codegen.CodeGen
	var err error
	if kind >= 3 && kind <= 4 {
		cg, err = codegen.FromFile(in[0])
	} else {
		cg, err = load(in)
	}
	if err == nil {
		_ = generate(cg, o)
	}
	_ = os.Remove("bad.go")
}

var _ options.Options

// runReference produces one outcome in a process of its own.
func runReference(wd *w.World) {
	defer scratchDir()()
	kind, _ := strconv.Atoi(wd.Args["kind"])
	k, _ := strconv.Atoi(wd.Args["k"])
	o, _ := strconv.Atoi(wd.Args["opts"])
	out, _, _ := produce(inputs(kind, k), o, "out.go")
	wd.Rec("%s", hashOf(out))
	wd.Probe("hash " + hashOf(out))
}
