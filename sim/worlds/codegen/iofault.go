package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"

	"verifsim/gen/acgcli"
	"verifsim/w"
)

// The iofault scenario: generations by the library and, at last, by the
// command, while the file system fails at drawn points.
//
// Ops:
//   fault target op nth errno amount lasting   (for the next generation)
//   lib A kind spec opts earlier               (earlier: output file present)
//   cli A kind spec opts earlier
//   bad A how earlier cli                      (invalid inputs or options)

const (
	tSpec = iota // the specification
	tDep         // a dependency
	tOut         // anything opened for writing
)

var faultOps = []string{"open", "read", "write", "close", "fsync", "rename"}

var faultErrs = []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EMFILE, syscall.ENOENT, syscall.EINTR, syscall.EDQUOT, syscall.EROFS, 0}

func init() {
	w.Register(&w.Scenario{Name: "iofault", Props: []string{"C19"}, Gen: genIOFault, Run: runIOFault})
}

func genIOFault(r *w.Rand, p *w.Plan) {
	n := r.Range(1, 4)
	for i := 0; i < n; i++ {
		for k := r.Range(0, 2); k > 0; k-- {
			target := w.Pick(r, tSpec, tDep, tOut, tOut)
			op := w.Pick(r, 0, 1, 1) // inputs: open, read
			nth := w.Pick(r, 0, 0, 0, 1, 1, 2, 3)
			if target == tOut {
				op = w.Pick(r, 0, 2, 2, 2, 3, 3, 4, 5)
			}
			e := r.N(len(faultErrs))
			if op != 1 && op != 2 && faultErrs[e] == 0 {
				e = 0 // only reads and writes can be short
			}
			amount := w.Pick(r, 0, 1, 7, 100, 512, 4096, 20000, r.N(60000))
			p.Ops = append(p.Ops, w.MkOp("fault", target, op, nth, e, amount, r.N(2)))
		}
		kind, k := 1, r.N(1<<20)
		if r.P(35) {
			kind, k = 0, r.N(1<<10)
		}
		how := "lib"
		if i == n-1 && r.P(60) {
			how = "cli"
		}
		if r.P(15) {
			c := 0
			if how == "cli" {
				c = 1
			}
			p.Ops = append(p.Ops, w.MkOp("bad", r.N(badKinds), r.N(3), c))
			continue
		}
		p.Ops = append(p.Ops, w.MkOp(how, kind, k, genOptions(r), w.Pick(r, 0, 1, 2, 3, 4, 5)))
	}
}

type fault struct {
	target, op, nth int
	errno           syscall.Errno
	amount          int
	lasting         bool
	seen            int
	hits            int
}

// fsim decides the outcome of the file operations of one generation.
type fsim struct {
	wd      *w.World
	spec    string
	deps    []string
	faults  []*fault
	fds     map[int]string // opened files that matter
	outFD   map[int]bool
	inBroke map[string]bool // inputs with a failure and no attempt since
	outHit  bool            // a fault on the output side took effect
	inHit   bool
	wrote   bool // the generation reached the output side
	hard    int
}

func same(a, b string) bool {
	x, err1 := filepath.Abs(a)
	y, err2 := filepath.Abs(b)
	return err1 == nil && err2 == nil && x == y
}

func (s *fsim) targetOf(path string, writing bool) int {
	if writing {
		return tOut
	}
	if same(path, s.spec) {
		return tSpec
	}
	for _, d := range s.deps {
		if same(path, d) {
			return tDep
		}
	}
	return -1
}

// decide gives the fault to apply to this operation, if any.
func (s *fsim) decide(target int, op string) *fault {
	for _, f := range s.faults {
		if f.target != target || faultOps[f.op] != op {
			continue
		}
		f.seen++
		if f.seen-1 == f.nth || f.lasting && f.seen-1 > f.nth && f.errno != syscall.EINTR {
			f.hits++
			name := f.errno.Error()
			if f.errno == 0 {
				name = "short"
			}
			s.wd.Fault(op + " " + [...]string{"specification", "dependency", "output"}[target] + ": " + name)
			return f
		}
	}
	return nil
}

func (s *fsim) io(op, path string, fd, n int) (int, syscall.Errno) {
	writing := false
	switch op {
	case "open", "opened":
		mode := fd // of open
		if op == "opened" {
			mode = n
		}
		writing = mode&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC) != 0
	case "rename":
		writing = true
	default:
		p, ok := s.fds[fd]
		if !ok {
			return n, 0
		}
		path, writing = p, s.outFD[fd]
	}
	t := s.targetOf(path, writing)
	if t < 0 {
		return n, 0
	}
	switch op {
	case "opened":
		s.fds[fd] = path
		s.outFD[fd] = writing
		if t != tOut {
			delete(s.inBroke, path) // once more from the start
		}
		return n, 0
	}
	if t == tOut {
		s.wrote = true
	}
	f := s.decide(t, op)
	if op == "close" {
		delete(s.fds, fd)
	}
	if f == nil {
		return n, 0
	}
	if f.errno == syscall.EINTR && op != "rename" && op != "close" {
		return n, f.errno // the caller has to try again
	}
	if op == "read" || op == "write" {
		if f.errno == 0 || op == "write" && f.hits == 1 && f.amount > 0 {
			// A part passes; a full disk shows with the next write.
			if k := f.amount%4096 + 1; k < n {
				if f.errno != 0 {
					f.nth++
					f.hits = 1
				}
				if t == tOut {
					s.outHit = true
				}
				return k, 0
			}
			if f.errno == 0 {
				return n, 0
			}
		}
	}
	if f.errno == 0 {
		return n, 0
	}
	s.hard++
	if t == tOut {
		s.outHit = true
		if op == "close" || op == "fsync" {
			// The system had accepted data it could not store.
			_ = syscall.Truncate(path, int64(f.amount%4096))
		}
	} else {
		s.inHit = true
		s.inBroke[path] = true
	}
	return n, f.errno
}

// outcome of one generation.
type outcome struct {
	failed bool
	text   string
}

func attempt(wd *w.World, fn func() error) (o outcome) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(acgcli.Exit); ok {
				o = outcome{failed: e != 0, text: fmt.Sprintf("exit status %d", int(e))}
				return
			}
			o = outcome{failed: true, text: fmt.Sprintf("panic: %v", r)}
			wd.Probe("panic")
		}
	}()
	if err := fn(); err != nil {
		return outcome{true, "error: " + err.Error()}
	}
	return outcome{false, "success"}
}

func cliArgs(in []string, o int, out string) []string {
	opt := optionsOf(o, out)
	args := []string{"asyncapi-codegen", "-o", out, "-p", opt.PackageName}
	if o%2 == 0 {
		args = append(args, "-i", strings.Join(in, ","))
	} else {
		for _, f := range in {
			args = append(args, "--input", f)
		}
	}
	var g []string
	for _, x := range []struct {
		on bool
		n  string
	}{{opt.Generate.User, "user"}, {opt.Generate.Application, "application"}, {opt.Generate.Types, "types"}} {
		if x.on {
			g = append(g, x.n)
		}
	}
	args = append(args, "-g", strings.Join(g, ","))
	if opt.DisableFormatting {
		args = append(args, "-f")
	}
	if opt.IgnoreStringFormat {
		args = append(args, "--ignore-string-format")
	}
	if opt.ForcePointers {
		args = append(args, "--force-pointers")
	}
	return append(args, "-c", opt.ConvertKeys, "-n", opt.NamingScheme)
}

func runCLI(args []string) error {
	old := os.Args
	os.Args = args
	defer func() { os.Args = old }()
	acgcli.Main()
	return nil
}

// earlier prepares what an earlier generation left at the output path.
func earlier(out string, kind int, ref []byte) []byte {
	_ = os.Remove(out)
	switch kind {
	case 1:
		b := []byte("package generated\n\n// An earlier and shorter output.\n")
		_ = os.WriteFile(out, b, 0o644)
		return b
	case 2:
		b := []byte("package generated\n" + strings.Repeat("// An earlier and longer output.\n", 20000))
		_ = os.WriteFile(out, b, 0o644)
		return b
	}
	if kind >= 3 && len(ref) > 100 { // nearly what is to be written
		b := append([]byte(nil), ref...)
		switch kind {
		case 3: // as long
			b[len(b)/2] ^= 1
		case 4: // interrupted
			b = b[:len(b)*2/3]
		case 5:
			b = append(b, "\n// More.\n"...)
		}
		_ = os.WriteFile(out, b, 0o644)
		return b
	}
	return nil
}

func snapshot(files []string) [][]byte {
	var l [][]byte
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			b = nil
		}
		l = append(l, b)
	}
	return l
}

func runIOFault(wd *w.World) {
	defer scratchDir()()
	pass := syscall.SimIO
	pool := poolSize(wd.Args)
	var faults []*fault
	cliUsed := false
	hits := 0
	for i, op := range wd.Plan.Ops {
		switch op.K {
		case "fault":
			faults = append(faults, &fault{target: op.I(0), op: op.I(1), nth: op.I(2), errno: faultErrs[op.I(3)], amount: op.I(4), lasting: op.I(5) == 1})
			continue
		case "bad":
			cli := op.I(2) == 1 && !cliUsed
			cliUsed = cliUsed || cli
			runBad(wd, i, op.I(0), op.I(1), cli)
			faults = nil
			continue
		}
		kind, k, o := op.I(0), op.I(1), op.I(2)
		if kind == 0 {
			if pool == 0 {
				continue
			}
			k %= pool
		}
		in := inputs(kind, k)
		ref, _, referr := produce(in, o, "ref.go")
		before := snapshot(in)
		dir, out := filepath.Dir(in[0]), "out.go"
		if err := os.Chdir(dir); err != nil {
			panic(err)
		}
		var base []string
		for _, f := range in {
			base = append(base, filepath.Base(f))
		}
		old := earlier(out, op.I(3), ref)
		s := &fsim{wd: wd, spec: base[0], deps: base[1:], faults: faults, fds: map[int]string{}, outFD: map[int]bool{}, inBroke: map[string]bool{}}
		faults = nil
		name := op.K
		if name == "cli" && cliUsed {
			name = "lib"
		}
		syscall.SimIO = s.io
		var got outcome
		if name == "cli" {
			cliUsed = true
			got = attempt(wd, func() error { return runCLI(cliArgs(base, o, out)) })
		} else {
			got = attempt(wd, func() error {
				cg, err := fromFile(base)
				if err != nil {
					return err
				}
				return cg.Generate(optionsOf(o, out))
			})
		}
		syscall.SimIO = pass
		now, rerr := os.ReadFile(out)
		_ = os.Chdir("..")
		hits += s.hard
		what := fmt.Sprintf("generation %d (%s of %s, %q, %s)", i, name, strings.Join(in, ","), optString(o), got.text)
		wd.Rec("%s: %d bytes, read side hit %v, write side hit %v", what, len(now), s.inHit, s.outHit)
		wd.Probe(name + ": " + map[bool]string{true: "failure reported", false: "success"}[got.failed])

		if !got.failed {
			switch {
			case len(s.inBroke) > 0:
				wd.Violate("unread", "%s: success although reading %s failed", what, keysOf(s.inBroke))
			case rerr != nil:
				wd.Violate("complete", "%s: success without an output file: %v", what, rerr)
			case referr == nil && !bytes.Equal(now, ref):
				wd.Violate("complete", "%s: success but the output is not the complete one (%d bytes instead of %d): %s", what, len(now), len(ref), firstDiff(ref, now))
			case referr != nil:
				wd.Violate("complete", "%s: success but the same generation on a healthy file system fails: %v", what, referr)
			}
		} else {
			if s.hard == 0 && !s.outHit && referr == nil {
				wd.Violate("healthy", "%s: failure without a fault", what)
			}
			if !s.outHit && !sameFile(now, rerr, old) {
				wd.Violate("touched", "%s: the earlier output was changed by a generation that failed before writing", what)
			}
		}
		for j, b := range snapshot(in) {
			if !bytes.Equal(b, before[j]) {
				wd.Violate("inputs", "%s: input %s was modified", what, in[j])
			}
		}
	}
	wd.Trivial = hits == 0
	runtime.SimQuiesce()
}

func sameFile(now []byte, rerr error, old []byte) bool {
	if old == nil {
		return rerr != nil
	}
	return rerr == nil && bytes.Equal(now, old)
}

func keysOf(m map[string]bool) string {
	for k := range m {
		return k
	}
	return ""
}

const badKinds = 12

// runBad is a generation with invalid inputs or options: it has to fail
// without touching what was there.
func runBad(wd *w.World, i, how, pre int, cli bool) {
	in := inputs(1, 3)
	dir := filepath.Dir(in[0])
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	defer os.Chdir("..")
	var files []string
	for _, f := range in {
		files = append(files, filepath.Base(f))
	}
	o := oApp | oUser | oTypes | oRaw
	opt := optionsOf(o, "out.go")
	put := func(name, content string) { _ = os.WriteFile(name, []byte(content), 0o644); files = []string{name} }
	var extra []string
	label := ""
	switch how {
	case 0:
		label, files = "missing specification", []string{"none.yaml"}
	case 1:
		label, files = "missing dependency", append(files[:len(files):len(files)], "none.yaml")
	case 2:
		label = "unknown key conversion"
		opt.ConvertKeys, extra = "unknown", []string{"-c", "unknown"}
	case 3:
		label = "unknown naming scheme"
		opt.NamingScheme, extra = "unknown", []string{"-n", "unknown"}
	case 4:
		label = "unresolved reference"
		put("bad.yaml", "asyncapi: 3.0.0\ninfo: {title: t, version: 1.0.0}\nchannels:\n  x:\n    address: x\n    messages:\n      m: {$ref: '#/components/messages/none'}\n")
	case 5:
		label = "malformed specification"
		put("bad.json", `{"asyncapi":"3.0.0","channels":{"x":{"address":"x"`)
	case 6:
		label = "invalid package name"
		opt.PackageName, opt.DisableFormatting, extra = "not a name", false, []string{"-p", "not a name", "-f=false"}
	case 7:
		label = "unknown version"
		put("bad.yaml", "asyncapi: 9.0.0\ninfo: {title: t, version: 1.0.0}\n")
	case 8:
		label = "directory as specification"
		_ = os.Mkdir("dir.yaml", 0o755)
		files = []string{"dir.yaml"}
	case 9:
		label = "output folder missing"
		opt.OutputPath, extra = "none/out.go", []string{"-o", "none/out.go"}
	case 10:
		label = "output path is a folder"
		_ = os.Mkdir("folder.go", 0o755)
		opt.OutputPath, extra = "folder.go", []string{"-o", "folder.go"}
	}
	if how == 11 {
		if label, extra = "unknown part to generate", []string{"-g", "user,none"}; !cli {
			return
		}
	}
	old := earlier("out.go", pre, nil)
	before := snapshot(files)
	var got outcome
	if cli {
		got = attempt(wd, func() error { return runCLI(append(cliArgs(files, o, "out.go"), extra...)) })
	} else {
		got = attempt(wd, func() error {
			cg, err := fromFile(files)
			if err != nil {
				return err
			}
			return cg.Generate(opt)
		})
	}
	now, rerr := os.ReadFile("out.go")
	wd.Fault("invalid generation: " + label)
	wd.Rec("generation %d (%s, %v): %s", i, label, cli, got.text)
	if !got.failed {
		wd.Violate("invalid", "generation %d: success with %s", i, label)
	} else if !sameFile(now, rerr, old) {
		wd.Violate("touched", "generation %d (%s): the earlier output was changed by a generation that failed before writing", i, label)
	}
	for j, b := range snapshot(files) {
		if !bytes.Equal(b, before[j]) {
			wd.Violate("inputs", "generation %d (%s): input %s was modified", i, label, files[j])
		}
	}
}
