package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"verifsim/internal/instr"
	"verifsim/internal/rtpatch"
)

// repo is the code under test; elsewhere than /repo only while developing.
var repo = envOr("VERIF_REPO", "/repo")

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func simDir() string {
	if d := os.Getenv("VERIF_SIM_DIR"); d != "" {
		return d
	}
	return "/verif/sim"
}

// Built is a world binary ready to run.
type Built struct {
	Bin   string
	Dir   string
	Sites []instr.Site
	Race  bool
	Args  map[string]string
	known *knownSet
}

func (b *Built) args() map[string]string { return b.Args }

func run(dir string, env []string, name string, args ...string) (string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = append(os.Environ(), env...)
	out, err := c.CombinedOutput()
	if err != nil {
		return string(out), fmt.Errorf("%s %s: %w\n%s", name, strings.Join(args, " "), err, tail(string(out), 6000))
	}
	return string(out), nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// genPackages are the packages generated from /verif/sim/specs by the
// repository's generator.
var genPackages = []struct {
	name, spec, version string
	args                []string
}{
	{"simv3", "simv3.yaml", "", nil},
	{"simv3b", "simv3.yaml", "9.0.0", nil},
	{"simv3p", "simv3.yaml", "", []string{"--force-pointers", "--convert-keys", "snake", "--ignore-string-format"}},
	{"simv2", "simv2.yaml", "", nil},
}

// requiredIDs are not supported along with forced pointers.
var requiredIDs = regexp.MustCompile(`required: \[(correlationId|replyTo|cid)\]`)

var versionRe = regexp.MustCompile(`(?m)^  version: .*$`)

func writeModfile(dir string) error {
	gm, err := os.ReadFile(repo + "/go.mod")
	if err != nil {
		return err
	}
	s := regexp.MustCompile(`(?m)^module .*$`).ReplaceAllString(string(gm), "module verifsim")
	mod := strings.TrimSpace(regexp.MustCompile(`(?m)^module (.*)$`).FindStringSubmatch(string(gm))[1])
	s += fmt.Sprintf("\nrequire %s v0.0.0\nreplace %s => %s\n", mod, mod, repo)
	if err := os.WriteFile(dir+"/go.mod", []byte(s), 0o644); err != nil {
		return err
	}
	sum, err := os.ReadFile(repo + "/go.sum")
	if err != nil {
		return err
	}
	return os.WriteFile(dir+"/go.sum", sum, 0o644)
}

// buildWorld builds ./worlds/<world> of /verif/sim over /repo's working tree.
func buildWorld(dir, world string, wantGen, race bool) (*Built, error) {
	b := &Built{Dir: dir, Bin: filepath.Join(dir, world), Race: race}
	goroot, err := run(dir, nil, "go", "env", "GOROOT")
	if err != nil {
		return nil, err
	}
	ovdir := filepath.Join(dir, "ov-"+world)
	if err := os.MkdirAll(ovdir, 0o755); err != nil {
		return nil, err
	}
	repl, err := rtpatch.Write(strings.TrimSpace(goroot), ovdir)
	if err != nil {
		return nil, err
	}
	if err := writeModfile(dir); err != nil {
		return nil, err
	}
	addSrc := func(target string, src []byte) error {
		out, sites, err := instr.File(target, src, len(b.Sites))
		if err != nil {
			return err
		}
		b.Sites = append(b.Sites, sites...)
		dst := filepath.Join(ovdir, strings.ReplaceAll(strings.TrimPrefix(target, "/"), "/", "__"))
		if err := os.WriteFile(dst, out, 0o644); err != nil {
			return err
		}
		repl[target] = dst
		return nil
	}
	// The library code under test, with a yield point before every statement.
	roots := []string{"/pkg/extensions"}
	if world == "codegen" {
		roots = []string{"/pkg/asyncapi", "/pkg/codegen", "/pkg/utils"}
	}
	var files []string
	for _, root := range roots {
		err = filepath.Walk(repo+root, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
				files = append(files, p)
			}
			return err
		})
		if err != nil {
			return nil, err
		}
	}
	sort.Strings(files)
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := addSrc(f, src); err != nil {
			return nil, err
		}
	}
	if world == "codegen" {
		if err := addCLI(addSrc); err != nil {
			return nil, err
		}
	}
	// The generated code under test.
	if wantGen {
		gen := filepath.Join(dir, "acg")
		if _, err := run(repo, nil, "go", "build", "-o", gen, "./cmd/asyncapi-codegen"); err != nil {
			return nil, err
		}
		for _, g := range genPackages {
			spec, err := os.ReadFile(filepath.Join(simDir(), "specs", g.spec))
			if err != nil {
				return nil, err
			}
			if g.version != "" {
				spec = versionRe.ReplaceAll(spec, []byte("  version: "+g.version))
			}
			if g.name == "simv3p" {
				spec = requiredIDs.ReplaceAll(spec, []byte("description: optional"))
			}
			sp := filepath.Join(dir, g.name+".yaml")
			out := filepath.Join(dir, g.name+".gen.go")
			if err := os.WriteFile(sp, spec, 0o644); err != nil {
				return nil, err
			}
			if _, err := run(dir, nil, gen, append([]string{"-i", sp, "-p", g.name, "-o", out}, g.args...)...); err != nil {
				return nil, &genError{"generate", fmt.Sprintf("no code is generated for %s with %v: %v", g.spec, g.args, err)}
			}
			src, err := os.ReadFile(out)
			if err != nil {
				return nil, err
			}
			if err := addSrc(filepath.Join(simDir(), "gen", g.name, "gen.go"), src); err != nil {
				return nil, err
			}
			fp := filepath.Join(simDir(), "worlds", world, "facade_"+g.name+".go")
			facade, err := os.ReadFile(fp)
			if err != nil {
				return nil, err
			}
			dst := filepath.Join(ovdir, "facade_"+g.name+".go")
			if err := os.WriteFile(dst, subscriberTypes(facade, src, g.name), 0o644); err != nil {
				return nil, err
			}
			repl[fp] = dst
		}
	}
	err = b.link(repl, ovdir, world, race)
	if err != nil && wantGen {
		err = compiles(dir, err)
	}
	return b, err
}

// genError says that there is no program to simulate, because of the generator.
type genError struct{ Rule, Detail string }

func (e *genError) Error() string { return e.Rule + ": " + e.Detail }

// compiles finds out whether the generated packages are what does not build:
// the library does and they, as they were generated, do not.
func compiles(dir string, err error) error {
	if _, err2 := run(repo, nil, "go", "build", "./pkg/..."); err2 != nil {
		return err
	}
	for _, g := range genPackages {
		d := filepath.Join(dir, "plain", g.name)
		src, err2 := os.ReadFile(filepath.Join(dir, g.name+".gen.go"))
		if err2 == nil {
			err2 = os.MkdirAll(d, 0o755)
		}
		if err2 == nil {
			err2 = os.WriteFile(filepath.Join(d, "gen.go"), src, 0o644)
		}
		if err2 != nil {
			return err
		}
		if _, err2 := run(dir, nil, "go", "build", "./plain/"+g.name); err2 != nil {
			return &genError{"compile", fmt.Sprintf("the code generated for %s with %v does not compile: %v", g.spec, g.args, err2)}
		}
	}
	return err
}

var (
	subscriberRe = regexp.MustCompile(`(?s)\ntype (App|User)Subscriber interface \{(.*?)\n\}`)
	methodRe     = regexp.MustCompile(`(?m)^\s*(\w+)\(ctx context\.Context, msg (\w+)\) error`)
)

// subscriberTypes gives the methods of a facade's subscribers the message types
// the generated interfaces ask for: that they are the ones of the specification
// is for the scenarios to find out.
func subscriberTypes(facade, gen []byte, pkg string) []byte {
	for _, i := range subscriberRe.FindAllSubmatch(gen, -1) {
		for _, m := range methodRe.FindAllSubmatch(i[2], -1) {
			re := regexp.MustCompile(fmt.Sprintf(`(\(a all%s_%s\) %s\(ctx context\.Context, m %s\.)\w+\)`, i[1], pkg, m[1], pkg))
			facade = re.ReplaceAll(facade, append([]byte("${1}"), append(m[2], ')')...))
		}
	}
	return facade
}

// addCLI puts the command's sources into an importable package: main becomes
// Main, and exiting is reported to the caller.
func addCLI(addSrc func(target string, src []byte) error) error {
	files, err := filepath.Glob(repo + "/cmd/asyncapi-codegen/*.go")
	if err != nil {
		return err
	}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		src, err = instr.Importable(f, src, "acgcli")
		if err != nil {
			return err
		}
		if err := addSrc(filepath.Join(simDir(), "gen", "acgcli", filepath.Base(f)), src); err != nil {
			return err
		}
	}
	return addSrc(filepath.Join(simDir(), "gen", "acgcli", "zz_exit.go"), []byte(`package acgcli

// Exit is what an exiting command panics with.
type Exit int

func simExit(code int) { panic(Exit(code)) }
`))
}

func (b *Built) link(repl map[string]string, ovdir, world string, race bool) error {
	j, _ := json.Marshal(map[string]any{"Replace": repl})
	ov := filepath.Join(ovdir, "overlay.json")
	if err := os.WriteFile(ov, j, 0o644); err != nil {
		return err
	}
	args := []string{"build", "-tags", "faketime", "-modfile", filepath.Join(b.Dir, "go.mod"), "-overlay", ov, "-o", b.Bin}
	if race {
		args = append(args, "-race")
	}
	_, err := run(simDir(), nil, "go", append(args, "./worlds/"+world)...)
	return err
}
