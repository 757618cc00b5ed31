package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/lerenn/asyncapi-codegen/pkg/codegen"
	"github.com/lerenn/asyncapi-codegen/pkg/codegen/options"
	"verifsim/w"
)

// Options of a generation are a number, so that plans stay small.
const (
	oApp = 1 << iota
	oUser
	oTypes
	oRaw
	oNoDates
	oPtrs
	oCamelNames
	oKeys0
	oKeys1
	oBits = 9
)

func optionsOf(o int, out string) options.Options {
	return options.Options{
		OutputPath: out, PackageName: "generated",
		Generate:          options.GeneratorOptions{Application: o&oApp != 0, User: o&oUser != 0, Types: o&oTypes != 0},
		DisableFormatting: o&oRaw != 0, IgnoreStringFormat: o&oNoDates != 0, ForcePointers: o&oPtrs != 0,
		NamingScheme: [...]string{"none", "camel"}[o/oCamelNames%2], ConvertKeys: [...]string{"none", "snake", "kebab", "camel"}[o/oKeys0%4],
	}
}

// genOptions draws options; formatting is slow and mostly left out.
func genOptions(r *w.Rand) int {
	o := w.Pick(r, oTypes, oApp|oUser|oTypes, oApp|oUser|oTypes, oApp|oTypes, oUser)
	if !r.P(20) {
		o |= oRaw
	}
	for _, b := range []int{oNoDates, oPtrs, oCamelNames, oKeys0, oKeys1} {
		if r.P(25) {
			o |= b
		}
	}
	return o
}

func optString(o int) string {
	s := ""
	for i, n := range []string{"app", "user", "types", "raw", "ignore-string-format", "force-pointers", "naming-camel", "keys+1", "keys+2"} {
		if o&(1<<i) != 0 {
			s += n + " "
		}
	}
	return strings.TrimSpace(s)
}

// scratch makes the working directory of the run and goes there.
func scratchDir() (done func()) {
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	dir := filepath.Join(old, fmt.Sprintf("run-%d", os.Getpid()))
	if err := os.Mkdir(dir, 0o755); err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	// No child processes: goimports does without a go tool.
	syscall.SimIO = func(op, path string, fd, n int) (int, syscall.Errno) { return n, 0 }
	return func() {
		syscall.SimIO = nil
		_ = os.Chdir(old)
		_ = os.RemoveAll(dir)
	}
}

// pool are the specifications copied by the driver: pool/<k>/<files>.
func poolFiles(k int, root string) []string {
	dir := filepath.Join(root, "pool", fmt.Sprint(k))
	l, err := filepath.Glob(dir + "/*")
	if err != nil || len(l) == 0 {
		return nil
	}
	sort.Strings(l)
	return l
}

// inputs are the files of a generation, relative to the working directory:
// kind 0: specification of the pool; kind 1: drawn from a seed.
func inputs(kind, k int) []string { return inputsAt(kind, k, "") }

// inputsAt puts them in a directory with another name.
func inputsAt(kind, k int, at string) []string {
	if kind == 0 {
		// file names begin with a digit telling their position
		var out []string
		for _, f := range poolFiles(k, "..") {
			b, err := os.ReadFile(f)
			if err != nil {
				panic(err)
			}
			dir := fmt.Sprintf("p%d%s", k, at)
			_ = os.MkdirAll(dir, 0o755)
			name := dir + "/" + filepath.Base(f)[1:]
			if err := os.WriteFile(name, b, 0o644); err != nil {
				panic(err)
			}
			out = append(out, name)
		}
		return out
	}
	var out []string
	for _, f := range genSpec(uint64(k)) {
		dir := fmt.Sprintf("r%d%s", k, at)
		_ = os.MkdirAll(dir, 0o755)
		if err := os.WriteFile(dir+"/"+f.name, f.content, 0o644); err != nil {
			panic(err)
		}
		out = append(out, dir+"/"+f.name)
	}
	return out
}

func hashOf(b []byte) string { return fmt.Sprintf("%x", sha256.Sum256(b))[:24] }

// load reads the inputs the way the command does, from their own directory so
// that references to dependencies resolve.
func load(in []string) (cg codegen.CodeGen, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	dir := filepath.Dir(in[0])
	if err := os.Chdir(dir); err != nil {
		return cg, err
	}
	defer os.Chdir("..")
	var deps []string
	for _, d := range in[1:] {
		deps = append(deps, filepath.Base(d))
	}
	return codegen.FromFile(filepath.Base(in[0]), deps...)
}

func fromFile(files []string) (codegen.CodeGen, error) {
	return codegen.FromFile(files[0], files[1:]...)
}

func generate(cg codegen.CodeGen, opt options.Options) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return cg.Generate(opt)
}

// produce is a whole generation: its outcome is the text written, or "error".
func produce(in []string, o int, out string) (res []byte, cg codegen.CodeGen, err error) {
	_ = os.Remove(out)
	return produceOver(in, o, out)
}

// produceOver leaves an earlier output in place.
func produceOver(in []string, o int, out string) (res []byte, cg codegen.CodeGen, err error) {
	cg, err = load(in)
	if err == nil {
		err = generate(cg, optionsOf(o, out))
	}
	if err != nil {
		return []byte("error"), cg, err
	}
	b, err := os.ReadFile(out)
	if err != nil {
		return []byte("no output"), cg, err
	}
	return b, cg, nil
}

// firstDiff shows where two texts part.
func firstDiff(a, b []byte) string {
	la, lb := strings.Split(string(a), "\n"), strings.Split(string(b), "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "<end>", "<end>"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("line %d: %.120q and %.120q", i+1, x, y)
		}
	}
	return "no difference"
}

// references are the outcomes of generations in processes of their own.
func references() map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile("../refs.json")
	if err == nil {
		err = json.Unmarshal(b, &m)
	}
	if err != nil {
		return nil
	}
	return m
}

func poolSize(args map[string]string) int {
	n := 0
	fmt.Sscan(args["pool"], &n)
	return n
}

func refKey(kind, k, o int) string { return fmt.Sprintf("%d/%d/%d", kind, k, o) }
