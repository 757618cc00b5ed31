// Package rtpatch produces the build overlay that puts the Go scheduler, the
// clock, the random sources and the network dialer of a simulation binary
// under the control of the simulator. Nothing of it touches the installed
// toolchain: patched copies are written to a scratch directory and handed to
// `go build -overlay`.
package rtpatch

import (
	_ "embed"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

//go:embed zz_sim.go.txt
var simRuntime string

type edit struct{ old, new string }

var patches = map[string][]edit{
	"runtime/proc.go": {
		{"	pp := mp.p.ptr()\n	if sched.gcwaiting.Load() {\n		gcstopm()\n		goto top\n	}\n	if pp.runSafePointFn != 0 {\n		runSafePointFn()\n	}\n\n	// now and pollUntil are saved",
			"	pp := mp.p.ptr()\n	if simOn && !sched.gcwaiting.Load() {\n		return simFind(pp), false, false\n	}\n	if sched.gcwaiting.Load() {\n		gcstopm()\n		goto top\n	}\n	if pp.runSafePointFn != 0 {\n		runSafePointFn()\n	}\n\n	// now and pollUntil are saved"},
		{"func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n	if simOn {\n		return 0\n	}\n"},
		{"func preemptone(pp *p) bool {\n", "func preemptone(pp *p) bool {\n	if simOn {\n		return false\n	}\n"},
		{"		if mainStarted {\n			wakep()\n		}\n	})\n}", "		if mainStarted {\n			wakep()\n		}\n	})\n	simChanYield(9)\n}"},
	},
	"runtime/stack.go": {
		{"		if !canPreemptM(thisg.m) {\n", "		if !canPreemptM(thisg.m) || (simOn && !sched.gcwaiting.Load() && !gp.preemptStop && !gp.preemptShrink) {\n			gp.preempt = false\n"},
	},
	"runtime/rand.go": {
		{"func rand() uint64 {\n", "func rand() uint64 {\n	if getg().m.p != 0 {\n		return simRand()\n	}\n"},
		{"	mp.cheaprand = rand()\n", "	mp.cheaprand = 0x9e3779b97f4a7c15\n"},
		{"	seed := &globalRand.seed\n", "	seed := &globalRand.seed\n	for i := range startupRand {\n		startupRand[i] = byte(i + 1)\n	}\n"},
	},
	"runtime/select.go": {
		{"j := cheaprandn(uint32(norder + 1))", "j := simSelectRand(uint32(norder + 1))"},
		{"	gp := getg()\n	if debugSelect {", "	simChanYield(1)\n	gp := getg()\n	if debugSelect {"},
	},
	"runtime/chan.go": {
		{"//go:nosplit\nfunc chansend1(c *hchan, elem unsafe.Pointer) {\n	chansend(c, elem, true, sys.GetCallerPC())\n", "func chansend1(c *hchan, elem unsafe.Pointer) {\n	simChanYield(2)\n	chansend(c, elem, true, sys.GetCallerPC())\n	simChanYield(6)\n"},
		{"//go:nosplit\nfunc chanrecv1(c *hchan, elem unsafe.Pointer) {\n	chanrecv(c, elem, true)\n", "func chanrecv1(c *hchan, elem unsafe.Pointer) {\n	simChanYield(3)\n	chanrecv(c, elem, true)\n"},
		{"//go:nosplit\nfunc chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n", "func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n	simChanYield(4)\n"},
	},
	"runtime/time_fake.go": {
		{"	if !(fd == 1 || fd == 2) {\n", "	if true {\n"},
	},
	"sync/mutex.go": {
		{"func (m *Mutex) Lock() {\n	m.mu.Lock()\n}", "func (m *Mutex) Lock() {\n	runtime_simYield(1)\n	m.mu.Lock()\n}"},
		{"func (m *Mutex) Unlock() {\n	m.mu.Unlock()\n}", "func (m *Mutex) Unlock() {\n	m.mu.Unlock()\n	runtime_simYield(2)\n}"},
	},
	"sync/rwmutex.go": {
		{"func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n	runtime_simYield(3)\n"},
		{"func (rw *RWMutex) RUnlock() {\n", "func (rw *RWMutex) RUnlock() {\n	defer runtime_simYield(4)\n"},
		{"func (rw *RWMutex) Lock() {\n", "func (rw *RWMutex) Lock() {\n	runtime_simYield(5)\n"},
		{"func (rw *RWMutex) Unlock() {\n", "func (rw *RWMutex) Unlock() {\n	defer runtime_simYield(6)\n"},
	},
	"crypto/internal/sysrand/rand.go": {
		{"func Read(b []byte) {\n", "func Read(b []byte) {\n	if simFill(b) {\n		return\n	}\n"},
		{"var testingOnlyFailRead bool\n", "var testingOnlyFailRead bool\n\n//go:linkname simFill\nfunc simFill(b []byte) bool\n"},
	},
	"net/dial.go": {
		{"		panic(\"nil context\")\n	}\n	deadline := d.deadline(ctx, time.Now())", "		panic(\"nil context\")\n	}\n	if SimDial != nil {\n		return SimDial(ctx, d, network, address)\n	}\n	deadline := d.deadline(ctx, time.Now())"},
		{"// A Dialer contains options for connecting to an address.", "// SimDial replaces dialing in simulation binaries.\nvar SimDial func(ctx context.Context, d *Dialer, network, address string) (Conn, error)\n\n// A Dialer contains options for connecting to an address."},
	},
	"syscall/syscall_unix.go": {
		{"func Read(fd int, p []byte) (n int, err error) {\n", "// SimIO, when set, is asked before every file operation: it may fail it or\n// limit its length.\nvar SimIO func(op, path string, fd, n int) (int, Errno)\n\nfunc Read(fd int, p []byte) (n int, err error) {\n	if SimIO != nil && fd > 2 {\n		k, e := SimIO(\"read\", \"\", fd, len(p))\n		if e != 0 {\n			return -1, e\n		}\n		p = p[:k]\n	}\n"},
		{"func Write(fd int, p []byte) (n int, err error) {\n", "// SimOut, when set, gets what is written to the standard output and error.\nvar SimOut func(fd int, p []byte)\n\nfunc Write(fd int, p []byte) (n int, err error) {\n	if SimOut != nil && (fd == 1 || fd == 2) {\n		SimOut(fd, p)\n		return len(p), nil\n	}\n	if SimIO != nil && fd > 2 {\n		k, e := SimIO(\"write\", \"\", fd, len(p))\n		if e != 0 {\n			return -1, e\n		}\n		p = p[:k]\n	}\n"},
		{"func Pread(fd int, p []byte, offset int64) (n int, err error) {\n", "func Pread(fd int, p []byte, offset int64) (n int, err error) {\n	if SimIO != nil && fd > 2 {\n		k, e := SimIO(\"read\", \"\", fd, len(p))\n		if e != 0 {\n			return -1, e\n		}\n		p = p[:k]\n	}\n"},
		{"func Pwrite(fd int, p []byte, offset int64) (n int, err error) {\n", "func Pwrite(fd int, p []byte, offset int64) (n int, err error) {\n	if SimIO != nil && fd > 2 {\n		k, e := SimIO(\"write\", \"\", fd, len(p))\n		if e != 0 {\n			return -1, e\n		}\n		p = p[:k]\n	}\n"},
	},
	"syscall/syscall_linux.go": {
		{"func Open(path string, mode int, perm uint32) (fd int, err error) {\n	return openat(_AT_FDCWD, path, mode|O_LARGEFILE, perm)\n}", "func Open(path string, mode int, perm uint32) (fd int, err error) {\n	if SimIO != nil {\n		if _, e := SimIO(\"open\", path, mode, 0); e != 0 {\n			return -1, e\n		}\n		fd, err = openat(_AT_FDCWD, path, mode|O_LARGEFILE, perm)\n		if err == nil {\n			SimIO(\"opened\", path, fd, mode)\n		}\n		return fd, err\n	}\n	return openat(_AT_FDCWD, path, mode|O_LARGEFILE, perm)\n}"},
		{"func Pipe2(p []int, flags int) error {\n", "func Pipe2(p []int, flags int) error {\n	if SimIO != nil {\n		return ENOSYS\n	}\n"},
		{"func Rename(oldpath string, newpath string) (err error) {\n", "func Rename(oldpath string, newpath string) (err error) {\n	if SimIO != nil {\n		if _, e := SimIO(\"rename\", newpath, -1, 0); e != 0 {\n			return e\n		}\n	}\n"},
	},
	"syscall/zsyscall_linux_amd64.go": {
		{"func Close(fd int) (err error) {\n", "func Close(fd int) (err error) {\n	if SimIO != nil && fd > 2 {\n		if _, e := SimIO(\"close\", \"\", fd, 0); e != 0 {\n			Syscall(SYS_CLOSE, uintptr(fd), 0, 0)\n			return e\n		}\n	}\n"},
		{"func Fsync(fd int) (err error) {\n", "func Fsync(fd int) (err error) {\n	if SimIO != nil && fd > 2 {\n		if _, e := SimIO(\"fsync\", \"\", fd, 0); e != 0 {\n			return e\n		}\n	}\n"},
	},
	"sync/runtime.go": {
		{"func throw(string)", "func throw(string)\n\nfunc runtime_simYield(kind int)"},
	},
}

// Write writes the patched files below dir and returns the overlay entries.
func Write(goroot, dir string) (map[string]string, error) {
	out := map[string]string{}
	put := func(rel, content string) error {
		dst := filepath.Join(dir, strings.ReplaceAll(rel, "/", "__"))
		if err := os.WriteFile(dst, []byte(content), 0o644); err != nil {
			return err
		}
		out[filepath.Join(goroot, "src", rel)] = dst
		return nil
	}
	for rel, edits := range patches {
		b, err := os.ReadFile(filepath.Join(goroot, "src", rel))
		if err != nil {
			return nil, err
		}
		s := string(b)
		for _, e := range edits {
			if strings.Count(s, e.old) != 1 {
				return nil, fmt.Errorf("runtime patch of %s does not apply: %d matches of %q", rel, strings.Count(s, e.old), e.old)
			}
			s = strings.Replace(s, e.old, e.new, 1)
		}
		if err := put(rel, s); err != nil {
			return nil, err
		}
	}
	if err := put("runtime/zz_sim.go", simRuntime); err != nil {
		return nil, err
	}
	return out, nil
}
