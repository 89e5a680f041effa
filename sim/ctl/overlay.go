package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// overlay collects replaced and added files for `go build -overlay`.
type overlay struct {
	root string // GOROOT/src
	out  string // directory for generated files
	rt   string // directory of the templates
	rep  map[string]string
}

type sub struct{ old, new string }

func (o *overlay) path(f string) string {
	return filepath.Join(o.out, strings.ReplaceAll(strings.TrimPrefix(f, "/"), "/", "__"))
}

func (o *overlay) write(dst, src string) {
	p := o.path(dst)
	if old, err := os.ReadFile(p); err != nil || string(old) != src {
		must(os.WriteFile(p, []byte(src), 0o644))
	}
	o.rep[dst] = p
}

func (o *overlay) patch(f string, subs ...sub) {
	f = filepath.Join(o.root, f)
	b, err := os.ReadFile(f)
	must(err)
	s := string(b)
	for _, x := range subs {
		if strings.Count(s, x.old) != 1 {
			fatalf("overlay: %s: %d matches for %q", f, strings.Count(s, x.old), x.old)
		}
		s = strings.Replace(s, x.old, x.new, 1)
	}
	o.write(f, s)
}

func (o *overlay) add(f, template string) {
	b, err := os.ReadFile(filepath.Join(o.rt, template))
	must(err)
	o.write(filepath.Join(o.root, f), string(b))
}

// std generates the patched standard library files.
func (o *overlay) std() {
	o.patch("runtime/proc.go",
		sub{`const haveSysmon = GOARCH != "wasm"`, `const haveSysmon = false`},
		sub{"	} else {\n		lock(&sched.lock)\n		globrunqput(gp)\n		unlock(&sched.lock)\n	}\n\n	if mainStarted {\n		wakep()\n	}\n\n	schedule()\n}\n\n// Gosched",
			"	} else if simOn {\n		runqput(pp, gp, false)\n	} else {\n		lock(&sched.lock)\n		globrunqput(gp)\n		unlock(&sched.lock)\n	}\n\n	if mainStarted {\n		wakep()\n	}\n\n	schedule()\n}\n\n// Gosched"},
		sub{"		gp := pp.runq[h%uint32(len(pp.runq))].ptr()\n		if atomic.CasRel(&pp.runqhead, h, h+1) { // cas-release, commits consume\n			return gp, false",
			"		if simOn {\n			simPick(pp, h, t)\n		}\n		gp := pp.runq[h%uint32(len(pp.runq))].ptr()\n		if atomic.CasRel(&pp.runqhead, h, h+1) { // cas-release, commits consume\n			return gp, false"},
		sub{"	// Poll network.\n	// This netpoll is only an optimization",
			"	if simOn && simIdle(pp) {\n		goto top\n	}\n\n	// Poll network.\n	// This netpoll is only an optimization"},
	)
	o.patch("runtime/time_nofake.go",
		sub{"var faketime int64\n", "var faketime int64 = 1700000000e9\n"},
		sub{"	return nanotime1()\n", "	return faketime\n"})
	o.patch("runtime/timeasm.go",
		sub{"func time_now() (sec int64, nsec int32, mono int64)\n",
			"func time_now() (sec int64, nsec int32, mono int64) {\n	w := faketime + simWall\n	return w / 1e9, int32(w % 1e9), faketime\n}\n"})
	o.rep[filepath.Join(o.root, "runtime/time_linux_amd64.s")] = ""
	o.patch("runtime/rand.go",
		sub{"	if len(startupRand) >= 16 &&",
			"	for i := range seed {\n		seed[i] = byte(i*7 + 1)\n	}\n	if true {\n	} else if len(startupRand) >= 16 &&"},
		sub{"	mp := getg().m\n	c := &mp.chacha8\n",
			"	if simOn {\n		return simRand()\n	}\n	mp := getg().m\n	c := &mp.chacha8\n"},
	)
	// cheaprand stays real: the runtime's locks use it when threads contend.
	// Its uses that the program can observe are simulated.
	cheap := sub{"cheaprand()", "simCheaprand()"}
	o.patch("runtime/sema.go", cheap)
	o.patch("runtime/select.go", sub{"cheaprandn(", "simCheaprandn("})
	o.patch("runtime/time.go", cheap, sub{"		if t.isFake {\n			// Re-randomize timer order.", "		if t.isFake || simOn {\n			// Re-randomize timer order."})
	o.add("runtime/zsim.go", "zsim_runtime.txt")

	// Cancellation order of sibling contexts: registration order, not the
	// order of a map keyed by pointers.
	o.patch("context/context.go",
		sub{"	children map[canceler]struct{} // set", "	simSeq   uint64\n	children map[canceler]uint64 // set"},
		sub{"				p.children = make(map[canceler]struct{})\n", "				p.children = make(map[canceler]uint64)\n"},
		sub{"			p.children[child] = struct{}{}\n", "			p.simSeq++\n			p.children[child] = p.simSeq\n"},
		sub{"	for child := range c.children {\n", "	for _, child := range simSorted(c.children) {\n"},
	)
	o.write(filepath.Join(o.root, "context/zsim.go"), `package context

func simSorted(m map[canceler]uint64) []canceler {
	keys := make([]canceler, 0, len(m))
	for k := range m {
		i := len(keys)
		keys = append(keys, k)
		for i > 0 && m[keys[i-1]] > m[k] {
			keys[i] = keys[i-1]
			i--
		}
		keys[i] = k
	}
	return keys
}
`)
	// crypto/rand and everything else that asks the kernel for entropy.
	o.patch("crypto/internal/sysrand/rand.go",
		sub{"func Read(b []byte) {\n", "func Read(b []byte) {\n	if true {\n		for i := range b {\n			b[i] = byte(runtime_simrand() >> 24)\n		}\n		return\n	}\n"})
	o.write(filepath.Join(o.root, "crypto/internal/sysrand/zsim.go"), "package sysrand\n\nimport _ \"unsafe\"\n\n//go:linkname runtime_simrand runtime.rand\nfunc runtime_simrand() uint64\n")

	// The network: every dial of the program.
	o.patch("net/dial.go",
		sub{"func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n",
			"func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n	if SimDial != nil {\n		c, cancel := d.dialCtx(ctx)\n		defer cancel()\n		return SimDial(c, network, address)\n	}\n"})
	o.write(filepath.Join(o.root, "net/zsim.go"), "package net\n\nimport \"context\"\n\n// SimDial replaces dialing.\nvar SimDial func(ctx context.Context, network, address string) (Conn, error)\n")

	o.syscalls()
}

func (o *overlay) syscalls() {
	hook := func(sig, cond, call string) sub {
		return sub{sig + " {\n", sig + " {\n	if " + cond + " {\n		" + call + "\n	}\n"}
	}
	ret := func(c string) string { return "return Sim." + c }
	p := "SimPath(dirfd, path)"
	o.patch("syscall/zsyscall_linux_amd64.go",
		hook("func faccessat(dirfd int, path string, mode uint32) (err error)", p, "var st Stat_t\n		return Sim.Stat(dirfd, path, &st, 0)"),
		hook("func faccessat2(dirfd int, path string, mode uint32, flags int) (err error)", p, "var st Stat_t\n		return Sim.Stat(dirfd, path, &st, 0)"),
		hook("func fchmodat(dirfd int, path string, mode uint32) (err error)", p, ret("Chmod(dirfd, path)")),
		hook("func linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flags int) (err error)", "SimPath(olddirfd, oldpath)", ret("Link(olddirfd, oldpath, newdirfd, newpath)")),
		hook("func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error)", p, ret("Open(dirfd, path, flags, mode)")),
		hook("func unlinkat(dirfd int, path string, flags int) (err error)", p, ret("Unlink(dirfd, path, flags)")),
		hook("func utimensat(dirfd int, path string, times *[2]Timespec, flag int) (err error)", p, ret("Utimens(dirfd, path, times)")),
		hook("func Close(fd int) (err error)", "simFd(fd)", ret("Close(fd)")),
		hook("func Fchmod(fd int, mode uint32) (err error)", "simFd(fd)", "return nil"),
		hook("func fcntl(fd int, cmd int, arg int) (val int, err error)", "simFd(fd)", "return 0, nil"),
		hook("func Fdatasync(fd int) (err error)", "simFd(fd)", ret("Fsync(fd)")),
		hook("func Fsync(fd int) (err error)", "simFd(fd)", ret("Fsync(fd)")),
		hook("func Getdents(fd int, buf []byte) (n int, err error)", "simFd(fd)", ret("Getdents(fd, buf)")),
		hook("func Mkdirat(dirfd int, path string, mode uint32) (err error)", p, ret("Mkdir(dirfd, path, mode)")),
		hook("func read(fd int, p []byte) (n int, err error)", "simFd(fd)", ret("Read(fd, p)")),
		hook("func write(fd int, p []byte) (n int, err error)", "simFd(fd)", ret("Write(fd, p)")),
		hook("func Fstat(fd int, stat *Stat_t) (err error)", "simFd(fd)", ret("Fstat(fd, stat)")),
		hook("func Ftruncate(fd int, length int64) (err error)", "simFd(fd)", ret("Ftruncate(fd, length)")),
		hook("func pread(fd int, p []byte, offset int64) (n int, err error)", "simFd(fd)", ret("Pread(fd, p, offset)")),
		hook("func pwrite(fd int, p []byte, offset int64) (n int, err error)", "simFd(fd)", ret("Pwrite(fd, p, offset)")),
		hook("func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error)", "SimPath(olddirfd, oldpath)", ret("Rename(olddirfd, oldpath, newdirfd, newpath)")),
		hook("func Seek(fd int, offset int64, whence int) (off int64, err error)", "simFd(fd)", ret("Seek(fd, offset, whence)")),
		hook("func Truncate(path string, length int64) (err error)", "SimPath(0, path)", ret("Truncate(path, length)")),
		hook("func fstatat(fd int, path string, stat *Stat_t, flags int) (err error)", "SimPath(fd, path)", ret("Stat(fd, path, stat, flags)")),
	)
	o.add("syscall/zsim.go", "zsim_syscall.txt")
	ux := func(sig, call string) sub {
		return sub{sig + " {\n", sig + " {\n	if syscall.SimPath(dirfd, path) {\n		return syscall.Sim." + call + "\n	}\n"}
	}
	o.patch("internal/syscall/unix/at.go",
		ux("func Unlinkat(dirfd int, path string, flags int) error", "Unlink(dirfd, path, flags)"),
		ux("func Openat(dirfd int, path string, flags int, perm uint32) (int, error)", "Open(dirfd, path, flags, perm)"),
		ux("func Mkdirat(dirfd int, path string, mode uint32) error", "Mkdir(dirfd, path, mode)"),
	)
	o.patch("internal/syscall/unix/at_fstatat.go",
		sub{"func Fstatat(dirfd int, path string, stat *syscall.Stat_t, flags int) error {\n",
			"func Fstatat(dirfd int, path string, stat *syscall.Stat_t, flags int) error {\n	if syscall.SimPath(dirfd, path) {\n		return syscall.Sim.Stat(dirfd, path, stat, flags)\n	}\n"})
}

func (o *overlay) save(file string) {
	b, err := json.MarshalIndent(map[string]any{"Replace": o.rep}, "", " ")
	must(err)
	must(os.WriteFile(file, b, 0o644))
}

func must(err error) {
	if err != nil {
		fatalf("%v", err)
	}
}

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simctl: "+f+"\n", a...)
	os.Exit(2)
}
