package main

import (
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verifsim/plan"
)

// simfs is a file system in memory with a volatile and a durable state.
//
// What survives a crash: the content of a file as of its last fsync, plus an
// arbitrary torn part of what was written since; the entries of a directory
// as of its last fsync, plus an arbitrary subset of the updates made since.
// Every open of the store uses its own mount path "/simfs/<epoch>/", so calls
// of a crashed incarnation are recognised and never return.
type simfs struct {
	e     *Env
	root  *inode
	ino   uint64
	fds   map[int]*openFile
	next  int
	epoch int
	ep    *plan.Epoch
	lat   int
	short int
	eintr int
	calls int // calls of this epoch
	rnd   uint64
	dead  map[int]bool // crashed epochs
	nth   map[string]int
	fired []firedFault
	crash chan struct{}
	noFlt bool
	seq   uint64

	snaps   []dirSnap
	unlinks []unlinkRec
	busy    int // calls in progress
	bases   []fdBase
	onCall  func(name, path string)
}

type firedFault struct {
	at   time.Duration
	call string
	path string
	err  string
}

type inode struct {
	id      uint64
	dir     bool
	data    []byte
	mtime   time.Time
	durable []byte
	synced  bool // ever fsynced
	writes  []wr
	wseq    uint64

	ents  map[string]*inode
	dents map[string]*inode
	ops   []dirOp
}

type wr struct {
	off  int64
	data []byte
	size int64 // truncation to size if data is nil
	seq  uint64
}

type dirOp struct {
	kind     string // set, del, ren
	name, to string
	ino      *inode
	seq      uint64
}

type openFile struct {
	ino    *inode
	path   string
	off    int64
	flags  int
	epoch  int
	cursor uint64
	begun  bool
	fail   error
}

// dirSnap is the content of the root directory after a change.
type dirSnap struct {
	at   time.Duration
	ents map[string]entInfo
}

type entInfo struct {
	ino   uint64
	size  int64
	mtime time.Time
	dir   bool
}

type fdBase struct{ fd, epoch int }

type unlinkRec struct {
	at   time.Duration
	wall time.Time
	name string
	info entInfo
}

func newSimfs(e *Env) *simfs {
	f := &simfs{e: e, fds: map[int]*openFile{}, next: syscall.SimFdBase, dead: map[int]bool{}, nth: map[string]int{}, rnd: e.P.Seed}
	f.root = f.newInode(true)
	f.root.dents = map[string]*inode{}
	return f
}

func (f *simfs) newInode(dir bool) *inode {
	f.ino++
	n := &inode{id: f.ino, dir: dir, mtime: wallNow()}
	if dir {
		n.ents = map[string]*inode{}
		n.dents = map[string]*inode{}
	}
	return n
}

func (f *simfs) random() uint64 {
	f.rnd = mix(f.rnd, 0x51f5)
	return f.rnd
}

// mount starts an epoch.
func (f *simfs) mount(ep *plan.Epoch) string {
	f.epoch++
	f.ep = ep
	f.calls = 0
	f.nth = map[string]int{}
	f.crash = make(chan struct{})
	f.bases = append(f.bases, fdBase{f.next, f.epoch})
	return "/simfs/" + itoa(f.epoch) + "/cache"
}

func isTmp(name string) bool { return strings.HasSuffix(name, ".tmp") }

func (f *simfs) snap() {
	m := make(map[string]entInfo, len(f.root.ents))
	for k, n := range f.root.ents {
		m[k] = entInfo{n.id, int64(len(n.data)), n.mtime, n.dir}
	}
	f.snaps = append(f.snaps, dirSnap{f.e.Now(), m})
}

// enter accounts for a call; it blocks calls of dead incarnations, injects the
// crash, the latency and faults.
func (f *simfs) enter(name, path string, epoch int, can bool) error {
	if f.dead[epoch] {
		select {}
	}
	if epoch == f.epoch && f.ep != nil && can {
		f.calls++
		if f.ep.CrashAt > 0 && f.calls == f.ep.CrashAt {
			f.doCrash()
			select {}
		}
	}
	if f.onCall != nil {
		f.onCall(name, path)
	}
	if f.lat > 0 {
		if d := int(f.random() % uint64(f.lat+1)); d > 0 {
			if f.random()%4 == 0 {
				d /= 50
			}
			f.busy++
			time.Sleep(us(d))
			f.busy--
			if f.dead[epoch] {
				select {}
			}
		}
	}
	if f.noFlt {
		return nil
	}
	if f.eintr > 0 && eintrable[name] && int(f.random()%1000) < f.eintr {
		f.e.Fault("eintr " + name)
		return syscall.EINTR
	}
	if epoch == f.epoch && f.ep != nil {
		f.nth[name]++
		n := f.nth[name]
		for i := range f.ep.Faults {
			x := &f.ep.Faults[i]
			if x.Call != name || n < x.Nth || x.Name != "" && !strings.HasSuffix(path, "/"+x.Name) {
				continue
			}
			cnt := x.Count
			if cnt == 0 {
				cnt = 1
			}
			if cnt > 0 && n >= x.Nth+cnt {
				continue
			}
			f.fired = append(f.fired, firedFault{f.e.Now(), name, path, x.Err})
			f.e.Fault(name + " " + x.Err)
			if x.Short > 0 {
				return shortErr{x.Short, errnoOf(x.Err)}
			}
			return errnoOf(x.Err)
		}
	}
	return nil
}

var eintrable = map[string]bool{"open": true, "opendir": true, "create": true, "read": true, "write": true, "fsync": true, "fsyncdir": true, "rename": true, "unlink": true, "stat": true, "fstat": true, "getdents": true}

type shortErr struct {
	n   int
	err error
}

func (s shortErr) Error() string { return s.err.Error() }

func errnoOf(s string) error {
	switch s {
	case "ENOSPC":
		return syscall.ENOSPC
	case "EMFILE":
		return syscall.EMFILE
	case "EACCES":
		return syscall.EACCES
	case "EROFS":
		return syscall.EROFS
	case "EDQUOT":
		return syscall.EDQUOT
	case "ESTALE":
		return syscall.ESTALE
	case "EINVAL":
		return syscall.EINVAL
	}
	return syscall.EIO
}

func (f *simfs) faultIn(from time.Duration, calls ...string) bool {
	for i := len(f.fired) - 1; i >= 0; i-- {
		x := f.fired[i]
		if x.at < from {
			return false
		}
		if len(calls) == 0 {
			return true
		}
		for _, c := range calls {
			if c == x.call {
				return true
			}
		}
	}
	return false
}

// faultOn reports faults of a call on a file.
func (f *simfs) faultOn(from time.Duration, name, call string) bool {
	for _, x := range f.fired {
		if x.at >= from && x.call == call && strings.HasSuffix(x.path, "/"+name) {
			return true
		}
	}
	return false
}

// doCrash stops the incarnation and reduces the file system to what survives.
func (f *simfs) doCrash() {
	e := f.e
	e.Fault("crash")
	f.dead[f.epoch] = true
	r := mix(f.ep.Torn, 77)
	next := func(n int) int {
		r = mix(r, 3)
		return int(r>>11) % n
	}
	seen := map[*inode]bool{}
	var walk func(d *inode)
	walk = func(d *inode) {
		if seen[d] {
			return
		}
		seen[d] = true
		// Directory updates.
		mode := next(4)
		lost := 0
		cut := 0
		if len(d.ops) > 0 {
			cut = next(len(d.ops) + 1)
		}
		for i, op := range d.ops {
			keep := false
			switch mode {
			case 0:
				keep = true
			case 1:
			case 2:
				keep = i < cut
			case 3:
				keep = next(2) == 0
			}
			if keep {
				applyDir(d.dents, op)
			} else {
				lost++
			}
		}
		if lost > 0 {
			e.Fault("directory update lost in crash")
		}
		d.ops = nil
		d.ents = map[string]*inode{}
		names := make([]string, 0, len(d.dents))
		for k := range d.dents {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			n := d.dents[k]
			d.ents[k] = n
			if n.dir {
				walk(n)
				continue
			}
			if seen[n] {
				continue
			}
			seen[n] = true
			if len(n.writes) > 0 {
				f.tear(n, next)
			}
			n.writes = nil
			n.data = append([]byte(nil), n.durable...)
			n.synced = true
		}
	}
	walk(f.root)
	for fd, o := range f.fds {
		if o.epoch == f.epoch {
			delete(f.fds, fd)
		}
	}
	f.snap()
	close(f.crash)
}

func (f *simfs) tear(n *inode, next func(int) int) {
	mode := next(5)
	f.e.Fault([]string{"unsynced data survived crash", "unsynced data lost in crash", "write torn by crash", "data zeroed by crash", "writes lost in crash"}[mode])
	for _, w := range n.writes {
		switch mode {
		case 1:
			continue
		case 2:
			if w.data != nil && len(w.data) > 0 {
				w.data = w.data[:next(len(w.data))]
			}
		case 3:
			if w.data != nil {
				w.data = make([]byte, len(w.data))
			}
		case 4:
			if next(2) == 0 {
				continue
			}
		}
		n.durable = applyWrite(n.durable, w)
	}
}

func applyWrite(b []byte, w wr) []byte {
	if w.data == nil {
		if int64(len(b)) > w.size {
			return append([]byte(nil), b[:w.size]...)
		}
		return append(append([]byte(nil), b...), make([]byte, w.size-int64(len(b)))...)
	}
	end := w.off + int64(len(w.data))
	if int64(len(b)) < end {
		b = append(append(make([]byte, 0, end), b...), make([]byte, end-int64(len(b)))...)
	} else {
		b = append([]byte(nil), b...)
	}
	copy(b[w.off:], w.data)
	return b
}

func applyDir(m map[string]*inode, op dirOp) {
	switch op.kind {
	case "set":
		m[op.name] = op.ino
	case "del":
		if m[op.name] == op.ino {
			delete(m, op.name)
		}
	case "ren":
		if m[op.name] == op.ino {
			delete(m, op.name)
		}
		m[op.to] = op.ino
	}
}

// lookup resolves a path to its directory and name; name "" is the directory
// itself.
func (f *simfs) lookup(dirfd int, path string) (dir *inode, name string, epoch int, err error) {
	var parts []string
	path = strings.Clone(path) // names are kept
	if strings.HasPrefix(path, "/simfs") {
		parts = strings.FieldsFunc(path, func(c rune) bool { return c == '/' })[1:]
		if len(parts) == 0 {
			return nil, "", f.epoch, syscall.EACCES
		}
		for _, c := range parts[0] {
			if c < '0' || c > '9' {
				return nil, "", f.epoch, syscall.ENOENT
			}
			epoch = epoch*10 + int(c-'0')
		}
		parts = parts[1:]
		if len(parts) == 0 {
			return nil, "", epoch, syscall.EACCES
		}
		if parts[0] != "cache" {
			if parts[0] == "file" && len(parts) == 1 {
				return f.root, "\x00file", epoch, nil
			}
			return nil, "", epoch, syscall.ENOENT
		}
		parts = parts[1:]
		dir = f.root
	} else {
		o := f.fds[dirfd]
		if o == nil {
			return nil, "", f.epoch, syscall.EBADF
		}
		if !o.ino.dir {
			return nil, "", o.epoch, syscall.ENOTDIR
		}
		dir, epoch = o.ino, o.epoch
		parts = strings.FieldsFunc(path, func(c rune) bool { return c == '/' })
	}
	for len(parts) > 0 && parts[0] == "." {
		parts = parts[1:]
	}
	if len(parts) == 0 {
		return dir, "", epoch, nil
	}
	for _, p := range parts[:len(parts)-1] {
		n := dir.ents[p]
		if n == nil {
			return nil, "", epoch, syscall.ENOENT
		}
		if !n.dir {
			return nil, "", epoch, syscall.ENOTDIR
		}
		dir = n
	}
	return dir, parts[len(parts)-1], epoch, nil
}

func (f *simfs) find(dir *inode, name string) *inode {
	if name == "" {
		return dir
	}
	if name == "\x00file" {
		return &inode{id: 1 << 40, data: []byte("file"), mtime: time.Unix(startNano/1e9, 0)}
	}
	return dir.ents[name]
}

func (f *simfs) op(d *inode, o dirOp) {
	f.seq++
	o.seq = f.seq
	d.ops = append(d.ops, o)
	applyDir(d.ents, o)
	d.mtime = wallNow()
	if d == f.root {
		f.snap()
	}
}

// Open implementation.
func (f *simfs) Open(dirfd int, path string, flags int, mode uint32) (int, error) {
	dir, name, epoch, err := f.lookup(dirfd, path)
	if err != nil {
		return -1, err
	}
	kind := "open"
	if flags&syscall.O_CREAT != 0 {
		kind = "create"
	} else if n := f.find(dir, name); n != nil && n.dir {
		kind = "opendir"
	}
	if err := f.enter(kind, path, epoch, true); err != nil {
		return -1, unshort(err)
	}
	if len(name) > 255 {
		return -1, syscall.ENAMETOOLONG
	}
	n := f.find(dir, name)
	switch {
	case n == nil && flags&syscall.O_CREAT == 0:
		return -1, syscall.ENOENT
	case n != nil && flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0:
		return -1, syscall.EEXIST
	case n != nil && n.dir && flags&(syscall.O_WRONLY|syscall.O_RDWR) != 0:
		return -1, syscall.EISDIR
	case n != nil && !n.dir && flags&syscall.O_DIRECTORY != 0:
		return -1, syscall.ENOTDIR
	}
	if n == nil {
		n = f.newInode(false)
		f.op(dir, dirOp{kind: "set", name: name, ino: n})
	} else if flags&syscall.O_TRUNC != 0 && !n.dir {
		f.write(n, wr{size: 0})
	}
	fd := f.next
	f.next++
	f.fds[fd] = &openFile{ino: n, path: path, flags: flags, epoch: epoch}
	f.e.Logf("open %s = %d", path, fd-syscall.SimFdBase)
	return fd, nil
}

func unshort(err error) error {
	if s, ok := err.(shortErr); ok {
		return s.err
	}
	return err
}

func (f *simfs) write(n *inode, w wr) {
	n.wseq++
	w.seq = n.wseq
	n.writes = append(n.writes, w)
	n.data = applyWrite(n.data, w)
	n.mtime = wallNow()
	for _, x := range f.root.ents {
		if x == n {
			f.snap()
			break
		}
	}
}

func (f *simfs) fd(fd int) (*openFile, error) {
	if o := f.fds[fd]; o != nil {
		return o, nil
	}
	// A descriptor of a crashed incarnation is gone with its process.
	if f.gone(fd) {
		select {}
	}
	f.e.Probe("bad descriptor")
	return nil, syscall.EBADF
}

func (f *simfs) gone(fd int) bool { return len(f.dead) > 0 && fd < f.next && f.dead[f.epochOf(fd)] }

func (f *simfs) epochOf(fd int) int {
	for i := len(f.bases) - 1; i >= 0; i-- {
		if fd >= f.bases[i].fd {
			return f.bases[i].epoch
		}
	}
	return 0
}

// Unlink implementation.
func (f *simfs) Unlink(dirfd int, path string, flags int) error {
	dir, name, epoch, err := f.lookup(dirfd, path)
	if err != nil {
		return err
	}
	n := f.find(dir, name)
	if n != nil && n.dir != (flags&0x200 != 0) {
		if n.dir {
			return syscall.EISDIR
		}
		return syscall.ENOTDIR
	}
	if err := f.enter("unlink", path, epoch, true); err != nil {
		return unshort(err)
	}
	n = f.find(dir, name)
	if n == nil || name == "" {
		return syscall.ENOENT
	}
	if n.dir && len(n.ents) > 0 {
		return syscall.ENOTEMPTY
	}
	if dir == f.root {
		f.unlinks = append(f.unlinks, unlinkRec{f.e.Now(), wallNow(), name, entInfo{n.id, int64(len(n.data)), n.mtime, n.dir}})
	}
	f.op(dir, dirOp{kind: "del", name: name, ino: n})
	f.e.Logf("unlink %s", path)
	return nil
}

// Mkdir implementation.
func (f *simfs) Mkdir(dirfd int, path string, mode uint32) error {
	dir, name, epoch, err := f.lookup(dirfd, path)
	if err != nil {
		return err
	}
	if err := f.enter("mkdir", path, epoch, true); err != nil {
		return unshort(err)
	}
	if f.find(dir, name) != nil {
		return syscall.EEXIST
	}
	f.op(dir, dirOp{kind: "set", name: name, ino: f.newInode(true)})
	return nil
}

// Rename implementation.
func (f *simfs) Rename(olddirfd int, oldpath string, newdirfd int, newpath string) error {
	_, _, epoch, err := f.lookup(olddirfd, oldpath)
	if err != nil {
		return err
	}
	if err := f.enter("rename", newpath, epoch, true); err != nil {
		return unshort(err)
	}
	od, on, _, err := f.lookup(olddirfd, oldpath)
	if err != nil {
		return err
	}
	nd, nn, _, err := f.lookup(newdirfd, newpath)
	if err != nil {
		return err
	}
	n := f.find(od, on)
	if n == nil || on == "" || nn == "" {
		return syscall.ENOENT
	}
	if t := f.find(nd, nn); t != nil && t.dir != n.dir {
		if t.dir {
			return syscall.EISDIR
		}
		return syscall.ENOTDIR
	}
	if od == nd {
		f.op(od, dirOp{kind: "ren", name: on, to: nn, ino: n})
	} else {
		f.op(nd, dirOp{kind: "set", name: nn, ino: n})
		f.op(od, dirOp{kind: "del", name: on, ino: n})
	}
	f.e.Logf("rename %s %s", oldpath, newpath)
	return nil
}

// Link implementation.
func (f *simfs) Link(olddirfd int, oldpath string, newdirfd int, newpath string) error {
	od, on, epoch, err := f.lookup(olddirfd, oldpath)
	if err != nil {
		return err
	}
	if err := f.enter("link", newpath, epoch, true); err != nil {
		return unshort(err)
	}
	nd, nn, _, err := f.lookup(newdirfd, newpath)
	if err != nil {
		return err
	}
	n := f.find(od, on)
	if n == nil {
		return syscall.ENOENT
	}
	if f.find(nd, nn) != nil {
		return syscall.EEXIST
	}
	f.op(nd, dirOp{kind: "set", name: nn, ino: n})
	return nil
}

func (f *simfs) fill(n *inode, st *syscall.Stat_t) {
	*st = syscall.Stat_t{Ino: n.id, Nlink: 1, Mode: syscall.S_IFREG | 0o600, Size: int64(len(n.data)), Dev: 77}
	if n.dir {
		st.Mode = syscall.S_IFDIR | 0o700
		st.Size = 4096
	}
	st.Mtim = syscall.NsecToTimespec(n.mtime.UnixNano())
	st.Ctim, st.Atim = st.Mtim, st.Mtim
}

// Stat implementation.
func (f *simfs) Stat(dirfd int, path string, st *syscall.Stat_t, flags int) error {
	_, _, epoch, err := f.lookup(dirfd, path)
	if err != nil {
		return err
	}
	if err := f.enter("stat", path, epoch, true); err != nil {
		return unshort(err)
	}
	dir, name, _, err := f.lookup(dirfd, path)
	if err != nil {
		return err
	}
	n := f.find(dir, name)
	if n == nil {
		return syscall.ENOENT
	}
	f.fill(n, st)
	return nil
}

// Truncate implementation.
func (f *simfs) Truncate(path string, length int64) error {
	dir, name, epoch, err := f.lookup(0, path)
	if err != nil {
		return err
	}
	if err := f.enter("truncate", path, epoch, true); err != nil {
		return unshort(err)
	}
	n := f.find(dir, name)
	if n == nil {
		return syscall.ENOENT
	}
	f.write(n, wr{size: length})
	return nil
}

// Utimens implementation.
func (f *simfs) Utimens(dirfd int, path string, times *[2]syscall.Timespec) error {
	dir, name, epoch, err := f.lookup(dirfd, path)
	if err != nil {
		return err
	}
	if err := f.enter("utimens", path, epoch, true); err != nil {
		return unshort(err)
	}
	n := f.find(dir, name)
	if n == nil {
		return syscall.ENOENT
	}
	n.mtime = time.Unix(times[1].Sec, times[1].Nsec)
	if dir == f.root {
		f.snap()
	}
	return nil
}

// Chmod implementation.
func (f *simfs) Chmod(dirfd int, path string) error { return nil }

// Close implementation.
func (f *simfs) Close(fd int) error {
	o, err := f.fd(fd)
	if err != nil {
		return err
	}
	if f.dead[o.epoch] {
		select {}
	}
	delete(f.fds, fd) // also when it fails, as on Linux
	return unshort(f.enter("close", o.path, o.epoch, true))
}

func (f *simfs) limit(n int) int {
	if f.short > 0 && n > f.short {
		m := 1 + int(f.random()%uint64(f.short))
		f.e.Fault("short transfer")
		return m
	}
	return n
}

// Read implementation.
func (f *simfs) Read(fd int, p []byte) (int, error) {
	o, err := f.fd(fd)
	if err != nil {
		return -1, err
	}
	n, err := f.pread(o, p, o.off)
	if n > 0 {
		o.off += int64(n)
	}
	return n, err
}

func (f *simfs) pread(o *openFile, p []byte, off int64) (int, error) {
	if o.ino.dir {
		return -1, syscall.EISDIR
	}
	if err := f.enter("read", o.path, o.epoch, true); err != nil {
		return -1, unshort(err)
	}
	if off >= int64(len(o.ino.data)) {
		return 0, nil
	}
	b := o.ino.data[off:]
	if len(p) < len(b) {
		b = b[:len(p)]
	}
	return copy(p, b[:f.limit(len(b))]), nil
}

// Pread implementation.
func (f *simfs) Pread(fd int, p []byte, off int64) (int, error) {
	o, err := f.fd(fd)
	if err != nil {
		return -1, err
	}
	return f.pread(o, p, off)
}

// Write implementation.
func (f *simfs) Write(fd int, p []byte) (int, error) {
	o, err := f.fd(fd)
	if err != nil {
		return -1, err
	}
	off := o.off
	if o.flags&syscall.O_APPEND != 0 {
		off = int64(len(o.ino.data))
	}
	n, err := f.pwrite(o, p, off)
	if n > 0 {
		o.off = off + int64(n)
	}
	return n, err
}

func (f *simfs) pwrite(o *openFile, p []byte, off int64) (int, error) {
	if o.flags&(syscall.O_WRONLY|syscall.O_RDWR) == 0 {
		return -1, syscall.EBADF
	}
	if o.fail != nil {
		return -1, o.fail
	}
	n := f.limit(len(p))
	if err := f.enter("write", o.path, o.epoch, true); err != nil {
		s, ok := err.(shortErr)
		if !ok {
			return -1, err
		}
		n = len(p) * s.n / 1000
		o.fail = s.err
		if n == 0 {
			return -1, s.err
		}
	}
	if n == 0 {
		return 0, nil
	}
	f.write(o.ino, wr{off: off, data: append([]byte(nil), p[:n]...)})
	return n, nil
}

// Pwrite implementation.
func (f *simfs) Pwrite(fd int, p []byte, off int64) (int, error) {
	o, err := f.fd(fd)
	if err != nil {
		return -1, err
	}
	return f.pwrite(o, p, off)
}

// Seek implementation.
func (f *simfs) Seek(fd int, off int64, whence int) (int64, error) {
	o, err := f.fd(fd)
	if err != nil {
		return -1, err
	}
	switch whence {
	case 1:
		off += o.off
	case 2:
		off += int64(len(o.ino.data))
	}
	if off < 0 {
		return -1, syscall.EINVAL
	}
	o.off = off
	if o.ino.dir && off == 0 {
		o.begun, o.cursor = false, 0
	}
	return off, nil
}

// Fsync implementation: what was there when the call began is durable when it
// returns.
func (f *simfs) Fsync(fd int) error {
	o, err := f.fd(fd)
	if err != nil {
		return err
	}
	n := o.ino
	wseq, dseq := n.wseq, f.seq
	kind := "fsync"
	if n.dir {
		kind = "fsyncdir"
	}
	if err := f.enter(kind, o.path, o.epoch, true); err != nil {
		return unshort(err)
	}
	if n.dir {
		k := 0
		for k < len(n.ops) && n.ops[k].seq <= dseq {
			applyDir(n.dents, n.ops[k])
			k++
		}
		n.ops = n.ops[k:]
	} else {
		k := 0
		for k < len(n.writes) && n.writes[k].seq <= wseq {
			n.durable = applyWrite(n.durable, n.writes[k])
			k++
		}
		n.writes = n.writes[k:]
		n.synced = true
	}
	f.e.Logf("%s %s", kind, o.path)
	return nil
}

// Fstat implementation.
func (f *simfs) Fstat(fd int, st *syscall.Stat_t) error {
	o, err := f.fd(fd)
	if err != nil {
		return err
	}
	if err := f.enter("fstat", o.path, o.epoch, true); err != nil {
		return unshort(err)
	}
	f.fill(o.ino, st)
	return nil
}

// Ftruncate implementation.
func (f *simfs) Ftruncate(fd int, length int64) error {
	o, err := f.fd(fd)
	if err != nil {
		return err
	}
	if err := f.enter("truncate", o.path, o.epoch, true); err != nil {
		return unshort(err)
	}
	f.write(o.ino, wr{size: length})
	return nil
}

// Getdents implementation: entries in the order of a hash of their names, a
// few per call.
func (f *simfs) Getdents(fd int, buf []byte) (int, error) {
	o, err := f.fd(fd)
	if err != nil {
		return -1, err
	}
	if !o.ino.dir {
		return -1, syscall.ENOTDIR
	}
	if err := f.enter("getdents", o.path, o.epoch, true); err != nil {
		return -1, unshort(err)
	}
	type ent struct {
		h    uint64
		name string
		n    *inode
	}
	var es []ent
	for k, n := range o.ino.ents {
		if h := mix(strHash(k), f.e.P.Seed); !o.begun || h > o.cursor {
			es = append(es, ent{h, k, n})
		}
	}
	sort.Slice(es, func(i, j int) bool { return es[i].h < es[j].h })
	max := 1 + int(f.random()%7)
	n := 0
	for _, x := range es {
		l := (19 + len(x.name) + 1 + 7) &^ 7
		if max == 0 || n+l > len(buf) {
			break
		}
		b := buf[n : n+l]
		clear(b)
		*(*uint64)(unsafe.Pointer(&b[0])) = x.n.id
		*(*int64)(unsafe.Pointer(&b[8])) = int64(x.h >> 1)
		*(*uint16)(unsafe.Pointer(&b[16])) = uint16(l)
		b[18] = syscall.DT_REG
		if x.n.dir {
			b[18] = syscall.DT_DIR
		}
		copy(b[19:], x.name)
		n += l
		o.begun, o.cursor = true, x.h
		max--
	}
	return n, nil
}

func (f *simfs) openFds() []string {
	var s []string
	for fd, o := range f.fds {
		s = append(s, itoa(fd-syscall.SimFdBase)+":"+o.path)
	}
	sort.Strings(s)
	return s
}

// wallNow is the time without its monotonic reading.
func wallNow() time.Time { return time.Now().Round(0) }
