package simrt

import (
	"encoding/binary"
	"fmt"
	"path"
	"sort"
	"strings"
	"syscall"
)

const (
	kFile = iota
	kDir
	kLink
	kDev // character device: /dev/null
)

type inode struct {
	id     uint64
	kind   int
	mode   uint32
	data   []byte
	synced []byte // content known to be on stable storage
	dirty  bool   // data differs from synced
	ents   map[string]*inode
	target string
	nlink  int
	mtime  int64
}

type openFile struct {
	fd     int
	ino    *inode
	path   string
	flags  int
	off    int64
	dirpos int
	dirl   []string
	readTo int64 // read without gap or error up to here
	bad    bool  // a read failed
	lost   bool  // a write whose loss is reported at close or sync
}

// Fault says what goes wrong at one kernel operation of a run.
type Fault struct {
	Op   int // index of the kernel operation
	Kind int // selects among the faults possible for that operation
}

// Tree is a snapshot of a directory tree: path -> content. Directories end in "/".
type Tree map[string]string

// Kernel is the simulated operating system of one process. Only the task that
// holds the scheduler's token is inside it.
type Kernel struct {
	root   *inode
	cwd    string
	fds    map[int]*openFile
	nextID uint64
	Pid    int
	Host   string
	Stdout []byte
	Stderr []byte
	OutBy  map[int][]byte // standard output by the task of Run it comes from
	Stdin  []byte
	// ReadFully counts complete undisturbed reads by path.
	ReadFully map[string]int
	OutCap    int // bytes standard output accepts; <0: unlimited

	Faults   []Fault
	Events   map[int][]func() // other actors: run just before operation n
	TmpDev   bool             // /tmp is another file system
	ByRoot   map[int][]Fault  // faults by the task of Run they hit, counting its operations alone
	HurtRoot map[int]bool     // tasks hit by those
	opsRoot  map[int]int
	KillAt   int // the process dies at this operation; <0: never
	KillMode int // 0 before the operation, 1 after it, 2 in the middle of a write
	FullAt   int // bytes the disk still takes; <0: unlimited
	NoFaults bool
	Ops      int
	Fired    map[string]int // fault kind -> times injected
	Dead     bool
	Trace    []string
	Tracing  bool
	outErrs  int
	Journal  bool
	journal  []map[string]*inode // name space after each metadata operation since the last commit
	hash     uint64
	YieldOps bool
	NoDelay  bool
	Record   *Prog
	quiet    bool // package initialisation: not part of the run
}

func (k *Kernel) noteSwitch(site uint32, from, to int) {
	if k.Tracing && len(k.Trace) < 4000 {
		k.Trace = append(k.Trace, fmt.Sprintf("  -- step %d: task %d stops at %s, task %d goes on", W.Steps, from, SiteName(site), to))
	}
}

// SiteName is replaced by the harness, which knows the instrumented sources.
var SiteName = func(site uint32) string { return fmt.Sprint("site ", site) }

var nextFd = syscall.SimFdBase

func NewKernel() *Kernel {
	k := &Kernel{fds: map[int]*openFile{}, Fired: map[string]int{}, KillAt: -1, FullAt: -1, OutCap: -1, cwd: "/", Pid: 4242, Host: "sim-host"}
	k.root = k.newInode(kDir, 0755)
	k.MkdirAll("/dev")
	k.MkdirAll("/tmp")
	k.root.ents["dev"].ents["null"] = k.newInode(kDev, 0666)
	return k
}

func (k *Kernel) newInode(kind int, mode uint32) *inode {
	k.nextID++
	n := &inode{id: k.nextID, kind: kind, mode: mode, nlink: 1}
	if kind == kDir {
		n.ents = map[string]*inode{}
	}
	return n
}

func (k *Kernel) note(h string) {
	x := k.hash
	for i := 0; i < len(h); i++ {
		x = (x ^ uint64(h[i])) * 0x100000001b3
	}
	k.hash = x*31 + 7
}

// Hash identifies the sequence of operations, results and faults so far.
func (k *Kernel) Hash() uint64 { return k.hash }

func (k *Kernel) log(op, p, res string) {
	if k.quiet {
		return
	}
	k.note(op)
	k.note(p)
	k.note(res)
	if k.Tracing && len(k.Trace) < 4000 {
		k.Trace = append(k.Trace, fmt.Sprintf("%d %s %s -> %s", k.Ops-1, op, p, res))
	}
}

func errStr(err error) string {
	if err == nil {
		return "ok"
	}
	if e, ok := err.(syscall.Errno); ok {
		return errnoName(e)
	}
	return err.Error()
}

var errnoNames = map[syscall.Errno]string{syscall.ENOENT: "ENOENT", syscall.EEXIST: "EEXIST", syscall.EIO: "EIO", syscall.ENOSPC: "ENOSPC",
	syscall.EACCES: "EACCES", syscall.EINTR: "EINTR", syscall.EMFILE: "EMFILE", syscall.EROFS: "EROFS", syscall.EPERM: "EPERM", syscall.EDQUOT: "EDQUOT",
	syscall.EPIPE: "EPIPE", syscall.ENOTDIR: "ENOTDIR", syscall.EISDIR: "EISDIR", syscall.EBADF: "EBADF", syscall.ENOTEMPTY: "ENOTEMPTY", syscall.EINVAL: "EINVAL", syscall.ENOMEM: "ENOMEM", syscall.ELOOP: "ELOOP"}

func errnoName(e syscall.Errno) string {
	if s, ok := errnoNames[e]; ok {
		return s
	}
	return fmt.Sprintf("errno%d", int(e))
}

// ---- path resolution ----

func (k *Kernel) abs(dirfd int, p string) (string, error) {
	if strings.HasPrefix(p, "/") {
		return path.Clean(p), nil
	}
	base := k.cwd
	if dirfd != -100 && dirfd >= syscall.SimFdBase {
		f := k.fds[dirfd]
		if f == nil {
			return "", syscall.EBADF
		}
		base = f.path
	}
	return path.Clean(base + "/" + p), nil
}

// walk returns the parent directory, the last name and the inode (nil if absent).
func (k *Kernel) walk(p string, follow bool, depth int) (dir *inode, name string, n *inode, err error) {
	if depth > 20 {
		return nil, "", nil, syscall.ELOOP
	}
	if p == "/" {
		return nil, "", k.root, nil
	}
	parts := strings.Split(strings.TrimPrefix(p, "/"), "/")
	cur := k.root
	curPath := ""
	for i, part := range parts {
		if cur.kind != kDir {
			return nil, "", nil, syscall.ENOTDIR
		}
		if len(part) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		c := cur.ents[part]
		last := i == len(parts)-1
		if c != nil && c.kind == kLink && (!last || follow) {
			t := c.target
			if !strings.HasPrefix(t, "/") {
				t = curPath + "/" + t
			}
			rest := strings.Join(parts[i+1:], "/")
			np := path.Clean(t + "/" + rest)
			return k.walk(np, follow, depth+1)
		}
		if last {
			return cur, part, c, nil
		}
		if c == nil {
			return nil, "", nil, syscall.ENOENT
		}
		cur = c
		curPath += "/" + part
	}
	return nil, "", nil, syscall.ENOENT
}

// ---- faults ----

// The faults that each kind of operation can meet. Repeating entries weighs them.
var faultTable = map[string][]string{
	"open":   {"EACCES", "EMFILE", "EIO", "EINTR"},
	"creat":  {"ENOSPC", "EACCES", "EROFS", "EMFILE", "EIO", "EINTR"},
	"read":   {"EIO", "EIO-after-part", "short", "EINTR", "EIO"},
	"write":  {"ENOSPC", "EIO", "part-then-ENOSPC", "part-then-EIO", "short", "EINTR", "lost", "full-from-here"},
	"close":  {"EIO", "EIO-lost", "EIO-lost"},
	"fsync":  {"EIO-lost", "EIO-lost", "EIO"},
	"stat":   {"EIO", "EACCES", "EINTR", "EIO"},
	"fstat":  {"EIO"},
	"mkdir":  {"ENOSPC", "EACCES", "EROFS", "EIO"},
	"rename": {"EIO", "ENOSPC", "EACCES"},
	"link":   {"EIO", "ENOSPC", "EACCES"},
	"unlink": {"EIO", "EACCES"},
	"chmod":  {"EPERM", "EIO"},
	"trunc":  {"EIO"},
	"dents":  {"EIO"},
	"stdout": {"EPIPE", "ENOSPC", "EIO", "part-then-ENOSPC", "part-then-EPIPE", "EINTR"},
	"stderr": {"EPIPE"},
	"misc":   {"EIO"},
}

var errnoOf = map[string]syscall.Errno{"EACCES": syscall.EACCES, "EMFILE": syscall.EMFILE, "EIO": syscall.EIO, "EINTR": syscall.EINTR,
	"ENOSPC": syscall.ENOSPC, "EROFS": syscall.EROFS, "EPERM": syscall.EPERM, "EPIPE": syscall.EPIPE}

// FaultKinds lists every operation/fault pair that can be injected.
func FaultKinds() []string {
	var r []string
	for op, fs := range faultTable {
		seen := map[string]bool{}
		for _, f := range fs {
			if !seen[f] {
				r = append(r, op+":"+f)
				seen[f] = true
			}
		}
	}
	sort.Strings(r)
	return r
}

// Only restricts injected faults to these operations when it is not nil.
func (k *Kernel) fault(op, what string) string {
	if k.quiet {
		return ""
	}
	n := k.Ops
	k.Ops++
	if evs := k.Events[n]; evs != nil {
		delete(k.Events, n)
		for _, ev := range evs {
			ev()
		}
	}
	if k.KillAt == n && k.KillMode == 0 {
		k.die(op, what)
	}
	if k.NoFaults {
		return ""
	}
	for _, f := range k.Faults {
		if f.Op == n {
			lst := faultTable[op]
			kind := lst[f.Kind%len(lst)]
			k.Fired[op+":"+kind]++
			return kind
		}
	}
	if k.ByRoot != nil && W != nil && W.cur != nil {
		root := W.cur.Root
		if k.opsRoot == nil {
			k.opsRoot = map[int]int{}
			k.HurtRoot = map[int]bool{}
		}
		n := k.opsRoot[root]
		k.opsRoot[root]++
		for _, f := range k.ByRoot[root] {
			if f.Op == n {
				lst := faultTable[op]
				kind := lst[f.Kind%len(lst)]
				if strings.Contains(kind, "part") || strings.Contains(kind, "full") || kind == "EPIPE" {
					kind = "EIO" // nothing that outlasts this call
				}
				k.Fired[op+":"+kind]++
				k.HurtRoot[root] = true
				return kind
			}
		}
	}
	return ""
}

// Heal ends all faults, also those that last.
func (k *Kernel) Heal() {
	k.Faults, k.FullAt, k.OutCap, k.outErrs = nil, -1, -1, 0
}

func (k *Kernel) after(op, what string) {
	if !k.quiet && k.KillAt == k.Ops-1 && k.KillMode != 0 {
		k.die(op, what)
	}
}

func (k *Kernel) die(op, what string) {
	k.Fired["kill"]++
	k.log("KILL", op+" "+what, "process ends here")
	k.Dead = true
	W.kill("killed")
}

func (k *Kernel) enter(yield bool) {
	if k.quiet || k.Dead || W == nil || W.killed {
		return
	}
	if yield {
		W.sysYield()
	}
}

// gone reports that the process is already dead: nothing may change any more.
func (k *Kernel) gone() bool { return !k.quiet && (k.Dead || (W != nil && W.killed)) }

func (k *Kernel) now() int64 {
	if W == nil {
		return 1
	}
	return W.nowNs()
}

func (k *Kernel) meta() {
	if k.Journal {
		k.journal = append(k.journal, k.flatten())
	}
}

func (k *Kernel) flatten() map[string]*inode {
	m := map[string]*inode{}
	var rec func(p string, n *inode)
	rec = func(p string, n *inode) {
		m[p] = n
		for name, c := range n.ents {
			rec(p+"/"+name, c)
		}
	}
	rec("", k.root)
	return m
}

func (k *Kernel) commit() {
	if k.Journal {
		k.journal = k.journal[:0]
		k.journal = append(k.journal, k.flatten())
	}
}

// StartJournal makes the present state stable and begins recording for a power loss.
func (k *Kernel) StartJournal() {
	k.Journal = true
	for _, n := range k.flatten() {
		n.synced = append([]byte(nil), n.data...)
		n.dirty = false
	}
	k.commit()
}

// PowerLoss replaces the file system by what stable storage may hold: the name
// space as of some metadata operation not older than the last commit, and for
// every file not synced since it was written, any of the states a disk can
// leave behind.
func (k *Kernel) PowerLoss(s *Stream) {
	k.Fired["power-loss"]++
	if len(k.journal) == 0 {
		k.commit()
	}
	i := len(k.journal) - 1 - s.N(len(k.journal))
	snap := k.journal[i]
	k.note(fmt.Sprint("power", i))
	root := &inode{id: k.root.id, kind: kDir, mode: 0755, nlink: 1, ents: map[string]*inode{}}
	made := map[string]*inode{"": root}
	byIno := map[uint64]*inode{}
	for _, p := range SortedKeys(snap) {
		if p == "" {
			continue
		}
		o := snap[p]
		n := byIno[o.id]
		if n == nil {
			n = &inode{id: o.id, kind: o.kind, mode: o.mode, target: o.target, nlink: 1}
			if o.kind == kDir {
				n.ents = map[string]*inode{}
			}
			n.data = append([]byte(nil), o.data...)
			if o.dirty {
				mode := s.N(6)
				switch mode {
				case 0: // everything reached the disk
				case 1: // size zero
					n.data = nil
				case 2: // nothing but what was synced
					n.data = append([]byte(nil), o.synced...)
				case 3: // a prefix
					n.data = n.data[:s.N(len(n.data)+1)]
				case 4: // right size, blocks never written
					for j := range n.data {
						n.data[j] = 0
					}
				case 5: // prefix written, rest zero
					c := s.N(len(n.data) + 1)
					for j := c; j < len(n.data); j++ {
						n.data[j] = 0
					}
				}
				k.Fired[fmt.Sprintf("power-loss:unsynced-%d", mode)]++
			}
			n.synced = append([]byte(nil), n.data...)
			byIno[o.id] = n
		} else {
			n.nlink++
		}
		par := made[path.Dir(p)]
		if path.Dir(p) == "/" {
			par = root
		}
		par.ents[path.Base(p)] = n
		if n.kind == kDir {
			made[p] = n
		}
	}
	k.root = root
	k.Reboot()
	k.Journal = false
}

// Reboot gives a fresh process on the same file system.
func (k *Kernel) Reboot() {
	k.fds = map[int]*openFile{}
	k.Dead = false
	k.KillAt = -1
	k.Faults = nil
	k.Events = nil
	k.FullAt = -1
	k.OutCap = -1
	k.Stdout, k.Stderr = nil, nil
	k.OutBy = nil
	k.Ops = 0
	k.cwd = "/"
	k.outErrs = 0
}

// ---- operations ----

func (k *Kernel) Open(dirfd int, p string, flags int, mode uint32) (int, error, bool) {
	k.enter(true)
	if k.gone() {
		return -1, syscall.EIO, true
	}
	fd, ap, err := k.open(dirfd, p, flags, mode)
	k.log("open", ap, errStr(err))
	k.after("open", ap)
	return fd, err, true
}

func (k *Kernel) open(dirfd int, p string, flags int, mode uint32) (int, string, error) {
	ap, err := k.abs(dirfd, p)
	if err != nil {
		return -1, p, err
	}
	op := "open"
	if flags&syscall.O_CREAT != 0 {
		op = "creat"
	}
	if f := k.fault(op, ap); f != "" {
		return -1, ap, errnoOf[f]
	}
	dir, name, n, err := k.walk(ap, flags&syscall.O_NOFOLLOW == 0, 0)
	if err != nil {
		return -1, ap, err
	}
	if n != nil && n.kind == kLink {
		return -1, ap, syscall.ELOOP
	}
	acc := flags & 3
	if n == nil {
		if flags&syscall.O_CREAT == 0 {
			return -1, ap, syscall.ENOENT
		}
		if strings.HasSuffix(p, "/") {
			return -1, ap, syscall.EISDIR
		}
		n = k.newInode(kFile, mode&0777)
		n.mtime = k.now()
		n.dirty = true
		dir.ents[name] = n
		k.meta()
	} else {
		if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
			return -1, ap, syscall.EEXIST
		}
		if n.kind == kDir && (acc != syscall.O_RDONLY || flags&syscall.O_CREAT != 0) {
			return -1, ap, syscall.EISDIR
		}
		if n.kind != kDir && flags&syscall.O_DIRECTORY != 0 {
			return -1, ap, syscall.ENOTDIR
		}
		if n.kind == kFile && strings.HasSuffix(p, "/") {
			return -1, ap, syscall.ENOTDIR
		}
		if n.mode&0200 == 0 && acc != syscall.O_RDONLY {
			return -1, ap, syscall.EACCES
		}
		if n.mode&0400 == 0 && acc != syscall.O_WRONLY {
			return -1, ap, syscall.EACCES
		}
		if flags&syscall.O_TRUNC != 0 && n.kind == kFile && len(n.data) > 0 {
			n.data = nil
			n.dirty = true
			k.meta()
		}
	}
	fd := nextFd
	nextFd++
	k.fds[fd] = &openFile{fd: fd, ino: n, path: ap, flags: flags}
	return fd, ap, nil
}

func (k *Kernel) file(fd int) (*openFile, error, bool) {
	if fd < syscall.SimFdBase {
		return nil, nil, false
	}
	f := k.fds[fd]
	if f == nil {
		return nil, syscall.EBADF, true
	}
	return f, nil, true
}

func (k *Kernel) Read(fd int, p []byte) (int, error, bool) {
	if fd == 0 {
		n := copy(p, k.Stdin)
		k.Stdin = k.Stdin[n:]
		return n, nil, true
	}
	f, err, ok := k.file(fd)
	if !ok || err != nil {
		return -1, err, ok
	}
	if k.gone() {
		return -1, syscall.EIO, true
	}
	n, err := k.read(f, p, f.off)
	if n > 0 {
		f.off += int64(n)
	}
	k.log("read", f.path, fmt.Sprintf("%d %s", n, errStr(err)))
	k.after("read", f.path)
	return n, err, true
}

func (k *Kernel) Pread(fd int, p []byte, off int64) (int, error, bool) {
	f, err, ok := k.file(fd)
	if !ok || err != nil {
		return -1, err, ok
	}
	if k.gone() {
		return -1, syscall.EIO, true
	}
	n, err := k.read(f, p, off)
	k.log("pread", f.path, fmt.Sprintf("%d %s", n, errStr(err)))
	k.after("pread", f.path)
	return n, err, true
}

func (k *Kernel) read(f *openFile, p []byte, off int64) (int, error) {
	ft := k.fault("read", f.path)
	if f.ino.kind == kDir {
		return -1, syscall.EISDIR
	}
	if f.flags&3 == syscall.O_WRONLY {
		return -1, syscall.EBADF
	}
	var avail []byte
	if off < int64(len(f.ino.data)) {
		avail = f.ino.data[off:]
	}
	if len(avail) > len(p) {
		avail = avail[:len(p)]
	}
	switch ft {
	case "EIO", "EINTR":
		f.bad = f.bad || ft == "EIO"
		return -1, errnoOf[ft]
	case "EIO-after-part":
		// this call is short, the next one fails
		if len(avail) > 1 {
			avail = avail[:len(avail)/2]
		}
		k.Faults = append(k.Faults, Fault{Op: k.Ops, Kind: 0})
	case "short":
		if len(avail) > 1 {
			avail = avail[:1+len(avail)/3]
		}
	}
	n := copy(p, avail)
	if off == f.readTo {
		f.readTo += int64(n)
		if f.readTo == int64(len(f.ino.data)) && !f.bad && n > 0 {
			if k.ReadFully == nil {
				k.ReadFully = map[string]int{}
			}
			k.ReadFully[f.path]++
		}
	}
	return n, nil
}

func (k *Kernel) Write(fd int, p []byte) (int, error, bool) {
	if fd == 1 || fd == 2 {
		if k.gone() {
			return -1, syscall.EIO, true
		}
		n, err := k.std(fd, p)
		k.log("write", fmt.Sprintf("fd%d", fd), fmt.Sprintf("%d %s", n, errStr(err)))
		k.after("write", "std")
		return n, err, true
	}
	f, err, ok := k.file(fd)
	if !ok || err != nil {
		return -1, err, ok
	}
	if k.gone() {
		return -1, syscall.EIO, true
	}
	off := f.off
	if f.flags&syscall.O_APPEND != 0 {
		off = int64(len(f.ino.data))
	}
	n, err := k.write(f, p, off)
	if n > 0 {
		f.off = off + int64(n)
	}
	k.log("write", f.path, fmt.Sprintf("%d/%d %s", n, len(p), errStr(err)))
	k.after("write", f.path)
	return n, err, true
}

func (k *Kernel) Pwrite(fd int, p []byte, off int64) (int, error, bool) {
	f, err, ok := k.file(fd)
	if !ok || err != nil {
		return -1, err, ok
	}
	if k.gone() {
		return -1, syscall.EIO, true
	}
	n, err := k.write(f, p, off)
	k.log("pwrite", f.path, fmt.Sprintf("%d/%d %s", n, len(p), errStr(err)))
	k.after("pwrite", f.path)
	return n, err, true
}

func (k *Kernel) std(fd int, p []byte) (int, error) {
	op := "stdout"
	if fd == 2 {
		op = "stderr"
	}
	ft := k.fault(op, "")
	n := len(p)
	var err error
	switch ft {
	case "EPIPE", "ENOSPC", "EIO", "EINTR":
		n, err = -1, errnoOf[ft]
	case "part-then-ENOSPC", "part-then-EPIPE":
		n = len(p) / 2
		kind := 1
		if ft == "part-then-EPIPE" {
			kind = 0
		}
		if n == 0 {
			n, err = -1, errnoOf[faultTable[op][kind]]
		} else {
			k.Faults = append(k.Faults, Fault{Op: k.Ops, Kind: kind})
		}
	}
	if fd == 1 && (ft == "EPIPE" || ft == "part-then-EPIPE") {
		k.outErrs = 1 // a closed pipe stays closed
	}
	if ft == "" && k.outErrs == 1 && fd == 1 {
		return -1, syscall.EPIPE
	}
	if err == nil && fd == 1 && k.OutCap >= 0 {
		if k.OutCap == 0 && n > 0 {
			k.Fired["stdout:full"]++
			return -1, syscall.ENOSPC
		}
		if n > k.OutCap {
			n = k.OutCap
		}
		k.OutCap -= n
	}
	if n > 0 {
		if fd == 1 {
			k.Stdout = append(k.Stdout, p[:n]...)
			if W != nil && W.cur != nil {
				if k.OutBy == nil {
					k.OutBy = map[int][]byte{}
				}
				k.OutBy[W.cur.Root] = append(k.OutBy[W.cur.Root], p[:n]...)
			}
		} else {
			k.Stderr = append(k.Stderr, p[:n]...)
		}
	}
	return n, err
}

func (k *Kernel) write(f *openFile, p []byte, off int64) (int, error) {
	ft := k.fault("write", f.path)
	if f.flags&3 == syscall.O_RDONLY {
		return -1, syscall.EBADF
	}
	if f.ino.kind == kDev {
		return len(p), nil
	}
	n := len(p)
	switch ft {
	case "ENOSPC", "EIO", "EINTR":
		return -1, errnoOf[ft]
	case "part-then-ENOSPC", "part-then-EIO", "short":
		n = len(p) / 2
		kind := 0
		if ft == "part-then-EIO" {
			kind = 1
		}
		if ft != "short" {
			if n == 0 {
				return -1, errnoOf[faultTable["write"][kind]]
			}
			k.Faults = append(k.Faults, Fault{Op: k.Ops, Kind: kind})
		} else if n == 0 {
			n = len(p)
		}
	case "lost":
		f.lost = true
	case "full-from-here":
		k.FullAt = len(p) / 2
	}
	if k.FullAt >= 0 {
		if k.FullAt == 0 && n > 0 {
			k.Fired["write:disk-full"]++
			return -1, syscall.ENOSPC
		}
		if n > k.FullAt {
			n = k.FullAt
		}
		k.FullAt -= n
	}
	if !k.quiet && k.KillAt == k.Ops-1 && k.KillMode == 2 {
		n = n / 2
	}
	end := off + int64(n)
	if int64(len(f.ino.data)) < end {
		nd := make([]byte, end)
		copy(nd, f.ino.data)
		f.ino.data = nd
	} else {
		f.ino.data = append([]byte(nil), f.ino.data...)
	}
	copy(f.ino.data[off:], p[:n])
	f.ino.dirty = true
	f.ino.mtime = k.now()
	return n, nil
}

// lose drops data the device could not store.
func (k *Kernel) lose(n *inode) {
	if len(n.data) > len(n.synced) {
		n.data = append([]byte(nil), n.data[:(len(n.data)+len(n.synced))/2]...)
	} else {
		n.data = append([]byte(nil), n.synced...)
	}
}

func (k *Kernel) Close(fd int) (error, bool) {
	if fd >= 0 && fd <= 2 {
		return nil, true
	}
	f, err, ok := k.file(fd)
	if !ok || err != nil {
		return err, ok
	}
	if k.gone() {
		delete(k.fds, fd)
		return nil, true
	}
	wr := f.flags&3 != syscall.O_RDONLY
	if wr {
		ft := k.fault("close", f.path)
		if ft == "EIO-lost" || (ft == "EIO" && f.lost) {
			k.lose(f.ino)
		}
		if ft != "" {
			err = syscall.EIO
		} else if f.lost {
			k.lose(f.ino)
			err = syscall.EIO
		}
		k.log("close", f.path, errStr(err))
	}
	delete(k.fds, fd)
	if wr {
		k.after("close", f.path)
	}
	return err, true
}

func (k *Kernel) Fsync(fd int) (error, bool) {
	f, err, ok := k.file(fd)
	if !ok || err != nil {
		if fd == 1 || fd == 2 {
			return syscall.EINVAL, true
		}
		return err, ok
	}
	if k.gone() {
		return syscall.EIO, true
	}
	ft := k.fault("fsync", f.path)
	if ft != "" || f.lost {
		if ft == "EIO-lost" || f.lost {
			k.lose(f.ino)
			f.lost = false
		}
		err = syscall.EIO
	} else {
		f.ino.synced = append([]byte(nil), f.ino.data...)
		f.ino.dirty = false
		k.commit()
	}
	k.log("fsync", f.path, errStr(err))
	k.after("fsync", f.path)
	return err, true
}

func (k *Kernel) fillStat(n *inode, st *syscall.Stat_t) {
	*st = syscall.Stat_t{}
	st.Ino = n.id
	st.Dev = 7
	st.Nlink = uint64(n.nlink)
	st.Size = int64(len(n.data))
	st.Blksize = 4096
	st.Mtim.Sec = n.mtime / 1e9
	st.Mtim.Nsec = n.mtime % 1e9
	switch n.kind {
	case kFile:
		st.Mode = syscall.S_IFREG | n.mode
	case kDir:
		st.Mode = syscall.S_IFDIR | n.mode
	case kLink:
		st.Mode = syscall.S_IFLNK | 0777
		st.Size = int64(len(n.target))
	case kDev:
		st.Mode = syscall.S_IFCHR | 0666
	}
}

func (k *Kernel) Fstat(fd int, st *syscall.Stat_t) (error, bool) {
	if fd >= 0 && fd <= 2 {
		*st = syscall.Stat_t{}
		st.Mode = syscall.S_IFIFO | 0600
		return nil, true
	}
	f, err, ok := k.file(fd)
	if !ok || err != nil {
		return err, ok
	}
	if k.gone() {
		return syscall.EIO, true
	}
	k.fillStat(f.ino, st)
	return nil, true
}

func (k *Kernel) Stat(dirfd int, p string, st *syscall.Stat_t, flags int) (error, bool) {
	k.enter(true)
	if k.gone() {
		return syscall.EIO, true
	}
	ap, err := k.abs(dirfd, p)
	if err == nil {
		if f := k.fault("stat", ap); f != "" {
			err = errnoOf[f]
		} else {
			var n *inode
			_, _, n, err = k.walk(ap, flags&0x100 == 0, 0)
			if err == nil && n == nil {
				err = syscall.ENOENT
			}
			if err == nil && n.kind == kFile && strings.HasSuffix(p, "/") {
				err = syscall.ENOTDIR
			}
			if err == nil {
				k.fillStat(n, st)
			}
		}
	}
	k.log("stat", ap, errStr(err))
	k.after("stat", ap)
	return err, true
}

func (k *Kernel) pathOp(op, fop string, dirfd int, p string, do func(dir *inode, name string, n *inode) error) (error, bool) {
	k.enter(true)
	if k.gone() {
		return syscall.EIO, true
	}
	ap, err := k.abs(dirfd, p)
	if err == nil {
		if f := k.fault(fop, ap); f != "" {
			err = errnoOf[f]
		} else {
			var dir, n *inode
			var name string
			dir, name, n, err = k.walk(ap, false, 0)
			if err == nil {
				err = do(dir, name, n)
			}
		}
	}
	k.log(op, ap, errStr(err))
	k.after(op, ap)
	return err, true
}

func (k *Kernel) Mkdir(dirfd int, p string, mode uint32) (error, bool) {
	return k.pathOp("mkdir", "mkdir", dirfd, p, func(dir *inode, name string, n *inode) error {
		if n != nil {
			return syscall.EEXIST
		}
		dir.ents[name] = k.newInode(kDir, mode&0777)
		k.meta()
		return nil
	})
}

func (k *Kernel) Unlink(dirfd int, p string, flags int) (error, bool) {
	return k.pathOp("unlink", "unlink", dirfd, p, func(dir *inode, name string, n *inode) error {
		if n == nil {
			return syscall.ENOENT
		}
		if flags&0x200 != 0 {
			if n.kind != kDir {
				return syscall.ENOTDIR
			}
			if len(n.ents) > 0 {
				return syscall.ENOTEMPTY
			}
		} else if n.kind == kDir {
			return syscall.EISDIR
		}
		n.nlink--
		delete(dir.ents, name)
		k.meta()
		return nil
	})
}

func (k *Kernel) Rename(od int, op string, nd int, np string) (error, bool) {
	k.enter(true)
	if k.gone() {
		return syscall.EIO, true
	}
	a, err := k.abs(od, op)
	b, err2 := k.abs(nd, np)
	if err == nil {
		err = err2
	}
	if err == nil {
		if f := k.fault("rename", a+" to "+b); f != "" {
			err = errnoOf[f]
		} else if k.otherDevice(a, b) {
			err = syscall.EXDEV
		} else {
			err = k.rename(a, b)
		}
	}
	k.log("rename", a+" to "+b, errStr(err))
	k.after("rename", a)
	return err, true
}

// otherDevice tells whether the names are on different file systems.
func (k *Kernel) otherDevice(a, b string) bool {
	if !k.TmpDev || strings.HasPrefix(a, "/tmp/") == strings.HasPrefix(b, "/tmp/") {
		return false
	}
	k.Fired["other-device"]++
	return true
}

func (k *Kernel) rename(a, b string) error {
	ad, an, n, err := k.walk(a, false, 0)
	if err != nil {
		return err
	}
	if n == nil {
		return syscall.ENOENT
	}
	bd, bn, t, err := k.walk(b, false, 0)
	if err != nil {
		return err
	}
	if t != nil {
		if t == n {
			return nil
		}
		if t.kind == kDir {
			if n.kind != kDir {
				return syscall.EISDIR
			}
			if len(t.ents) > 0 {
				return syscall.ENOTEMPTY
			}
		} else if n.kind == kDir {
			return syscall.ENOTDIR
		}
		t.nlink--
	}
	delete(ad.ents, an)
	bd.ents[bn] = n
	k.meta()
	return nil
}

func (k *Kernel) Link(od int, op string, nd int, np string) (error, bool) {
	k.enter(true)
	if k.gone() {
		return syscall.EIO, true
	}
	a, err := k.abs(od, op)
	b, err2 := k.abs(nd, np)
	if err == nil {
		err = err2
	}
	if err == nil {
		if f := k.fault("link", a+" to "+b); f != "" {
			err = errnoOf[f]
		} else if k.otherDevice(a, b) {
			err = syscall.EXDEV
		} else {
			var n, t, bd *inode
			var bn string
			_, _, n, err = k.walk(a, false, 0)
			if err == nil && n == nil {
				err = syscall.ENOENT
			}
			if err == nil {
				bd, bn, t, err = k.walk(b, false, 0)
			}
			if err == nil && t != nil {
				err = syscall.EEXIST
			}
			if err == nil && n.kind == kDir {
				err = syscall.EPERM
			}
			if err == nil {
				n.nlink++
				bd.ents[bn] = n
				k.meta()
			}
		}
	}
	k.log("link", a+" to "+b, errStr(err))
	k.after("link", a)
	return err, true
}

func (k *Kernel) Symlink(target string, dirfd int, p string) (error, bool) {
	return k.pathOp("symlink", "link", dirfd, p, func(dir *inode, name string, n *inode) error {
		if n != nil {
			return syscall.EEXIST
		}
		c := k.newInode(kLink, 0777)
		c.target = target
		dir.ents[name] = c
		k.meta()
		return nil
	})
}

func (k *Kernel) Readlink(dirfd int, p string, buf []byte) (int, error, bool) {
	var r int
	err, ok := k.pathOp("readlink", "stat", dirfd, p, func(dir *inode, name string, n *inode) error {
		if n == nil {
			return syscall.ENOENT
		}
		if n.kind != kLink {
			return syscall.EINVAL
		}
		r = copy(buf, n.target)
		return nil
	})
	if err != nil {
		r = -1
	}
	return r, err, ok
}

func (k *Kernel) Access(dirfd int, p string, mode uint32) (error, bool) {
	var st syscall.Stat_t
	return k.Stat(dirfd, p, &st, 0)
}

func (k *Kernel) Chmod(dirfd int, p string, mode uint32) (error, bool) {
	return k.pathOp("chmod", "chmod", dirfd, p, func(dir *inode, name string, n *inode) error {
		if n == nil {
			return syscall.ENOENT
		}
		n.mode = mode & 07777
		return nil
	})
}

func (k *Kernel) Fchmod(fd int, mode uint32) (error, bool) {
	f, err, ok := k.file(fd)
	if !ok || err != nil {
		return err, ok
	}
	if k.gone() {
		return syscall.EIO, true
	}
	if ft := k.fault("chmod", f.path); ft != "" {
		err = errnoOf[ft]
	} else {
		f.ino.mode = mode & 07777
	}
	k.log("fchmod", f.path, errStr(err))
	k.after("fchmod", f.path)
	return err, true
}

func (k *Kernel) Utimens(dirfd int, p string) (error, bool) {
	return k.pathOp("utimens", "misc", dirfd, p, func(dir *inode, name string, n *inode) error {
		if n == nil {
			return syscall.ENOENT
		}
		return nil
	})
}

func (k *Kernel) FdMisc(fd int, what string) (error, bool) {
	f, err, ok := k.file(fd)
	if !ok || err != nil {
		return err, ok
	}
	_ = f
	return nil, true
}

func (k *Kernel) Ftruncate(fd int, n int64) (error, bool) {
	f, err, ok := k.file(fd)
	if !ok || err != nil {
		return err, ok
	}
	if k.gone() {
		return syscall.EIO, true
	}
	if ft := k.fault("trunc", f.path); ft != "" {
		err = errnoOf[ft]
	} else {
		k.resize(f.ino, n)
	}
	k.log("ftruncate", f.path, errStr(err))
	k.after("ftruncate", f.path)
	return err, true
}

func (k *Kernel) resize(i *inode, n int64) {
	nd := make([]byte, n)
	copy(nd, i.data)
	i.data = nd
	i.dirty = true
	k.meta()
}

func (k *Kernel) Truncate(p string, n int64) (error, bool) {
	return k.pathOp("truncate", "trunc", -100, p, func(dir *inode, name string, i *inode) error {
		if i == nil {
			return syscall.ENOENT
		}
		if i.kind == kDir {
			return syscall.EISDIR
		}
		k.resize(i, n)
		return nil
	})
}

func (k *Kernel) Seek(fd int, off int64, whence int) (int64, error, bool) {
	if fd >= 0 && fd <= 2 {
		return -1, syscall.ESPIPE, true
	}
	f, err, ok := k.file(fd)
	if !ok || err != nil {
		return -1, err, ok
	}
	switch whence {
	case 0:
	case 1:
		off += f.off
	case 2:
		off += int64(len(f.ino.data))
	default:
		return -1, syscall.EINVAL, true
	}
	if off < 0 {
		return -1, syscall.EINVAL, true
	}
	f.off = off
	if off == 0 {
		f.dirl, f.dirpos = nil, 0
	}
	return off, nil, true
}

func (k *Kernel) Getdents(fd int, buf []byte) (int, error, bool) {
	f, err, ok := k.file(fd)
	if !ok || err != nil {
		return -1, err, ok
	}
	if k.gone() {
		return -1, syscall.EIO, true
	}
	if f.ino.kind != kDir {
		return -1, syscall.ENOTDIR, true
	}
	if ft := k.fault("dents", f.path); ft != "" {
		k.log("getdents", f.path, ft)
		return -1, errnoOf[ft], true
	}
	if f.dirl == nil {
		f.dirl = SortedKeys(f.ino.ents)
		if W != nil {
			W.permute(f.dirl) // directory order is up to the file system
		}
		if f.dirl == nil {
			f.dirl = []string{}
		}
	}
	n := 0
	for f.dirpos < len(f.dirl) {
		name := f.dirl[f.dirpos]
		c := f.ino.ents[name]
		if c == nil {
			f.dirpos++
			continue
		}
		rec := (19 + len(name) + 1 + 7) &^ 7
		if n+rec > len(buf) {
			break
		}
		b := buf[n : n+rec]
		for i := range b {
			b[i] = 0
		}
		binary.LittleEndian.PutUint64(b[0:], c.id)
		binary.LittleEndian.PutUint64(b[8:], uint64(f.dirpos+1))
		binary.LittleEndian.PutUint16(b[16:], uint16(rec))
		b[18] = map[int]byte{kFile: 8, kDir: 4, kLink: 10, kDev: 2}[c.kind]
		copy(b[19:], name)
		n += rec
		f.dirpos++
	}
	k.log("getdents", f.path, "ok")
	k.after("getdents", f.path)
	return n, nil, true
}

func (k *Kernel) Getcwd(buf []byte) (int, error, bool) {
	n := copy(buf, k.cwd+"\x00")
	return n, nil, true
}

// Cwd is the working directory.
func (k *Kernel) Cwd() string { return k.cwd }

// OpenFiles are the paths of the files that the process has open.
func (k *Kernel) OpenFiles() []string {
	var t []string
	for _, f := range k.fds {
		t = append(t, f.path)
	}
	sort.Strings(t)
	return t
}

func (k *Kernel) Chdir(p string) (error, bool) {
	ap, err := k.abs(-100, p)
	if err != nil {
		return err, true
	}
	_, _, n, err := k.walk(ap, true, 0)
	if err != nil {
		return err, true
	}
	if n == nil {
		return syscall.ENOENT, true
	}
	if n.kind != kDir {
		return syscall.ENOTDIR, true
	}
	k.cwd = ap
	return nil, true
}

func (k *Kernel) Getpid() int      { return k.Pid }
func (k *Kernel) Hostname() string { return k.Host }
func (k *Kernel) Rand() uint64     { return W.Rand() }

func (k *Kernel) Exit(code int) {
	W.ExitCode = code
	W.Exited = true
	W.kill("exit")
}

// ---- direct access for the harness and for other actors ----

// SetTime sets when a file was last written.
func (k *Kernel) SetTime(p string, ns int64) {
	if _, _, n, err := k.walk(path.Clean(p), true, 0); err == nil && n != nil {
		n.mtime = ns
	}
}

func (k *Kernel) MkdirAll(p string) {
	p = path.Clean(p)
	if p == "/" {
		return
	}
	k.MkdirAll(path.Dir(p))
	dir, name, n, err := k.walk(p, true, 0)
	if err == nil && n == nil {
		dir.ents[name] = k.newInode(kDir, 0755)
		k.meta()
	}
}

// Put writes a file as somebody else would, atomically and durably.
func (k *Kernel) Put(p string, content string) {
	k.MkdirAll(path.Dir(p))
	dir, name, n, err := k.walk(path.Clean(p), true, 0)
	if err != nil {
		return
	}
	if n == nil {
		n = k.newInode(kFile, 0644)
		dir.ents[name] = n
	}
	if n.kind != kFile {
		return
	}
	n.data = []byte(content)
	n.synced = []byte(content)
	n.dirty = false
	k.meta()
	if k.Journal {
		k.commit()
	}
}

func (k *Kernel) SetMode(p string, mode uint32) {
	_, _, n, err := k.walk(path.Clean(p), true, 0)
	if err == nil && n != nil {
		n.mode = mode
	}
}

// PutLink makes a symbolic link as somebody else would.
func (k *Kernel) PutLink(p, target string) {
	k.MkdirAll(path.Dir(p))
	dir, name, n, err := k.walk(path.Clean(p), false, 0)
	if err == nil && n == nil {
		c := k.newInode(kLink, 0777)
		c.target = target
		dir.ents[name] = c
		k.meta()
	}
}

func (k *Kernel) Get(p string) (string, bool) {
	_, _, n, err := k.walk(path.Clean(p), true, 0)
	if err != nil || n == nil || n.kind == kDir {
		return "", false
	}
	return string(n.data), true
}

func (k *Kernel) Exists(p string) bool {
	_, _, n, err := k.walk(path.Clean(p), false, 0)
	return err == nil && n != nil
}

// Snapshot returns the files below p (paths absolute).
func (k *Kernel) Snapshot(p string) Tree {
	t := Tree{}
	_, _, n, err := k.walk(path.Clean(p), true, 0)
	if err != nil || n == nil {
		return t
	}
	var rec func(p string, n *inode)
	rec = func(p string, n *inode) {
		switch n.kind {
		case kDir:
			if p != "" {
				t[p+"/"] = ""
			}
			for name, c := range n.ents {
				rec(p+"/"+name, c)
			}
		case kLink:
			t[p] = "-> " + n.target
		default:
			t[p] = string(n.data)
		}
	}
	rec(strings.TrimSuffix(path.Clean(p), "/"), n)
	return t
}

// Files returns only the files of a tree.
func (t Tree) Files() Tree {
	r := Tree{}
	for p, c := range t {
		if !strings.HasSuffix(p, "/") {
			r[p] = c
		}
	}
	return r
}

// Corrupt changes stored bytes of a file.
func (k *Kernel) Corrupt(p string, f func([]byte) []byte) {
	_, _, n, err := k.walk(path.Clean(p), true, 0)
	if err == nil && n != nil && n.kind == kFile {
		n.data = f(append([]byte(nil), n.data...))
	}
}

// Remove deletes a name as somebody else would.
func (k *Kernel) Remove(p string) {
	dir, name, n, err := k.walk(path.Clean(p), false, 0)
	if err == nil && n != nil && dir != nil {
		delete(dir.ents, name)
		k.meta()
	}
}
