package simrt

import (
	"fmt"
	"syscall"
)

// Prog is what one process asked of its kernel, with the answers it got.
// It can be run again as another process beside the one under test, as long as
// its calls get the same answers: what a deterministic process does next
// depends on nothing else. From the first different answer on it counts as killed.
type Prog struct {
	steps []progStep
}

func (p *Prog) Len() int { return len(p.steps) }

type progStep struct {
	what string
	want string
	run  func(o *Other) string
}

type recorder struct {
	*Kernel
	p *Prog
}

func (r *recorder) add(what, got string, run func(o *Other) string) {
	r.p.steps = append(r.p.steps, progStep{what, got, run})
}

// Other is a process that runs a recorded program.
type Other struct {
	k    *Kernel
	p    *Prog
	at   int
	Gone bool
	open map[int]int // recorded descriptor -> its own
	fds  map[int]*openFile
	cwd  string
}

func (k *Kernel) Other(p *Prog) *Other {
	return &Other{k: k, p: p, open: map[int]int{}, fds: map[int]*openFile{}, cwd: k.cwd}
}

func (o *Other) Done() bool { return o.Gone || o.at >= len(o.p.steps) }

// RunTo lets the process go on until it has done the first n calls of its program.
func (o *Other) RunTo(n int) {
	k := o.k
	for o.at < n && !o.Done() {
		s := o.p.steps[o.at]
		o.at++
		fds, cwd, q, nf := k.fds, k.cwd, k.quiet, k.NoFaults
		k.fds, k.cwd, k.quiet, k.NoFaults = o.fds, o.cwd, true, true
		got := s.run(o)
		o.fds, o.cwd = k.fds, k.cwd
		k.fds, k.cwd, k.quiet, k.NoFaults = fds, cwd, q, nf
		if got != s.want {
			o.Gone = true
		}
		k.log("other process: "+s.what, "", got)
	}
}

func (o *Other) fd(fd int) int {
	if n, ok := o.open[fd]; ok {
		return n
	}
	return fd
}

func (r *recorder) Open(dirfd int, p string, flags int, mode uint32) (int, error, bool) {
	fd, err, ok := r.Kernel.Open(dirfd, p, flags, mode)
	r.add("open "+p, errStr(err), func(o *Other) string {
		n, err, _ := o.k.Open(o.fd(dirfd), p, flags, mode)
		if err == nil {
			o.open[fd] = n
		}
		return errStr(err)
	})
	return fd, err, ok
}

func (r *recorder) Read(fd int, p []byte) (int, error, bool) {
	n, err, ok := r.Kernel.Read(fd, p)
	if fd > 2 {
		l := len(p)
		r.add("read", gotBytes(p, n, err), func(o *Other) string {
			b := make([]byte, l)
			n, err, _ := o.k.Read(o.fd(fd), b)
			return gotBytes(b, n, err)
		})
	}
	return n, err, ok
}

func gotBytes(p []byte, n int, err error) string {
	if err != nil || n < 0 {
		return errStr(err)
	}
	h := uint64(14695981039346656037)
	for _, c := range p[:n] {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return fmt.Sprintf("%d %x", n, h)
}

func (r *recorder) Pread(fd int, p []byte, off int64) (int, error, bool) {
	n, err, ok := r.Kernel.Pread(fd, p, off)
	l := len(p)
	r.add("pread", gotBytes(p, n, err), func(o *Other) string {
		b := make([]byte, l)
		n, err, _ := o.k.Pread(o.fd(fd), b, off)
		return gotBytes(b, n, err)
	})
	return n, err, ok
}

func (r *recorder) Write(fd int, p []byte) (int, error, bool) {
	n, err, ok := r.Kernel.Write(fd, p)
	if fd > 2 {
		b := append([]byte(nil), p...)
		r.add(fmt.Sprintf("write %d", len(p)), fmt.Sprint(n, errStr(err)), func(o *Other) string {
			n, err, _ := o.k.Write(o.fd(fd), b)
			return fmt.Sprint(n, errStr(err))
		})
	}
	return n, err, ok
}

func (r *recorder) Pwrite(fd int, p []byte, off int64) (int, error, bool) {
	n, err, ok := r.Kernel.Pwrite(fd, p, off)
	b := append([]byte(nil), p...)
	r.add("pwrite", fmt.Sprint(n, errStr(err)), func(o *Other) string {
		n, err, _ := o.k.Pwrite(o.fd(fd), b, off)
		return fmt.Sprint(n, errStr(err))
	})
	return n, err, ok
}

func (r *recorder) Close(fd int) (error, bool) {
	err, ok := r.Kernel.Close(fd)
	if fd > 2 {
		r.add("close", errStr(err), func(o *Other) string {
			err, _ := o.k.Close(o.fd(fd))
			return errStr(err)
		})
	}
	return err, ok
}

func gotStat(st *syscall.Stat_t, err error) string {
	if err != nil {
		return errStr(err)
	}
	return fmt.Sprintf("%o %d", st.Mode, st.Size)
}

func (r *recorder) Fstat(fd int, st *syscall.Stat_t) (error, bool) {
	err, ok := r.Kernel.Fstat(fd, st)
	if fd > 2 {
		r.add("fstat", gotStat(st, err), func(o *Other) string {
			var st syscall.Stat_t
			err, _ := o.k.Fstat(o.fd(fd), &st)
			return gotStat(&st, err)
		})
	}
	return err, ok
}

func (r *recorder) Stat(dirfd int, p string, st *syscall.Stat_t, flags int) (error, bool) {
	err, ok := r.Kernel.Stat(dirfd, p, st, flags)
	r.add("stat "+p, gotStat(st, err), func(o *Other) string {
		var st syscall.Stat_t
		err, _ := o.k.Stat(o.fd(dirfd), p, &st, flags)
		return gotStat(&st, err)
	})
	return err, ok
}

func (r *recorder) Mkdir(dirfd int, p string, mode uint32) (error, bool) {
	err, ok := r.Kernel.Mkdir(dirfd, p, mode)
	r.add("mkdir "+p, errStr(err), func(o *Other) string {
		err, _ := o.k.Mkdir(o.fd(dirfd), p, mode)
		return errStr(err)
	})
	return err, ok
}

func (r *recorder) Unlink(dirfd int, p string, flags int) (error, bool) {
	err, ok := r.Kernel.Unlink(dirfd, p, flags)
	r.add("unlink "+p, errStr(err), func(o *Other) string {
		err, _ := o.k.Unlink(o.fd(dirfd), p, flags)
		return errStr(err)
	})
	return err, ok
}

func (r *recorder) Rename(od int, op string, nd int, np string) (error, bool) {
	err, ok := r.Kernel.Rename(od, op, nd, np)
	r.add("rename "+op+" to "+np, errStr(err), func(o *Other) string {
		err, _ := o.k.Rename(o.fd(od), op, o.fd(nd), np)
		return errStr(err)
	})
	return err, ok
}

func (r *recorder) Link(od int, op string, nd int, np string) (error, bool) {
	err, ok := r.Kernel.Link(od, op, nd, np)
	r.add("link "+op+" to "+np, errStr(err), func(o *Other) string {
		err, _ := o.k.Link(o.fd(od), op, o.fd(nd), np)
		return errStr(err)
	})
	return err, ok
}

func (r *recorder) Symlink(target string, dirfd int, p string) (error, bool) {
	err, ok := r.Kernel.Symlink(target, dirfd, p)
	r.add("symlink "+p, errStr(err), func(o *Other) string {
		err, _ := o.k.Symlink(target, o.fd(dirfd), p)
		return errStr(err)
	})
	return err, ok
}

func (r *recorder) Readlink(dirfd int, p string, buf []byte) (int, error, bool) {
	n, err, ok := r.Kernel.Readlink(dirfd, p, buf)
	l := len(buf)
	r.add("readlink "+p, gotBytes(buf, n, err), func(o *Other) string {
		b := make([]byte, l)
		n, err, _ := o.k.Readlink(o.fd(dirfd), p, b)
		return gotBytes(b, n, err)
	})
	return n, err, ok
}

func (r *recorder) Access(dirfd int, p string, mode uint32) (error, bool) {
	err, ok := r.Kernel.Access(dirfd, p, mode)
	r.add("access "+p, errStr(err), func(o *Other) string {
		err, _ := o.k.Access(o.fd(dirfd), p, mode)
		return errStr(err)
	})
	return err, ok
}

func (r *recorder) Chmod(dirfd int, p string, mode uint32) (error, bool) {
	err, ok := r.Kernel.Chmod(dirfd, p, mode)
	r.add("chmod "+p, errStr(err), func(o *Other) string {
		err, _ := o.k.Chmod(o.fd(dirfd), p, mode)
		return errStr(err)
	})
	return err, ok
}

func (r *recorder) Fchmod(fd int, mode uint32) (error, bool) {
	err, ok := r.Kernel.Fchmod(fd, mode)
	r.add("fchmod", errStr(err), func(o *Other) string {
		err, _ := o.k.Fchmod(o.fd(fd), mode)
		return errStr(err)
	})
	return err, ok
}

func (r *recorder) Utimens(dirfd int, p string) (error, bool) {
	err, ok := r.Kernel.Utimens(dirfd, p)
	r.add("utimens "+p, errStr(err), func(o *Other) string {
		err, _ := o.k.Utimens(o.fd(dirfd), p)
		return errStr(err)
	})
	return err, ok
}

func (r *recorder) FdMisc(fd int, what string) (error, bool) {
	err, ok := r.Kernel.FdMisc(fd, what)
	if fd > 2 {
		r.add(what, errStr(err), func(o *Other) string {
			err, _ := o.k.FdMisc(o.fd(fd), what)
			return errStr(err)
		})
	}
	return err, ok
}

func (r *recorder) Fsync(fd int) (error, bool) {
	err, ok := r.Kernel.Fsync(fd)
	if fd > 2 {
		r.add("fsync", errStr(err), func(o *Other) string {
			err, _ := o.k.Fsync(o.fd(fd))
			return errStr(err)
		})
	}
	return err, ok
}

func (r *recorder) Ftruncate(fd int, n int64) (error, bool) {
	err, ok := r.Kernel.Ftruncate(fd, n)
	r.add("ftruncate", errStr(err), func(o *Other) string {
		err, _ := o.k.Ftruncate(o.fd(fd), n)
		return errStr(err)
	})
	return err, ok
}

func (r *recorder) Truncate(p string, n int64) (error, bool) {
	err, ok := r.Kernel.Truncate(p, n)
	r.add("truncate "+p, errStr(err), func(o *Other) string {
		err, _ := o.k.Truncate(p, n)
		return errStr(err)
	})
	return err, ok
}

func (r *recorder) Seek(fd int, off int64, whence int) (int64, error, bool) {
	n, err, ok := r.Kernel.Seek(fd, off, whence)
	if fd > 2 {
		r.add("seek", fmt.Sprint(n, errStr(err)), func(o *Other) string {
			n, err, _ := o.k.Seek(o.fd(fd), off, whence)
			return fmt.Sprint(n, errStr(err))
		})
	}
	return n, err, ok
}

func (r *recorder) Getdents(fd int, buf []byte) (int, error, bool) {
	n, err, ok := r.Kernel.Getdents(fd, buf)
	l := len(buf)
	r.add("getdents", gotDents(buf, n, err), func(o *Other) string {
		b := make([]byte, l)
		n, err, _ := o.k.Getdents(o.fd(fd), b)
		return gotDents(b, n, err)
	})
	return n, err, ok
}

func gotDents(p []byte, n int, err error) string {
	if err != nil || n < 0 {
		return errStr(err)
	}
	b := append([]byte(nil), p[:n]...)
	for i := 0; i+18 < len(b); {
		l := int(b[i+16]) | int(b[i+17])<<8
		clear(b[i : i+8]) // the inode number
		if l <= 0 {
			break
		}
		i += l
	}
	return gotBytes(b, n, nil)
}

func (r *recorder) Chdir(p string) (error, bool) {
	err, ok := r.Kernel.Chdir(p)
	r.add("chdir "+p, errStr(err), func(o *Other) string {
		err, _ := o.k.Chdir(p)
		return errStr(err)
	})
	return err, ok
}

// Clone gives a kernel with a copy of the file tree, without open files, faults or history.
func (k *Kernel) Clone() *Kernel {
	c := NewKernel()
	seen := map[*inode]*inode{}
	var cp func(n *inode) *inode
	cp = func(n *inode) *inode {
		if m := seen[n]; m != nil {
			return m
		}
		m := *n
		m.data = append([]byte(nil), n.data...)
		m.synced = append([]byte(nil), n.synced...)
		seen[n] = &m
		if n.ents != nil {
			m.ents = map[string]*inode{}
			for name, e := range n.ents {
				m.ents[name] = cp(e)
			}
		}
		return &m
	}
	c.root = cp(k.root)
	c.nextID = k.nextID
	c.cwd, c.Host, c.TmpDev = k.cwd, k.Host, k.TmpDev
	return c
}
