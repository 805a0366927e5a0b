package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// The kernel seam. Copies of a few standard-library files get a hook at the
// start of each function that enters the kernel, reads the clock or draws
// randomness. The hooks are nil unless a simulation is running.

type hook struct {
	file string // relative to GOROOT/src
	fn   string // text that starts the line declaring the function
	code string // inserted as the first statement
}

const zs = "syscall/zsyscall_linux_amd64.go"

var hooks = []hook{
	{zs, "func faccessat(", "if Sim != nil { if err, ok := Sim.Access(dirfd, path, mode); ok { return err } }"},
	{zs, "func faccessat2(", "if Sim != nil { if err, ok := Sim.Access(dirfd, path, mode); ok { return err } }"},
	{zs, "func fchmodat(", "if Sim != nil { if err, ok := Sim.Chmod(dirfd, path, mode); ok { return err } }"},
	{zs, "func fchmodat2(", "if Sim != nil { if err, ok := Sim.Chmod(dirfd, path, mode); ok { return err } }"},
	{zs, "func linkat(", "if Sim != nil { if err, ok := Sim.Link(olddirfd, oldpath, newdirfd, newpath); ok { return err } }"},
	{zs, "func openat(", "if Sim != nil { if fd, err, ok := Sim.Open(dirfd, path, flags, mode); ok { return fd, err } }"},
	{zs, "func readlinkat(", "if Sim != nil { if n, err, ok := Sim.Readlink(dirfd, path, buf); ok { return n, err } }"},
	{zs, "func symlinkat(", "if Sim != nil { if err, ok := Sim.Symlink(oldpath, newdirfd, newpath); ok { return err } }"},
	{zs, "func unlinkat(", "if Sim != nil { if err, ok := Sim.Unlink(dirfd, path, flags); ok { return err } }"},
	{zs, "func utimensat(", "if Sim != nil { if err, ok := Sim.Utimens(dirfd, path); ok { return err } }"},
	{zs, "func Getcwd(", "if Sim != nil { if n, err, ok := Sim.Getcwd(buf); ok { return n, err } }"},
	{zs, "func Chdir(", "if Sim != nil { if err, ok := Sim.Chdir(path); ok { return err } }"},
	{zs, "func Close(", "if Sim != nil || fd >= SimFdBase { if err, ok := simClose(fd); ok { return err } }"},
	{zs, "func Fallocate(", "if Sim != nil { if err, ok := Sim.FdMisc(fd, \"fallocate\"); ok { return err } }"},
	{zs, "func Fchmod(", "if Sim != nil { if err, ok := Sim.Fchmod(fd, mode); ok { return err } }"},
	{zs, "func Fchown(", "if Sim != nil { if err, ok := Sim.FdMisc(fd, \"fchown\"); ok { return err } }"},
	{zs, "func Fchownat(", "if Sim != nil { if err, ok := Sim.Utimens(dirfd, path); ok { return err } }"},
	{zs, "func fcntl(", "if Sim != nil && fd >= SimFdBase { return 0, EINVAL }"},
	{zs, "func Fdatasync(", "if Sim != nil { if err, ok := Sim.Fsync(fd); ok { return err } }"},
	{zs, "func Fsync(", "if Sim != nil { if err, ok := Sim.Fsync(fd); ok { return err } }"},
	{zs, "func Flock(", "if Sim != nil { if err, ok := Sim.FdMisc(fd, \"flock\"); ok { return err } }"},
	{zs, "func Getdents(", "if Sim != nil { if n, err, ok := Sim.Getdents(fd, buf); ok { return n, err } }"},
	{zs, "func Getpid(", "if Sim != nil { return Sim.Getpid() }"},
	{zs, "func Getppid(", "if Sim != nil { return Sim.Getpid() - 1 }"},
	{zs, "func Mkdirat(", "if Sim != nil { if err, ok := Sim.Mkdir(dirfd, path, mode); ok { return err } }"},
	{zs, "func read(", "if Sim != nil { if n, err, ok := Sim.Read(fd, p); ok { return n, err } }"},
	{zs, "func write(", "if Sim != nil { if n, err, ok := Sim.Write(fd, p); ok { return n, err } }"},
	{zs, "func pread(", "if Sim != nil { if n, err, ok := Sim.Pread(fd, p, offset); ok { return n, err } }"},
	{zs, "func pwrite(", "if Sim != nil { if n, err, ok := Sim.Pwrite(fd, p, offset); ok { return n, err } }"},
	{zs, "func Fstat(", "if Sim != nil { if err, ok := Sim.Fstat(fd, stat); ok { return err } }"},
	{zs, "func fstatat(", "if Sim != nil { if err, ok := Sim.Stat(fd, path, stat, flags); ok { return err } }"},
	{zs, "func Ftruncate(", "if Sim != nil { if err, ok := Sim.Ftruncate(fd, length); ok { return err } }"},
	{zs, "func Truncate(", "if Sim != nil { if err, ok := Sim.Truncate(path, length); ok { return err } }"},
	{zs, "func Renameat(", "if Sim != nil { if err, ok := Sim.Rename(olddirfd, oldpath, newdirfd, newpath); ok { return err } }"},
	{zs, "func Seek(", "if Sim != nil { if off, err, ok := Sim.Seek(fd, offset, whence); ok { return off, err } }"},
	{zs, "func sendfile(", "if Sim != nil && (outfd >= SimFdBase || infd >= SimFdBase) { return 0, ENOSYS }"},
	{zs, "func Splice(", "if Sim != nil && (rfd >= SimFdBase || wfd >= SimFdBase) { return 0, ENOSYS }"},
	{zs, "func Uname(", "if Sim != nil { h := Sim.Hostname(); for i := 0; i < len(h) && i < 60; i++ { buf.Nodename[i] = int8(h[i]) }; return nil }"},
	{"internal/syscall/unix/at.go", "func Unlinkat(", "if syscall.Sim != nil { if err, ok := syscall.Sim.Unlink(dirfd, path, flags); ok { return err } }"},
	{"internal/syscall/unix/at.go", "func Openat(", "if syscall.Sim != nil { if fd, err, ok := syscall.Sim.Open(dirfd, path, flags, perm); ok { return fd, err } }"},
	{"internal/syscall/unix/at.go", "func Readlinkat(", "if syscall.Sim != nil { if n, err, ok := syscall.Sim.Readlink(dirfd, path, buf); ok { return n, err } }"},
	{"internal/syscall/unix/at.go", "func Mkdirat(", "if syscall.Sim != nil { if err, ok := syscall.Sim.Mkdir(dirfd, path, mode); ok { return err } }"},
	{"internal/syscall/unix/at.go", "func Fchownat(", "if syscall.Sim != nil { if err, ok := syscall.Sim.Utimens(dirfd, path); ok { return err } }"},
	{"internal/syscall/unix/at.go", "func Renameat(", "if syscall.Sim != nil { if err, ok := syscall.Sim.Rename(olddirfd, oldpath, newdirfd, newpath); ok { return err } }"},
	{"internal/syscall/unix/at.go", "func Linkat(", "if syscall.Sim != nil { if err, ok := syscall.Sim.Link(olddirfd, oldpath, newdirfd, newpath); ok { return err } }"},
	{"internal/syscall/unix/at.go", "func Symlinkat(", "if syscall.Sim != nil { if err, ok := syscall.Sim.Symlink(oldpath, newdirfd, newpath); ok { return err } }"},
	{"internal/syscall/unix/at_fstatat.go", "func Fstatat(", "if syscall.Sim != nil { if err, ok := syscall.Sim.Stat(dirfd, path, stat, flags); ok { return err } }"},
	{"internal/syscall/unix/copy_file_range_unix.go", "func CopyFileRange(", "if syscall.Sim != nil && (rfd >= syscall.SimFdBase || wfd >= syscall.SimFdBase) { return 0, syscall.ENOSYS }"},
	{"time/time.go", "func Now() Time {", "if SimNow != nil { s, n, m := SimNow(); if w := s + unixToInternal - minWall; uint64(w)>>33 == 0 { return Time{hasMonotonic | uint64(w)<<nsecShift | uint64(n), m, Local} }; return Time{uint64(n), s + unixToInternal, Local} }"},
	{"time/time.go", "func Since(t Time) Duration {", "if t.wall&hasMonotonic != 0 && t.ext >= SimEpoch && SimMono != nil { return subMono(SimMono(), t.ext) }"},
	{"time/time.go", "func Until(t Time) Duration {", "if t.wall&hasMonotonic != 0 && t.ext >= SimEpoch && SimMono != nil { return subMono(t.ext, SimMono()) }"},
	{"os/proc.go", "func Exit(code int) {", "if syscall.Sim != nil { syscall.Sim.Exit(code) }"},
	{"os/tempfile.go", "func nextRandom() string {", "if syscall.Sim != nil { return strconv.FormatUint(uint64(uint32(syscall.Sim.Rand())), 10) }"},
	{"os/sys.go", "func Hostname() (", "if syscall.Sim != nil { return syscall.Sim.Hostname(), nil }"},
	{"os/file_unix.go", "func epipecheck(", "if syscall.Sim != nil { return }"},
	{"os/exec_posix.go", "func startProcess(", "if syscall.Sim != nil { return nil, &PathError{Op: \"fork/exec\", Path: name, Err: syscall.ENOENT} }"},
	{"net/http/roundtrip.go", "func (t *Transport) RoundTrip(", "if SimTransport != nil { return SimTransport(req) }"},
	{"net/http/server.go", "func (s *Server) ListenAndServe() error {", "if SimServe != nil { return SimServe(s.Addr, serverHandler{s}) }"},
	{"net/http/server.go", "func (s *Server) Serve(l net.Listener) error {", "if SimServe != nil { return SimServe(s.Addr, serverHandler{s}) }"},
	{"net/dial.go", "func Listen(network, address string) (Listener, error) {", "if SimListen != nil { return SimListen(network, address) }"},
}

var textSubst = map[string][][2]string{
	"math/rand/rand.go":    {{"runtime_rand() & rngMask", "simRand() & rngMask"}, {"return runtime_rand()", "return simRand()"}},
	"math/rand/v2/rand.go": {{"return runtime_rand()", "return simRand()"}},
	"os/sys.go":            {{"package os\n", "package os\n\nimport \"syscall\"\n"}},
	"os/tempfile.go":       {{"package os\n", "package os\n\nimport \"syscall\"\n"}},
}

var newFiles = map[string]string{
	"syscall/zz_sim.go": `package syscall

const SimFdBase = 1000000

// SimKernel is the simulated kernel. A false last result means the call is not
// for the simulator and goes to the real kernel.
type SimKernel interface {
	Open(dirfd int, path string, flags int, mode uint32) (int, error, bool)
	Read(fd int, p []byte) (int, error, bool)
	Write(fd int, p []byte) (int, error, bool)
	Pread(fd int, p []byte, off int64) (int, error, bool)
	Pwrite(fd int, p []byte, off int64) (int, error, bool)
	Close(fd int) (error, bool)
	Fstat(fd int, st *Stat_t) (error, bool)
	Stat(dirfd int, path string, st *Stat_t, flags int) (error, bool)
	Mkdir(dirfd int, path string, mode uint32) (error, bool)
	Unlink(dirfd int, path string, flags int) (error, bool)
	Rename(olddirfd int, oldpath string, newdirfd int, newpath string) (error, bool)
	Link(olddirfd int, oldpath string, newdirfd int, newpath string) (error, bool)
	Symlink(oldpath string, newdirfd int, newpath string) (error, bool)
	Readlink(dirfd int, path string, buf []byte) (int, error, bool)
	Access(dirfd int, path string, mode uint32) (error, bool)
	Chmod(dirfd int, path string, mode uint32) (error, bool)
	Fchmod(fd int, mode uint32) (error, bool)
	Utimens(dirfd int, path string) (error, bool)
	FdMisc(fd int, what string) (error, bool)
	Fsync(fd int) (error, bool)
	Ftruncate(fd int, n int64) (error, bool)
	Truncate(path string, n int64) (error, bool)
	Seek(fd int, off int64, whence int) (int64, error, bool)
	Getdents(fd int, buf []byte) (int, error, bool)
	Getcwd(buf []byte) (int, error, bool)
	Chdir(path string) (error, bool)
	Getpid() int
	Hostname() string
	Rand() uint64
	Exit(code int)
}

var Sim SimKernel

func simClose(fd int) (error, bool) {
	if Sim != nil {
		return Sim.Close(fd)
	}
	return nil, true // a descriptor of a simulation that is over
}
`,
	"net/http/zz_sim.go": `package http

// SimTransport and SimServe stand in for the network.
var (
	SimTransport func(*Request) (*Response, error)
	SimServe     func(addr string, h Handler) error
)
`,
	"net/zz_sim.go":          "package net\n\nvar SimListen func(network, address string) (Listener, error)\n",
	"time/zz_sim.go":         "package time\n\n// SimEpoch tells simulated monotonic readings from real ones.\nconst SimEpoch = 1 << 60\n\nvar SimNow func() (sec int64, nsec int32, mono int64)\nvar SimMono func() int64\n",
	"math/rand/zz_sim.go":    "package rand\n\nvar SimRand func() uint64\n\nfunc simRand() uint64 {\n\tif SimRand != nil {\n\t\treturn SimRand()\n\t}\n\treturn runtime_rand()\n}\n",
	"math/rand/v2/zz_sim.go": "package rand\n\nvar SimRand func() uint64\n\nfunc simRand() uint64 {\n\tif SimRand != nil {\n\t\treturn SimRand()\n\t}\n\treturn runtime_rand()\n}\n",
}

// writeOverlay writes the patched standard-library files into dir and returns
// the path of the overlay description.
func writeOverlay(goroot, dir string) (string, error) {
	src := filepath.Join(goroot, "src")
	content := map[string]string{}
	load := func(f string) error {
		if _, ok := content[f]; ok {
			return nil
		}
		b, err := os.ReadFile(filepath.Join(src, f))
		if err != nil {
			return err
		}
		content[f] = string(b)
		return nil
	}
	for _, h := range hooks {
		if err := load(h.file); err != nil {
			return "", err
		}
		s := content[h.file]
		i := strings.Index(s, "\n"+h.fn)
		if i < 0 {
			return "", fmt.Errorf("no %q in %s", h.fn, h.file)
		}
		j := strings.Index(s[i+1:], "{\n")
		if j < 0 {
			return "", fmt.Errorf("no body for %q", h.fn)
		}
		at := i + 1 + j + 1
		content[h.file] = s[:at] + "\n\t" + h.code + s[at:]
	}
	for f, subs := range textSubst {
		if err := load(f); err != nil {
			return "", err
		}
		for _, r := range subs {
			if !strings.Contains(content[f], r[0]) {
				return "", fmt.Errorf("no %q in %s", r[0], f)
			}
			content[f] = strings.Replace(content[f], r[0], r[1], 1)
		}
	}
	for f, s := range newFiles {
		content[f] = s
	}
	repl := map[string]string{}
	if err := os.MkdirAll(dir, 0755); err != nil {
		return "", err
	}
	for f, s := range content {
		out := filepath.Join(dir, strings.ReplaceAll(f, "/", "__"))
		if err := os.WriteFile(out, []byte(s), 0644); err != nil {
			return "", err
		}
		repl[filepath.Join(src, f)] = out
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": repl}, "", " ")
	path := filepath.Join(dir, "overlay.json")
	return path, os.WriteFile(path, b, 0644)
}
