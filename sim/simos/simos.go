// Package simos replaces os in the code under test: every file operation goes to the
// simulated disk of the current world, with its fault points.
package simos

import (
	"bytes"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"vsim/rt"
)

// Things of the real package that do no I/O.
type (
	FileInfo     = os.FileInfo
	FileMode     = os.FileMode
	DirEntry     = os.DirEntry
	PathError    = os.PathError
	LinkError    = os.LinkError
	SyscallError = os.SyscallError
	Signal       = os.Signal
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC

	SEEK_SET = io.SeekStart
	SEEK_CUR = io.SeekCurrent
	SEEK_END = io.SeekEnd

	PathSeparator     = os.PathSeparator
	PathListSeparator = os.PathListSeparator
	DevNull           = os.DevNull

	ModeDir        = os.ModeDir
	ModeAppend     = os.ModeAppend
	ModeExclusive  = os.ModeExclusive
	ModeTemporary  = os.ModeTemporary
	ModeSymlink    = os.ModeSymlink
	ModeDevice     = os.ModeDevice
	ModeNamedPipe  = os.ModeNamedPipe
	ModeSocket     = os.ModeSocket
	ModeSetuid     = os.ModeSetuid
	ModeSetgid     = os.ModeSetgid
	ModeCharDevice = os.ModeCharDevice
	ModeSticky     = os.ModeSticky
	ModeIrregular  = os.ModeIrregular
	ModeType       = os.ModeType
	ModePerm       = os.ModePerm
)

var (
	ErrInvalid          = os.ErrInvalid
	ErrPermission       = os.ErrPermission
	ErrExist            = os.ErrExist
	ErrNotExist         = os.ErrNotExist
	ErrClosed           = os.ErrClosed
	ErrNoDeadline       = os.ErrNoDeadline
	ErrDeadlineExceeded = os.ErrDeadlineExceeded
	ErrProcessDone      = os.ErrProcessDone

	Interrupt Signal = os.Interrupt
	Kill      Signal = os.Kill
	Args             = []string{"sim"}

	IsExist         = os.IsExist
	IsNotExist      = os.IsNotExist
	IsPermission    = os.IsPermission
	IsTimeout       = os.IsTimeout
	IsPathSeparator = os.IsPathSeparator
	NewSyscallError = os.NewSyscallError
	Expand          = os.Expand
	Getpagesize     = os.Getpagesize

	Stdin  = &File{name: "/dev/stdin", std: true}
	Stdout = &File{name: "/dev/stdout", std: true}
	Stderr = &File{name: "/dev/stderr", std: true}
)

// Getpid is the same for all callers, which are threads of one process, but for those
// that are going to crash: they stand for processes of their own.
func Getpid() int {
	if e := rt.Cur(); e != nil && e.CrashAt != 0 {
		return 4001 + e.ID + int(rt.Host(11)%20000)
	}
	return 4000 + int(rt.Host(11)%20000)
}
func Getppid() int              { return 1 }
func Getuid() int               { return 1000 }
func Geteuid() int              { return 1000 }
func Getgid() int               { return 1000 }
func Getegid() int              { return 1000 }
func Getgroups() ([]int, error) { return []int{1000}, nil }
func Hostname() (string, error) {
	if h := rt.Host(12); h != 0 {
		return "host-" + strconv.Itoa(int(h%100000)), nil
	}
	return "sim", nil
}
func Getwd() (string, error)         { return rt.W.FS.Dir(), nil }
func UserHomeDir() (string, error)   { return Getenv("HOME"), nil }
func UserCacheDir() (string, error)  { return "/tmp", nil }
func UserConfigDir() (string, error) { return "/work", nil }
func Executable() (string, error)    { return "/sim/caller", nil }
func TempDir() string {
	if d := Getenv("TMPDIR"); d != "" {
		return d
	}
	return "/tmp"
}
func Getenv(k string) string { v, _ := LookupEnv(k); return v }
func LookupEnv(k string) (string, bool) {
	defer rt.Enter()()
	v, ok := rt.W.Vars[k]
	return v, ok
}
func Environ() []string {
	defer rt.Enter()()
	var r []string
	for k, v := range rt.W.Vars {
		r = append(r, k+"="+v)
	}
	sort.Strings(r)
	return r
}
func Setenv(k, v string) error {
	defer rt.Enter()()
	if e := rt.Cur(); e == nil || !e.Dead {
		rt.W.Vars[k] = v
	}
	return nil
}
func Unsetenv(k string) error {
	defer rt.Enter()()
	delete(rt.W.Vars, k)
	return nil
}
func Clearenv() {
	defer rt.Enter()()
	rt.W.Vars = map[string]string{}
}
func Chdir(dir string) error {
	fi, err := Stat(dir)
	if err != nil || !fi.IsDir() {
		return &PathError{Op: "chdir", Path: dir, Err: syscall.ENOENT}
	}
	rt.W.FS.Cwd = rt.Clean(dir)
	return nil
}
func Chown(name string, uid, gid int) error  { return exists("chown", name) }
func Lchown(name string, uid, gid int) error { return exists("lchown", name) }
func Link(a, b string) error {
	if err := rt.W.FS.Link(a, b); err != nil {
		return &LinkError{Op: "link", Old: a, New: b, Err: err}
	}
	return nil
}
func Symlink(a, b string) error {
	return &LinkError{Op: "symlink", Old: a, New: b, Err: syscall.EPERM}
}
func Readlink(name string) (string, error) {
	if err := exists("readlink", name); err != nil {
		return "", err
	}
	return "", &PathError{Op: "readlink", Path: name, Err: syscall.EINVAL}
}
func NewFile(fd uintptr, name string) *File { return &File{name: name, std: true} }

// Pipe is a pipe inside the process.
func Pipe() (r, w *File, err error) {
	b := &bytes.Buffer{}
	return &File{name: "|0", pipe: b}, &File{name: "|1", pipe: b}, nil
}
func FindProcess(pid int) (*Process, error) { return &Process{Pid: pid}, nil }
func StartProcess(name string, argv []string, attr *os.ProcAttr) (*Process, error) {
	return nil, &PathError{Op: "fork/exec", Path: name, Err: syscall.ENOSYS}
}

// KillPid is for direct signals.
func KillPid(pid int) error { return nil }

// DirFS shows a directory of the simulated disk.
func DirFS(dir string) fs.FS { return dirFS(dir) }

type dirFS string

func (d dirFS) Open(name string) (fs.File, error)          { return Open(string(d) + "/" + name) }
func (d dirFS) ReadDir(name string) ([]fs.DirEntry, error) { return ReadDir(string(d) + "/" + name) }

func ExpandEnv(s string) string           { return Expand(s, Getenv) }
func Exit(code int)                       { panic(ExitCalled{code}) }
func SameFile(a, b FileInfo) bool         { return a.Name() == b.Name() }
func Chmod(name string, m FileMode) error { return exists("chmod", name) }
func Chtimes(name string, a, m time.Time) error {
	return exists("chtimes", name)
}

// ExitCalled is thrown when the code under test calls os.Exit.
type ExitCalled struct{ Code int }

func exists(op, name string) error {
	if _, err := Stat(name); err != nil {
		return &PathError{Op: op, Path: name, Err: syscall.ENOENT}
	}
	return nil
}

func wrap(op, p string, err error) error {
	if err == nil {
		return nil
	}
	if rt.IsClosedErr(err) {
		err = ErrClosed
	}
	return &PathError{Op: op, Path: p, Err: err}
}

// File is an open file of the simulated disk.
type File struct {
	h    *rt.Handle
	name string
	std  bool
	pipe *bytes.Buffer
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if name == DevNull {
		return &File{name: name, std: true}, nil
	}
	h, err := rt.W.FS.OpenFile("open", name, flag)
	if err != nil {
		return nil, wrap("open", name, err)
	}
	return &File{h: h, name: name}, nil
}

func tempName(dir, pattern string) (string, string, error) {
	if dir == "" {
		dir = TempDir()
	}
	if strings.ContainsRune(pattern, PathSeparator) {
		return "", "", &PathError{Op: "createtemp", Path: pattern, Err: syscall.EINVAL}
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	return strings.TrimSuffix(dir, "/") + "/" + pre, suf, nil
}

func CreateTemp(dir, pattern string) (*File, error) {
	pre, suf, err := tempName(dir, pattern)
	if err != nil {
		return nil, err
	}
	for try := 0; ; try++ {
		name := pre + rt.W.TempSuffix() + suf
		h, err := rt.W.FS.OpenFile("createtemp", name, O_RDWR|O_CREATE|O_EXCL)
		if err == syscall.EEXIST && try < 10000 {
			continue
		}
		if err != nil {
			return nil, wrap("open", name, err)
		}
		return &File{h: h, name: name}, nil
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	pre, suf, err := tempName(dir, pattern)
	if err != nil {
		return "", err
	}
	for try := 0; ; try++ {
		name := pre + rt.W.TempSuffix() + suf
		err := rt.W.FS.Mkdir(name, false)
		if err == syscall.EEXIST && try < 10000 {
			continue
		}
		if err != nil {
			return "", wrap("mkdir", name, err)
		}
		return name, nil
	}
}

func Mkdir(name string, perm FileMode) error { return wrap("mkdir", name, rt.W.FS.Mkdir(name, false)) }
func MkdirAll(name string, perm FileMode) error {
	return wrap("mkdir", name, rt.W.FS.Mkdir(name, true))
}
func Remove(name string) error    { return wrap("remove", name, rt.W.FS.Remove(name, false)) }
func RemoveAll(name string) error { return wrap("unlinkat", name, rt.W.FS.Remove(name, true)) }

func Rename(a, b string) error {
	if err := rt.W.FS.Rename(a, b); err != nil {
		return &LinkError{Op: "rename", Old: a, New: b, Err: err}
	}
	return nil
}

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

type info struct {
	name string
	size int64
	mode FileMode
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() FileMode     { return i.mode }
func (i info) ModTime() time.Time { return time.Unix(0, 0) }
func (i info) IsDir() bool        { return i.mode.IsDir() }
func (i info) Sys() any           { return nil }

func Stat(name string) (FileInfo, error) {
	defer rt.Enter()()
	p := rt.Clean(name)
	if ino := rt.W.FS.Files[p]; ino != nil {
		return info{path.Base(p), int64(len(ino.Data)), FileMode(ino.Mode)}, nil
	}
	if rt.W.FS.Dirs[p] {
		return info{path.Base(p), 4096, fs.ModeDir | 0o755}, nil
	}
	return nil, wrap("stat", name, syscall.ENOENT)
}
func Lstat(name string) (FileInfo, error) { return Stat(name) }

func ReadDir(name string) ([]DirEntry, error) {
	defer rt.Enter()()
	if !rt.W.FS.Dirs[rt.Clean(name)] {
		return nil, wrap("open", name, syscall.ENOENT)
	}
	var r []DirEntry
	for _, n := range rt.W.FS.List(name) {
		fi, err := Stat(strings.TrimSuffix(name, "/") + "/" + n)
		if err == nil {
			r = append(r, fs.FileInfoToDirEntry(fi))
		}
	}
	return r, nil
}

func (f *File) check(op string) error {
	if f == nil {
		return ErrInvalid
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }

func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.std {
		return len(b), nil
	}
	if f.pipe != nil {
		return f.pipe.Write(b)
	}
	n, err := rt.W.FS.Write(f.h, b)
	return n, wrap("write", f.name, err)
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	save := f.h.Pos
	f.h.Pos = int(off)
	n, err := rt.W.FS.Write(f.h, b)
	f.h.Pos = save
	return n, wrap("write", f.name, err)
}
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(onlyWriter{f}, r)
}
func (f *File) WriteTo(w io.Writer) (int64, error) { return io.Copy(w, onlyReader{f}) }

type onlyWriter struct{ io.Writer }
type onlyReader struct{ io.Reader }

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.std {
		return 0, io.EOF
	}
	if f.pipe != nil {
		return f.pipe.Read(b)
	}
	if len(b) == 0 {
		return 0, nil
	}
	n, eof, err := rt.W.FS.Read(f.h, b)
	if eof {
		return 0, io.EOF
	}
	return n, wrap("read", f.name, err)
}
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	save := f.h.Pos
	defer func() { f.h.Pos = save }()
	f.h.Pos = int(off)
	return io.ReadFull(onlyReader{f}, b)
}
func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	if f.h.Closed {
		return 0, wrap("seek", f.name, ErrClosed)
	}
	switch whence {
	case io.SeekCurrent:
		off += int64(f.h.Pos)
	case io.SeekEnd:
		off += int64(len(f.h.Ino.Data))
	}
	if off < 0 {
		return 0, wrap("seek", f.name, syscall.EINVAL)
	}
	f.h.Pos = int(off)
	return off, nil
}
func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if f.std || f.pipe != nil {
		return nil
	}
	return wrap("close", f.name, rt.W.FS.Close(f.h))
}
func (f *File) Sync() error {
	if f == nil {
		return ErrInvalid
	}
	if f.std || f.pipe != nil {
		return nil
	}
	return wrap("sync", f.name, rt.W.FS.Sync(f.h))
}
func (f *File) Stat() (FileInfo, error) {
	if f == nil {
		return nil, ErrInvalid
	}
	if f.std {
		return info{f.name, 0, 0o666}, nil
	}
	if f.h.Closed {
		return nil, wrap("stat", f.name, ErrClosed)
	}
	return info{path.Base(f.name), int64(len(f.h.Ino.Data)), FileMode(f.h.Ino.Mode)}, nil
}
func (f *File) Truncate(size int64) error {
	if f == nil {
		return ErrInvalid
	}
	if f.h.Closed {
		return wrap("truncate", f.name, ErrClosed)
	}
	rt.W.FS.Truncate(f.h.Path, f.h.Ino, int(size))
	return nil
}
func (f *File) Chmod(m FileMode) error             { return nil }
func (f *File) SetDeadline(t time.Time) error      { return ErrNoDeadline }
func (f *File) SetReadDeadline(t time.Time) error  { return ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error { return ErrNoDeadline }
func (f *File) Chown(uid, gid int) error           { return nil }
func (f *File) Chdir() error                       { return Chdir(f.name) }
func (f *File) SyscallConn() (syscall.RawConn, error) {
	return nil, wrap("SyscallConn", f.name, syscall.ENOTSUP)
}

// ReadDir hands out the entries in directory order.
func (f *File) ReadDir(n int) ([]DirEntry, error) {
	if f.h == nil || f.h.Closed {
		return nil, wrap("readdirent", f.name, ErrClosed)
	}
	all, err := ReadDir(f.name)
	if err != nil {
		return nil, err
	}
	all = all[min(f.h.Pos, len(all)):]
	if n > 0 {
		if len(all) == 0 {
			return nil, io.EOF
		}
		all = all[:min(n, len(all))]
	}
	f.h.Pos += len(all)
	return all, nil
}
func (f *File) Readdir(n int) ([]FileInfo, error) {
	ds, err := f.ReadDir(n)
	var r []FileInfo
	for _, d := range ds {
		if fi, err := d.Info(); err == nil {
			r = append(r, fi)
		}
	}
	return r, err
}
func (f *File) Readdirnames(n int) ([]string, error) {
	ds, err := f.ReadDir(n)
	var r []string
	for _, d := range ds {
		r = append(r, d.Name())
	}
	return r, err
}

// ProcessState and Process are the simulated process.
type ProcessState struct {
	Code_   int
	Signal_ int
	Pid_    int
}

func (p *ProcessState) ExitCode() int {
	if p == nil || p.Signal_ != 0 {
		return -1
	}
	return p.Code_
}
func (p *ProcessState) Exited() bool  { return p.Signal_ == 0 }
func (p *ProcessState) Success() bool { return p.Signal_ == 0 && p.Code_ == 0 }
func (p *ProcessState) Pid() int      { return p.Pid_ }
func (p *ProcessState) Sys() any {
	if p.Signal_ != 0 {
		return syscall.WaitStatus(p.Signal_)
	}
	return syscall.WaitStatus(p.Code_ << 8)
}
func (p *ProcessState) SysUsage() any             { return nil }
func (p *ProcessState) SystemTime() time.Duration { return 0 }
func (p *ProcessState) UserTime() time.Duration   { return 0 }
func (p *ProcessState) String() string {
	if p == nil {
		return "<nil>"
	}
	if p.Signal_ != 0 {
		return "signal: " + syscall.Signal(p.Signal_).String()
	}
	return "exit status " + itoa(p.Code_)
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

type Process struct {
	Pid    int
	OnKill func()
	OnWait func() (*ProcessState, error)
}

func (p *Process) Kill() error {
	if p.OnKill != nil {
		p.OnKill()
	}
	return nil
}
func (p *Process) Wait() (*ProcessState, error) {
	if p.OnWait != nil {
		return p.OnWait()
	}
	return nil, NewSyscallError("wait", syscall.ECHILD)
}
func (p *Process) Signal(s Signal) error {
	if s == syscall.Signal(0) {
		return nil
	}
	return p.Kill()
}
func (p *Process) Release() error { return nil }

// VrtShim marks the simulated package.
const VrtShim = 0
