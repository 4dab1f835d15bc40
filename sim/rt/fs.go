package rt

import (
	"path"
	"sort"
	"strings"
	"syscall"
)

// FS is the simulated disk: a flat table of paths with shared inodes, so that a file
// removed while open stays readable through its handles, as on a real system.
type FS struct {
	Files map[string]*Inode
	Dirs  map[string]bool
	Gen   int
	Open  map[*Handle]bool
	// Touched lists mutations of files that existed before the run or that another
	// caller created ("op path").
	Touched []string
	Cwd     string
}

// Dir is the working directory.
func (f *FS) Dir() string {
	if f.Cwd == "" {
		return "/work"
	}
	return f.Cwd
}

type Inode struct {
	Data  []byte
	Owner int // caller that created it; -1: was there before
	Birth int
	Mode  uint32
}

type Handle struct {
	Path    string
	Ino     *Inode
	Pos     int
	Rd, Wr  bool
	App     bool
	Closed  bool
	Env     *Env
	base    int // length of the file when opened (after truncation)
	Written int
}

func newFS() *FS {
	return &FS{Files: map[string]*Inode{}, Dirs: map[string]bool{"/": true, "/tmp": true, "/sim": true, "/work": true}, Open: map[*Handle]bool{}}
}

// Clean makes a path absolute ("/work" is the working directory).
func Clean(p string) string {
	if !strings.HasPrefix(p, "/") {
		d := "/work"
		if W != nil && W.FS != nil {
			d = W.FS.Dir()
		}
		p = d + "/" + p
	}
	return path.Clean(p)
}

// Preload puts a file on the disk before the run.
func (f *FS) Preload(p string, data string) {
	f.Files[Clean(p)] = &Inode{Data: []byte(data), Owner: -1, Mode: 0o755}
}

func (f *FS) touch(op, p string, ino *Inode, e *Env) {
	if ino != nil && ino.Owner != e.ID {
		f.Touched = append(f.Touched, op+" "+p)
	}
}

func (f *FS) parentOK(p string) bool { return f.Dirs[path.Dir(p)] }

func errnoOf(kind string) syscall.Errno {
	switch kind {
	case "enospc":
		return syscall.ENOSPC
	case "eio":
		return syscall.EIO
	case "edquot":
		return syscall.EDQUOT
	case "emfile":
		return syscall.EMFILE
	case "eacces":
		return syscall.EACCES
	case "enoent":
		return syscall.ENOENT
	case "ebusy":
		return syscall.EBUSY
	case "erofs":
		return syscall.EROFS
	case "eagain":
		return syscall.EAGAIN
	case "enomem":
		return syscall.ENOMEM
	case "etxtbsy":
		return syscall.ETXTBSY
	}
	return syscall.EIO
}

func Errno(kind string) syscall.Errno { return errnoOf(kind) }

const (
	ORDWR   = 2
	OWRONLY = 1
	OCREATE = 0x40
	OEXCL   = 0x80
	OTRUNC  = 0x200
	OAPPEND = 0x400
)

// OpenFile opens or creates a file; op names the fault point ("open", "createtemp").
func (f *FS) OpenFile(op, p string, flag int) (*Handle, error) {
	defer Enter()()
	e := Cur()
	p = Clean(p)
	if e.Dead {
		return &Handle{Path: p, Ino: &Inode{}, Env: e, Rd: true, Wr: true}, nil
	}
	if f.Files[p] != nil && flag&OEXCL != 0 && flag&OCREATE != 0 {
		// Not a fault point: how often a temporary name is taken already depends on
		// what others do.
		return nil, syscall.EEXIST
	}
	if flt := e.Next(op); flt != nil {
		W.Event("%s %s -> %s", op, canon(p), flt.Kind)
		return nil, errnoOf(flt.Kind)
	}
	ino := f.Files[p]
	if ino == nil {
		if f.Dirs[p] {
			if flag&3 != 0 {
				return nil, syscall.EISDIR
			}
			return &Handle{Path: p, Ino: &Inode{}, Env: e, Rd: true}, nil
		}
		if flag&OCREATE == 0 {
			W.Event("%s %s -> ENOENT", op, canon(p))
			return nil, syscall.ENOENT
		}
		if !f.parentOK(p) {
			W.Event("%s %s -> ENOENT (dir)", op, canon(p))
			return nil, syscall.ENOENT
		}
		f.Gen++
		ino = &Inode{Owner: e.ID, Birth: f.Gen, Mode: 0o600}
		f.Files[p] = ino
	} else {
		if flag&OTRUNC != 0 && flag&3 != 0 {
			f.touch("truncate", p, ino, e)
			ino.Data = nil
		}
	}
	h := &Handle{Path: p, Ino: ino, Env: e, Rd: flag&3 != OWRONLY, Wr: flag&3 != 0, App: flag&OAPPEND != 0, base: len(ino.Data)}
	f.Open[h] = true
	e.Handles++
	W.Event("%s %s", op, canon(p))
	W.Now += 20_000
	return h, nil
}

func (f *FS) Write(h *Handle, b []byte) (int, error) {
	defer Enter()()
	e := Cur()
	if e.Dead {
		return len(b), nil
	}
	if h.Closed {
		return 0, errClosed
	}
	if !h.Wr {
		return 0, syscall.EBADF
	}
	if flt := e.Next("write"); flt != nil {
		n := 0
		if flt.Kind == "enospc" || flt.Kind == "edquot" {
			n = len(b) * (flt.Arg % 1000) / 1000
		}
		f.put(h, b[:n])
		W.Event("write %d of %d -> %s", n, len(b), flt.Kind)
		return n, errnoOf(flt.Kind)
	}
	f.touch("write", h.Path, h.Ino, e)
	f.put(h, b)
	W.Now += 1_000
	return len(b), nil
}

func (f *FS) put(h *Handle, b []byte) {
	if h.App {
		h.Pos = len(h.Ino.Data)
	}
	for len(h.Ino.Data) < h.Pos {
		h.Ino.Data = append(h.Ino.Data, 0)
	}
	n := copy(h.Ino.Data[h.Pos:], b)
	h.Ino.Data = append(h.Ino.Data, b[n:]...)
	h.Pos += len(b)
	h.Written += len(b)
}

// Read may return fewer bytes than asked for, as the system call may.
func (f *FS) Read(h *Handle, b []byte) (int, bool, error) {
	defer Enter()()
	e := Cur()
	if h.Closed {
		return 0, false, errClosed
	}
	if !e.Dead {
		if flt := e.Next("read"); flt != nil {
			return 0, false, errnoOf(flt.Kind)
		}
	}
	if h.Pos >= len(h.Ino.Data) {
		return 0, true, nil
	}
	n := copy(b, h.Ino.Data[h.Pos:])
	h.Pos += n
	return n, false, nil
}

func (f *FS) Close(h *Handle) error {
	defer Enter()()
	e := Cur()
	if h.Closed {
		return errClosed
	}
	h.Closed = true
	if e.Dead {
		return nil
	}
	if f.Open[h] {
		delete(f.Open, h)
		h.Env.Handles--
	}
	if !h.Wr || h.Written == 0 {
		// Nothing buffered: closing cannot lose anything, but it is still counted
		// apart so that plans address closes that matter.
		if flt := e.Next("close-clean"); flt != nil {
			W.Event("close %s -> %s", canon(h.Path), flt.Kind)
			return errnoOf(flt.Kind)
		}
		W.Event("close %s", canon(h.Path))
		return nil
	}
	if flt := e.Next("close"); flt != nil {
		keep := h.base + (len(h.Ino.Data)-h.base)*(flt.Arg%1000)/1000
		if keep >= 0 && keep < len(h.Ino.Data) {
			h.Ino.Data = h.Ino.Data[:keep:keep]
		}
		W.Event("close %s -> %s, %d bytes kept", canon(h.Path), flt.Kind, keep)
		return errnoOf(flt.Kind)
	}
	W.Event("close %s, %d bytes", canon(h.Path), len(h.Ino.Data))
	return nil
}

var errClosed = errClosedT{}

type errClosedT struct{}

func (errClosedT) Error() string { return "file already closed" }

// ErrClosed tells simos to return os.ErrClosed.
func IsClosedErr(err error) bool { _, ok := err.(errClosedT); return ok }

func (f *FS) Remove(p string, all bool) error {
	defer Enter()()
	e := Cur()
	p = Clean(p)
	if e.Dead {
		return nil
	}
	if flt := e.Next("remove"); flt != nil {
		W.Event("remove %s -> %s", canon(p), flt.Kind)
		return errnoOf(flt.Kind)
	}
	W.Now += 20_000
	if ino, ok := f.Files[p]; ok {
		f.touch("remove", p, ino, e)
		delete(f.Files, p)
		W.Event("remove %s", canon(p))
		return nil
	}
	if f.Dirs[p] {
		for _, q := range f.sorted() {
			if strings.HasPrefix(q, p+"/") {
				if !all {
					return syscall.ENOTEMPTY
				}
				f.touch("remove", q, f.Files[q], e)
				delete(f.Files, q)
			}
		}
		for d := range f.Dirs {
			if strings.HasPrefix(d, p+"/") {
				if !all {
					return syscall.ENOTEMPTY
				}
				delete(f.Dirs, d)
			}
		}
		delete(f.Dirs, p)
		W.Event("remove %s", canon(p))
		return nil
	}
	W.Event("remove %s -> ENOENT", canon(p))
	if all {
		return nil
	}
	return syscall.ENOENT
}

func (f *FS) sorted() []string {
	r := make([]string, 0, len(f.Files))
	for p := range f.Files {
		r = append(r, p)
	}
	sort.Strings(r)
	return r
}

// Paths lists the files on the disk.
func (f *FS) Paths() []string { return f.sorted() }

// All lists files and directories.
func (f *FS) All() []string {
	r := f.sorted()
	for d := range f.Dirs {
		r = append(r, d)
	}
	sort.Strings(r)
	return r
}

// Link gives a file a second name.
func (f *FS) Link(a, b string) error {
	defer Enter()()
	e := Cur()
	a, b = Clean(a), Clean(b)
	if e.Dead {
		return nil
	}
	if flt := e.Next("link"); flt != nil {
		return errnoOf(flt.Kind)
	}
	ino, ok := f.Files[a]
	if !ok || !f.parentOK(b) {
		return syscall.ENOENT
	}
	if f.Files[b] != nil || f.Dirs[b] {
		return syscall.EEXIST
	}
	f.Files[b] = ino
	return nil
}

// List returns the names directly inside a directory.
func (f *FS) List(dir string) []string {
	dir = Clean(dir)
	seen := map[string]bool{}
	for p := range f.Files {
		if path.Dir(p) == dir {
			seen[path.Base(p)] = true
		}
	}
	for p := range f.Dirs {
		if p != "/" && path.Dir(p) == dir {
			seen[path.Base(p)] = true
		}
	}
	r := make([]string, 0, len(seen))
	for n := range seen {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

func (f *FS) Rename(a, b string) error {
	defer Enter()()
	e := Cur()
	a, b = Clean(a), Clean(b)
	if e.Dead {
		return nil
	}
	if flt := e.Next("rename"); flt != nil {
		return errnoOf(flt.Kind)
	}
	ino, ok := f.Files[a]
	if !ok {
		return syscall.ENOENT
	}
	f.touch("rename", a, ino, e)
	if o, ok := f.Files[b]; ok {
		f.touch("rename over", b, o, e)
	}
	delete(f.Files, a)
	f.Files[b] = ino
	W.Event("rename %s", canon(a))
	return nil
}

func (f *FS) Mkdir(p string, all bool) error {
	defer Enter()()
	e := Cur()
	p = Clean(p)
	if e.Dead {
		return nil
	}
	if flt := e.Next("mkdir"); flt != nil {
		return errnoOf(flt.Kind)
	}
	if f.Dirs[p] {
		if all {
			return nil
		}
		return syscall.EEXIST
	}
	if f.Files[p] != nil {
		return syscall.EEXIST
	}
	if !f.Dirs[path.Dir(p)] {
		if !all {
			return syscall.ENOENT
		}
		for d := path.Dir(p); d != "/"; d = path.Dir(d) {
			f.Dirs[d] = true
		}
	}
	f.Dirs[p] = true
	return nil
}

func (f *FS) Truncate(p string, ino *Inode, n int) {
	e := Cur()
	if e.Dead {
		return
	}
	f.touch("truncate", p, ino, e)
	for len(ino.Data) < n {
		ino.Data = append(ino.Data, 0)
	}
	ino.Data = ino.Data[:n]
}

// canon hides the random part of temporary names, so that logs of runs that differ
// only in names compare equal where that matters.
func canon(p string) string { return p }

// Sync makes no difference to what is stored, but may fail.
func (f *FS) Sync(h *Handle) error {
	e := Cur()
	if e.Dead {
		return nil
	}
	if h.Closed {
		return errClosed
	}
	if flt := e.Next("sync"); flt != nil {
		return errnoOf(flt.Kind)
	}
	return nil
}
