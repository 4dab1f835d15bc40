// Package simexec replaces os/exec in the code under test: programs are functions of
// the simulated world, started, delayed, killed and garbled by the fault plan.
package simexec

import (
	"bytes"
	"context"
	"errors"
	"io"
	"io/fs"
	"os/exec"
	"strconv"
	"strings"
	"syscall"
	"time"

	"vsim/rt"
	"vsim/simcontext"
	"vsim/simos"
)

var (
	ErrNotFound  = exec.ErrNotFound
	ErrDot       = exec.ErrDot
	ErrWaitDelay = exec.ErrWaitDelay
)

type Error = exec.Error

type ExitError struct {
	*simos.ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	ExtraFiles   []*simos.File
	SysProcAttr  *syscall.SysProcAttr
	Process      *simos.Process
	ProcessState *simos.ProcessState
	Err          error
	Cancel       func() error
	WaitDelay    time.Duration

	ctx      context.Context
	started  bool
	waited   bool
	ran      bool
	env      *rt.Env
	fault    *rt.Fault
	nth      int
	killed   bool
	exit     rt.Exit
	over     bool
	outPipe  *pipe
	errPipe  *pipe
	stdinBuf *bytes.Buffer
	lookErr  error
}

func Command(name string, arg ...string) *Cmd {
	c := &Cmd{Path: name, Args: append([]string{name}, arg...)}
	if !strings.Contains(name, "/") {
		p, err := LookPath(name)
		if p != "" {
			c.Path = p
		}
		if err != nil {
			c.Err = err
		}
	}
	return c
}

func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	if ctx == nil {
		panic("nil Context")
	}
	c := Command(name, arg...)
	c.ctx = ctx
	return c
}

func LookPath(file string) (string, error) {
	try := []string{file}
	if !strings.Contains(file, "/") {
		try = []string{"/sim/" + file}
	}
	for _, p := range try {
		if rt.W.FS.Files[rt.Clean(p)] != nil {
			return p, nil
		}
	}
	return "", &Error{Name: file, Err: ErrNotFound}
}

func (c *Cmd) String() string    { return strings.Join(append([]string{c.Path}, c.Args[1:]...), " ") }
func (c *Cmd) Environ() []string { return c.Env }

func (c *Cmd) Start() error {
	defer rt.Enter()()
	if c.Err != nil {
		return c.Err
	}
	if c.started {
		return errors.New("exec: already started")
	}
	if c.ctx != nil && c.ctx.Err() != nil {
		return c.ctx.Err()
	}
	e := rt.Cur()
	c.env = e
	c.started = true
	if e.Dead {
		return nil
	}
	flt := e.Next("exec")
	if flt != nil && strings.HasPrefix(flt.Kind, "start-") {
		kind := strings.TrimPrefix(flt.Kind, "start-")
		rt.W.Event("start %s -> %s", c.Path, kind)
		c.started = false
		return &fs.PathError{Op: "fork/exec", Path: c.Path, Err: rt.Errno(kind)}
	}
	if rt.W.Programs[rt.Clean(c.Path)] == nil {
		rt.W.Event("start %s -> ENOENT", c.Path)
		c.started = false
		return &fs.PathError{Op: "fork/exec", Path: c.Path, Err: syscall.ENOENT}
	}
	e.Started++
	rt.W.Stats["solver-starts"]++
	c.nth = e.Started
	c.fault = flt
	c.Process = &simos.Process{Pid: 10000 + e.ID*1000 + c.nth, OnKill: func() { c.killed = true }}
	c.Process.OnWait = func() (*simos.ProcessState, error) {
		if c.waited {
			return nil, simos.NewSyscallError("wait", syscall.ECHILD)
		}
		c.waited = true
		c.run()
		return &simos.ProcessState{Code_: c.exit.Code, Signal_: c.exit.Signal, Pid_: c.Process.Pid}, nil
	}
	rt.W.Event("start %s", strings.Join(c.Args, " "))
	// When the program does its work relative to its parent is the system's choice.
	if e.ChunkRng.P(50) && c.Stdin == nil && c.stdinBuf == nil {
		c.run()
	}
	return nil
}

// run executes the program.
func (c *Cmd) run() {
	if c.env == nil {
		return
	}
	if c.ran {
		// Another thread is at it.
		for !c.over && !c.env.Dead {
			rt.Block()
		}
		return
	}
	c.ran = true
	defer func() { c.over = true }()
	if c.env.Dead {
		return
	}
	var in []byte
	if c.Stdin != nil {
		in, _ = io.ReadAll(c.Stdin)
	} else if c.stdinBuf != nil {
		in = c.stdinBuf.Bytes()
	}
	if c.killed {
		c.exit = rt.Exit{Signal: 9}
		return
	}
	took := int64(1_000_000)
	if f := c.fault; f != nil && f.Kind == "slow" {
		took = int64(f.Arg) * 1_000_000_000
	}
	if c.ctx != nil {
		if left := simcontext.Left(c.ctx); left >= 0 && left <= took {
			// The time is up before the program ends.
			rt.W.Now += left + 1
			rt.W.Due()
			rt.W.Event("end %s killed: time is up", c.Path)
			c.exit = rt.Exit{Signal: 9}
			return
		}
	}
	p := &rt.Proc{Env: c.env, Args: c.Args, Stdin: in, Nth: c.nth, Fault: c.fault}
	c.exit = rt.W.Programs[rt.Clean(c.Path)](p)
	if f := c.fault; f != nil {
		switch f.Kind {
		case "kill":
			n := len(c.exit.Stdout) * (f.Arg % 1001) / 1000
			if f.Arg >= 5005 { // between two lines
				n = bytes.LastIndexByte(c.exit.Stdout[:n], '\n') + 1
			}
			c.exit = rt.Exit{Signal: []int{9, 15, 11, 6, 24}[(f.Arg/1001)%5], Stdout: c.exit.Stdout[:n]}
		case "exit":
			c.exit = rt.Exit{Code: f.Arg, Stdout: c.exit.Stdout, Stderr: []byte("solver: error\n")}
		case "exit-silent":
			c.exit = rt.Exit{Code: f.Arg}
		}
	}
	rt.W.Now += took + int64(len(c.exit.Stdout))*100
	rt.W.Event("end %s code=%d signal=%d out=%d bytes", c.Path, c.exit.Code, c.exit.Signal, len(c.exit.Stdout))
}

// chunks delivers b to w in pieces of the simulator's choosing.
func chunks(e *rt.Env, w io.Writer, b []byte) error {
	if w == nil {
		return nil
	}
	for len(b) > 0 {
		n := len(b)
		switch e.ChunkRng.N(4) {
		case 0:
			n = 1 + e.ChunkRng.N(7)
		case 1:
			n = 1 + e.ChunkRng.N(64)
		case 2:
			n = 1 + e.ChunkRng.N(512)
		}
		if n > len(b) {
			n = len(b)
		}
		m, err := w.Write(b[:n])
		if err != nil {
			return err
		}
		if m != n {
			return io.ErrShortWrite
		}
		b = b[n:]
	}
	return nil
}

func (c *Cmd) Wait() error {
	if !c.started {
		return errors.New("exec: not started")
	}
	if c.waited {
		return errors.New("exec: Wait was already called")
	}
	c.waited = true
	if c.env.Dead {
		return nil
	}
	c.run()
	st := &simos.ProcessState{Code_: c.exit.Code, Signal_: c.exit.Signal, Pid_: c.Process.Pid}
	c.ProcessState = st
	var cerr error
	if c.outPipe == nil {
		if c.fault != nil && c.fault.Kind == "readerr" {
			n := len(c.exit.Stdout) * (c.fault.Arg % 1000) / 1000
			chunks(c.env, c.Stdout, c.exit.Stdout[:n])
			cerr = &fs.PathError{Op: "read", Path: "|0", Err: syscall.EIO}
		} else {
			cerr = chunks(c.env, c.Stdout, c.exit.Stdout)
		}
	} else {
		c.outPipe.closed = true
	}
	if c.errPipe == nil {
		if err := chunks(c.env, c.Stderr, c.exit.Stderr); cerr == nil {
			cerr = err
		}
	} else {
		c.errPipe.closed = true
	}
	if !st.Success() {
		return &ExitError{ProcessState: st}
	}
	if cerr == nil && c.ctx != nil {
		cerr = c.ctx.Err()
	}
	return cerr
}

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

func (c *Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var out bytes.Buffer
	var errb bytes.Buffer
	c.Stdout = &out
	capture := c.Stderr == nil
	if capture {
		c.Stderr = &errb
	}
	err := c.Run()
	if err != nil && capture {
		if ee, ok := err.(*ExitError); ok {
			ee.Stderr = errb.Bytes()
		}
	}
	return out.Bytes(), err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	if c.Stdout != nil || c.Stderr != nil {
		return nil, errors.New("exec: Stdout or Stderr already set")
	}
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}

type pipe struct {
	c      *Cmd
	err    bool
	pos    int
	closed bool
}

func (p *pipe) Read(b []byte) (int, error) {
	if p.closed {
		return 0, &fs.PathError{Op: "read", Path: "|0", Err: fs.ErrClosed}
	}
	if !p.c.started {
		return 0, errors.New("simexec: read of a pipe before Start")
	}
	p.c.run()
	data := p.c.exit.Stdout
	if p.err {
		data = p.c.exit.Stderr
	} else if f := p.c.fault; f != nil && f.Kind == "readerr" && p.pos >= len(data)*(f.Arg%1000)/1000 {
		return 0, &fs.PathError{Op: "read", Path: "|0", Err: syscall.EIO}
	}
	if p.pos >= len(data) {
		return 0, io.EOF
	}
	n := copy(b, data[p.pos:])
	if n > 1 && p.c.env.ChunkRng.P(60) {
		n = 1 + p.c.env.ChunkRng.N(n)
	}
	p.pos += n
	return n, nil
}
func (p *pipe) Close() error { p.closed = true; return nil }

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	c.outPipe = &pipe{c: c}
	return c.outPipe, nil
}
func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	if c.Stderr != nil {
		return nil, errors.New("exec: Stderr already set")
	}
	c.errPipe = &pipe{c: c, err: true}
	return c.errPipe, nil
}

type stdinPipe struct{ b *bytes.Buffer }

func (s stdinPipe) Write(b []byte) (int, error) { return s.b.Write(b) }
func (s stdinPipe) Close() error                { return nil }

func (c *Cmd) StdinPipe() (io.WriteCloser, error) {
	if c.Stdin != nil {
		return nil, errors.New("exec: Stdin already set")
	}
	c.stdinBuf = &bytes.Buffer{}
	return stdinPipe{c.stdinBuf}, nil
}

var _ = strconv.Itoa

// VrtShim marks the simulated package.
const VrtShim = 0
