package main

import (
	"bytes"
	"encoding/json"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"vsim/harness"
)

// outcome of one execution in a process of its own.
type outcome struct {
	rp    *harness.Report
	fatal string // the process died of the code under test
	bad   string // trouble of the harness
}

func (o *outcome) sig() string {
	if o.fatal != "" {
		return "fatal"
	}
	if o.rp != nil && o.rp.V != nil {
		return o.rp.V.Sig
	}
	return ""
}

func (o *outcome) msg() string {
	if o.fatal != "" {
		return o.fatal
	}
	if o.rp != nil && o.rp.V != nil {
		return o.rp.V.Msg
	}
	return ""
}

// fatalLine finds the Go runtime's own complaint in a dead process's standard error.
func fatalLine(stderr string) string {
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") || strings.HasPrefix(l, "panic:") {
			return l
		}
	}
	return ""
}

var execs atomic.Int64

// run executes a case in a fresh process, or in two.
func run(req *ExecReq, limit time.Duration) *outcome {
	a := run1(req, 0, limit)
	if req.Across == 0 || a.rp == nil || a.rp.V != nil {
		return a
	}
	b := run1(req, req.Across, limit)
	if b.rp == nil || b.rp.V != nil {
		return b
	}
	if a.rp.Skip == "" && b.rp.Skip == "" {
		a.rp.V = harness.Across(a.rp, b.rp)
	}
	a.rp.Obs = nil
	return a
}

func run1(req *ExecReq, boot uint64, limit time.Duration) *outcome {
	execs.Add(1)
	in, _ := json.Marshal(req)
	c := exec.Command(self(), "exec")
	c.Stdin = bytes.NewReader(in)
	c.Env = bootEnv(boot)
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	if err := c.Start(); err != nil {
		return &outcome{bad: err.Error()}
	}
	t := time.AfterFunc(limit, func() { c.Process.Kill() })
	err := c.Wait()
	if !t.Stop() {
		return &outcome{bad: "time limit"}
	}
	if err != nil {
		if l := fatalLine(se.String()); l != "" && c.ProcessState.ExitCode() == 2 {
			return &outcome{fatal: l}
		}
		return &outcome{bad: err.Error() + ": " + tail(se.String(), 600)}
	}
	o := &outcome{rp: &harness.Report{}}
	if err := json.Unmarshal(so.Bytes(), o.rp); err != nil {
		return &outcome{bad: "unreadable report: " + err.Error()}
	}
	return o
}

// apart executes a case in another process like this one, which has done nothing yet.
func apart(x *harness.Case, budget uint64) *harness.TwinOut {
	in, _ := json.Marshal(x)
	c := exec.Command(self(), "twin", strconv.FormatUint(budget, 10))
	c.Stdin = bytes.NewReader(in)
	var so bytes.Buffer
	c.Stdout = &so
	if err := c.Start(); err != nil {
		return nil
	}
	t := time.AfterFunc(60*time.Second, func() { c.Process.Kill() })
	err := c.Wait()
	if !t.Stop() || err != nil {
		return nil
	}
	o := &harness.TwinOut{}
	if json.Unmarshal(so.Bytes(), o) != nil {
		return nil
	}
	return o
}

// bootEnv is the environment of a process of the given number.
func bootEnv(boot uint64) []string {
	return append(os.Environ(), "VSIM_BOOT="+strconv.FormatUint(boot, 10))
}

func tail(s string, n int) string {
	if len(s) > n {
		s = s[len(s)-n:]
	}
	return strings.TrimSpace(s)
}

var selfPath string

func self() string {
	if selfPath == "" {
		p, err := os.Executable()
		if err != nil {
			die("%v", err)
		}
		selfPath = p
	}
	return selfPath
}
