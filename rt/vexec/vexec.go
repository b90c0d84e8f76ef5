//go:build go1.27

// Package exec as the checked code sees it: processes are recorded and
// answered by the harness, nothing is started.
package vexec

import (
	"bytes"
	"context"
	"errors"
	"io"
	"strconv"
	"strings"

	"github.com/maxnikulin/burl/internal/verif"
	os "github.com/maxnikulin/burl/internal/verif/vos"
)

var ErrNotFound = errors.New("executable file not found in $PATH")
var ErrDot = errors.New("cannot run executable found relative to current directory")
var ErrWaitDelay = errors.New("exec: WaitDelay expired before I/O complete")

type Error struct {
	Name string
	Err  error
}

func (e *Error) Error() string { return "exec: " + strconv.Quote(e.Name) + ": " + e.Err.Error() }
func (e *Error) Unwrap() error { return e.Err }

type ExitError struct {
	*os.ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

// Result of a run: Code < 0 means that the program could not be started.
type Result struct {
	Out  []byte
	Code int
}

// Run answers a started process.
var Run func(args []string) Result

// Started programs in order.
var Started []*Cmd

type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	Process      *os.Process
	ProcessState *os.ProcessState
	Err          error
	started      bool
	done         bool
	res          Result
	in           *pipe
	gone         chan struct{} // closed when the program has no reason to run
	left         bool
}

// leave is the end of the input or of the output of a connected program.
func (c *Cmd) leave() {
	if c.gone != nil && !c.left {
		c.left = true
		close(c.gone)
	}
}

func Command(name string, arg ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, arg...)}
}

func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	return Command(name, arg...)
}

func LookPath(file string) (string, error) { return file, nil }

func (c *Cmd) String() string { return strings.Join(c.Args, " ") }

func (c *Cmd) Environ() []string { return c.Env }

func (c *Cmd) Start() error {
	verif.Yield()
	if c.started {
		return errors.New("exec: already started")
	}
	if Run == nil {
		verif.Unsupported("process started: no answer is defined")
	}
	c.started = true
	Started = append(Started, c)
	args := make([]string, len(c.Args))
	copy(args, c.Args)
	if len(args) > 0 && args[0] != c.Path {
		args[0] = c.Path
	}
	c.res = Run(args)
	if c.res.Code < 0 {
		return &Error{c.Path, ErrNotFound}
	}
	c.Process = &os.Process{Pid: 4343}
	return nil
}

func (c *Cmd) Wait() error {
	if !c.started || c.res.Code < 0 {
		return errors.New("exec: not started")
	}
	if c.done {
		return errors.New("exec: Wait was already called")
	}
	c.done = true
	if c.gone != nil {
		// it runs till its input is closed
		<-c.gone
	}
	if c.Stdout != nil {
		if _, err := c.Stdout.Write(c.res.Out); err != nil {
			return err
		}
	}
	c.ProcessState = &os.ProcessState{Code: c.res.Code}
	if c.res.Code != 0 {
		return &ExitError{ProcessState: c.ProcessState}
	}
	return nil
}

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	if c.Stderr != nil {
		return nil, errors.New("exec: Stderr already set")
	}
	var b bytes.Buffer
	c.Stdout = &b
	c.Stderr = &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var b bytes.Buffer
	c.Stdout = &b
	err := c.Run()
	return b.Bytes(), err
}

// Talk plays a program that is connected by pipes: it gets what was written
// to its input since the last call and returns what it writes, nothing means
// that it closed its output.
var Talk func(in []byte) []byte

// ClosePipe answers closing of "stdin" or "stdout" of a program.
var ClosePipe func(which string) error

// Closed counts closed pipes.
var Closed map[string]int

type pipe struct {
	cmd   *Cmd
	which string
	buf   []byte
}

func (p *pipe) Write(b []byte) (int, error) {
	p.buf = append(p.buf, b...)
	return len(b), nil
}

func (p *pipe) Read(b []byte) (int, error) {
	if len(p.buf) == 0 && Talk != nil && p.cmd.started && p.cmd.in != nil {
		in := p.cmd.in.buf
		p.cmd.in.buf = nil
		p.buf = Talk(in)
		if len(p.buf) == 0 {
			p.cmd.leave()
		}
	}
	if len(p.buf) == 0 {
		return 0, io.EOF
	}
	n := copy(b, p.buf)
	p.buf = p.buf[n:]
	return n, nil
}

func (p *pipe) Close() error {
	if Closed == nil {
		Closed = map[string]int{}
	}
	Closed[p.which]++
	if p.which == "stdin" {
		p.cmd.leave()
	}
	if ClosePipe != nil {
		return ClosePipe(p.which)
	}
	return nil
}

func (c *Cmd) StdinPipe() (io.WriteCloser, error) {
	if c.Stdin != nil {
		return nil, errors.New("exec: Stdin already set")
	}
	c.in = &pipe{c, "stdin", nil}
	c.gone = make(chan struct{})
	return c.in, nil
}

// Sent is what was written to the program and not taken by Talk.
func (c *Cmd) Sent() []byte {
	if c.in == nil {
		return nil
	}
	return c.in.buf
}

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	return &pipe{c, "stdout", nil}, nil
}

func (c *Cmd) StderrPipe() (io.ReadCloser, error) { return &pipe{c, "stderr", nil}, nil }
