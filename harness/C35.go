//verif:pkg pkg/webextensions

package webextensions

import (
	"errors"
	"io"
	"io/ioutil"
	"net/rpc"
	"net/rpc/jsonrpc"
	"os"
	"os/exec"

	"github.com/maxnikulin/burl/internal/verif"
)

// vClientCodec is the client codec below the framing
type vClientCodec struct {
	conn   io.ReadWriteCloser
	pieces [][]byte
	err    error
	got    []byte
}

func (c *vClientCodec) factory(conn io.ReadWriteCloser) rpc.ClientCodec { c.conn = conn; return c }
func (c *vClientCodec) WriteRequest(*rpc.Request, any) error {
	for _, p := range c.pieces {
		if _, err := c.conn.Write(p); err != nil {
			return err
		}
	}
	return c.err
}
func (c *vClientCodec) ReadResponseHeader(*rpc.Response) (err error) {
	c.got, err = ioutil.ReadAll(c.conn)
	return
}
func (c *vClientCodec) ReadResponseBody(any) error { return nil }
func (c *vClientCodec) Close() error               { return c.conn.Close() }

// VC35_client: requests and responses of a client, streams cut anywhere
//
//verif:opts time=60 ttime=600
func VC35_client() {
	w := &vSink{}
	src := &vSource{}
	n := 2
	if verif.Tier() > 0 {
		n = 3
	}
	var replies [][]byte
	for i := 0; i < n; i++ {
		m := verif.Bytes("reply", verif.Choose("len", 3))
		replies = append(replies, m)
		src.data = append(src.data, vFrame(m)...)
	}
	parent := &vClientCodec{}
	c := NewClientCodecSplit(src, w, parent.factory)
	failing := verif.Choose("failing", 2) == 1
	var want []byte
	for _, m := range replies {
		p := verif.Bytes("request", verif.Choose("n", 2))
		q := verif.Bytes("more", 1)
		parent.pieces = [][]byte{p, q}
		if failing {
			// a request that is not complete is not sent, not even later
			failing = false
			parent.err = errors.New("cannot be encoded")
			verif.Assert(c.WriteRequest(nil, nil) != nil, "a request that cannot be written is reported")
			verif.Assert(len(w.data) == len(want), "a request that cannot be written is not sent")
			parent.err = nil
		}
		verif.Assert(c.WriteRequest(nil, nil) == nil, "a request is sent")
		want = append(want, vFrame(append(append([]byte{}, p...), q...))...)
		verif.Assert(string(w.data) == string(want), "a request is one message")
		verif.Assert(c.ReadResponseHeader(&rpc.Response{}) == nil, "a response is received")
		verif.Assert(string(parent.got) == string(m), "a response is exactly one message")
	}
	verif.Assert(c.ReadResponseHeader(&rpc.Response{}) == io.EOF, "the end of the responses is reported")
}

type vCloser struct {
	err    error
	closed int
}

func (c *vCloser) Read([]byte) (int, error)    { return 0, io.EOF }
func (c *vCloser) Write(p []byte) (int, error) { return len(p), nil }
func (c *vCloser) Close() error                { c.closed++; return c.err }

// VC35_close: closing with failures and an unfinished message
//
//verif:opts time=60 ttime=600
func VC35_close() {
	r, w := &vCloser{}, &vCloser{}
	if verif.Choose("reader", 2) == 1 {
		r.err = errors.New("reader")
	}
	if verif.Choose("writer", 2) == 1 {
		w.err = errors.New("writer")
	}
	var closeIt func() error
	f := NewSplitFrameReadWriteCloser(r, w)
	switch verif.Choose("kind", 3) {
	case 0:
		closeIt = f.Close
	case 1:
		p := &vCodec{}
		closeIt = NewServerCodecSplit(r, w, p.factory).Close
		f = p.conn.(FrameReadWriteCloser)
	case 2:
		p := &vClientCodec{}
		closeIt = NewClientCodecSplit(r, w, p.factory).Close
		f = p.conn.(FrameReadWriteCloser)
	}
	pending := verif.Choose("pending", 2) == 1
	if pending {
		f.Write(verif.Bytes("unfinished", 1))
	}
	if verif.Choose("sent", 2) == 1 {
		verif.Assert(f.WriteFrame() == nil, "a message is sent")
		pending = false
	}
	err := closeIt()
	verif.Assert(r.closed == 1 && w.closed == 1, "both directions are closed")
	switch {
	case r.err != nil:
		verif.Assert(err == r.err, "a failure of closing the input is reported")
	case w.err != nil:
		verif.Assert(err == w.err, "a failure of closing the output is reported")
	case pending:
		verif.Assert(err == ErrOutBufferNotEmpty, "an unfinished message is reported")
	default:
		verif.Assert(err == nil, "closing succeeds")
	}
	verif.Assert(f.Empty(), "an unfinished message is dropped")
}

// VC35_command: starting and stopping a backend
//
//verif:opts time=60 ttime=600
func VC35_command() {
	started := 0
	code := []int{0, 3, -1}[verif.Choose("code", 3)]
	var got []string
	exec.Run = func(args []string) exec.Result {
		started++
		got = args
		return exec.Result{Code: code}
	}
	cc := &vClientCodec{}
	jsonrpc.ClientCodecFor = cc.factory
	var args []string
	for i := verif.Choose("args", 4); i > 0; i-- {
		args = append(args, verif.Str("arg", 1, "a -'"))
	}
	exec.ClosePipe = func(which string) error {
		if verif.Choose(which, 2) == 1 {
			code = 1 // any failure
			return errors.New(which)
		}
		return nil
	}
	c, err := NewClientCommand(args)
	if len(args) == 0 {
		verif.Assert(err == ErrNoCommand && c == nil && started == 0, "a missing command is reported")
		return
	}
	verif.Assert(started == 1 && len(got) == len(args), "the command is started once with its arguments")
	for i := range args {
		verif.Assert(got[i] == args[i], "arguments are passed unchanged")
	}
	if code < 0 {
		verif.Assert(err != nil && c == nil, "a command that cannot be started is reported")
		return
	}
	verif.Assert(err == nil && c != nil, "a client is connected to the command")
	verif.Assert(c.Command.Stdout != os.Stdout && c.Command.Stderr != os.Stdout, "the command does not write to the standard output")
	err = c.Close()
	verif.Assert((err == nil) == (code == 0), "a failure of closing or of the command is reported")
	verif.Assert(exec.Closed["stdin"] == 1 && exec.Closed["stdout"] == 1, "both directions are closed")
	verif.Assert(c.Command.ProcessState != nil, "the end of the command is awaited")
}

// VC35_many: a command with many arguments
//
//verif:opts time=60 ttime=300
func VC35_many() {
	var got []string
	exec.Run = func(args []string) exec.Result {
		got = args
		return exec.Result{}
	}
	cc := &vClientCodec{}
	jsonrpc.ClientCodecFor = cc.factory
	var args []string
	for i := []int{6, 12, 50}[verif.Choose("args", 3)]; i > 0; i-- {
		args = append(args, string(rune('A'+i))+verif.Str("arg", 1, "a -'"))
	}
	c, err := NewClientCommand(args)
	verif.Assert(err == nil && c != nil, "a client is connected to the command")
	verif.Assert(len(got) == len(args), "the command is started with its arguments")
	for i := range args {
		verif.Assert(got[i] == args[i], "arguments are passed unchanged")
	}
	verif.Assert(c.Close() == nil, "closing succeeds")
}
