//go:build go1.27

// Package rpc as the checked code sees it: registrations and the codec given
// to the server are recorded, the harness plays the server.
package vrpc

import (
	"errors"
	"io"

	"github.com/maxnikulin/burl/internal/verif"
)

type Request struct {
	ServiceMethod string
	Seq           uint64
}

type Response struct {
	ServiceMethod string
	Seq           uint64
	Error         string
}

type ServerCodec interface {
	ReadRequestHeader(*Request) error
	ReadRequestBody(any) error
	WriteResponse(*Response, any) error
	Close() error
}

type ClientCodec interface {
	WriteRequest(*Request, any) error
	ReadResponseHeader(*Response) error
	ReadResponseBody(any) error
	Close() error
}

type ServerError string

func (e ServerError) Error() string { return string(e) }

var ErrShutdown = errors.New("connection is shut down")

const (
	DefaultRPCPath   = "/_goRPC_"
	DefaultDebugPath = "/debug/rpc"
)

type Registration struct {
	Name string
	Rcvr any
}

var (
	Registered []Registration
	Serve      func(codec ServerCodec, rcvrs []Registration)
)

type Server struct{ regs []Registration }

var DefaultServer = NewServer()

func NewServer() *Server { return &Server{} }

func (s *Server) RegisterName(name string, rcvr any) error {
	s.regs = append(s.regs, Registration{name, rcvr})
	return nil
}
func (s *Server) Register(rcvr any) error {
	verif.Unsupported("rpc.Register")
	return nil
}
func (s *Server) ServeCodec(codec ServerCodec) {
	if Serve == nil {
		verif.Unsupported("rpc.ServeCodec")
	}
	Serve(codec, s.regs)
}
func (s *Server) ServeConn(conn io.ReadWriteCloser) { verif.Unsupported("rpc.ServeConn") }
func (s *Server) ServeRequest(codec ServerCodec) error {
	verif.Unsupported("rpc.ServeRequest")
	return nil
}

// Reset forgets the registrations of the default server.
func Reset() { DefaultServer.regs = nil; Serve = nil }

func RegisterName(name string, rcvr any) error { return DefaultServer.RegisterName(name, rcvr) }
func Register(rcvr any) error                  { return DefaultServer.Register(rcvr) }
func ServeCodec(codec ServerCodec)             { DefaultServer.ServeCodec(codec) }
func ServeConn(conn io.ReadWriteCloser)        { DefaultServer.ServeConn(conn) }
func ServeRequest(codec ServerCodec) error     { return DefaultServer.ServeRequest(codec) }

type Call struct {
	ServiceMethod string
	Args          any
	Reply         any
	Error         error
	Done          chan *Call
}

// Client calls one after another.
type Client struct {
	Codec  ClientCodec
	seq    uint64
	closed bool
	failed bool
}

func NewClientWithCodec(codec ClientCodec) *Client { return &Client{Codec: codec} }
func NewClient(conn io.ReadWriteCloser) *Client {
	verif.Unsupported("rpc.NewClient")
	return nil
}
func (c *Client) Close() error {
	if c.closed {
		return ErrShutdown
	}
	c.closed = true
	return c.Codec.Close()
}
func (c *Client) Call(serviceMethod string, args any, reply any) error {
	if c.closed || c.failed {
		return ErrShutdown
	}
	req := Request{ServiceMethod: serviceMethod, Seq: c.seq}
	c.seq++
	if err := c.Codec.WriteRequest(&req, args); err != nil {
		return err
	}
	var resp Response
	if err := c.Codec.ReadResponseHeader(&resp); err != nil {
		c.failed = true
		if err == io.EOF {
			err = io.ErrUnexpectedEOF
		}
		return err
	}
	if resp.Error != "" {
		c.Codec.ReadResponseBody(nil)
		return ServerError(resp.Error)
	}
	if err := c.Codec.ReadResponseBody(reply); err != nil {
		return errors.New("reading body " + err.Error())
	}
	return nil
}

// Go calls at once: the call is done when it returns.
func (c *Client) Go(serviceMethod string, args any, reply any, done chan *Call) *Call {
	if done == nil {
		done = make(chan *Call, 10)
	}
	if cap(done) == 0 {
		panic("rpc: done channel is unbuffered")
	}
	call := &Call{ServiceMethod: serviceMethod, Args: args, Reply: reply, Done: done}
	call.Error = c.Call(serviceMethod, args, reply)
	done <- call
	return call
}
