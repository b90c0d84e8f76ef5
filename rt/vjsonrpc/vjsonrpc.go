//go:build go1.27

// Package jsonrpc as the checked code sees it: the harness supplies the codec.
package vjsonrpc

import (
	"io"

	"github.com/maxnikulin/burl/internal/verif"
	rpc "github.com/maxnikulin/burl/internal/verif/vrpc"
)

var (
	ServerCodecFor func(conn io.ReadWriteCloser) rpc.ServerCodec
	ClientCodecFor func(conn io.ReadWriteCloser) rpc.ClientCodec
)

func NewServerCodec(conn io.ReadWriteCloser) rpc.ServerCodec {
	if ServerCodecFor == nil {
		verif.Unsupported("jsonrpc.NewServerCodec")
	}
	return ServerCodecFor(conn)
}

func NewClientCodec(conn io.ReadWriteCloser) rpc.ClientCodec {
	if ClientCodecFor == nil {
		verif.Unsupported("jsonrpc.NewClientCodec")
	}
	return ClientCodecFor(conn)
}

func NewClient(conn io.ReadWriteCloser) *rpc.Client {
	return rpc.NewClientWithCodec(NewClientCodec(conn))
}
func ServeConn(conn io.ReadWriteCloser) { rpc.ServeCodec(NewServerCodec(conn)) }
