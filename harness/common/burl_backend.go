// helpers shared by the harnesses of this package
package main

import (
	"errors"
	"flag"
	"io"
	"net/rpc"
	"net/rpc/jsonrpc"
	"os"
	"os/exec"

	"github.com/maxnikulin/burl/internal/verif"
	"github.com/maxnikulin/burl/pkg/burl_links"
	"github.com/maxnikulin/burl/pkg/burl_rpc"
)

// the methods the backend registers
type vBackend interface {
	Hello(*burl_rpc.HelloQuery, *burl_rpc.HelloResponse) error
	Capture(*burl_rpc.CaptureQuery, *burl_rpc.CaptureResponse) error
	Visit(*burl_rpc.Location, *bool) error
	UrlMentions(*burl_rpc.UrlMentionsQuery, *burl_links.LimitCountNode) error
	LinkSet(*burl_rpc.LinkSetQuery, *burl_rpc.LinkSetResponse) error
}

type vNoCodec struct{}

func (vNoCodec) ReadRequestHeader(*rpc.Request) error { return io.EOF }
func (vNoCodec) ReadRequestBody(any) error            { return io.EOF }
func (vNoCodec) WriteResponse(*rpc.Response, any) error {
	return errors.New("not expected")
}
func (vNoCodec) Close() error { return nil }

// vMain runs the program with a fresh command line; serve is called when it
// starts to serve requests. The exit status is returned, 0 for a normal return.
func vMain(args []string, serve func(codec rpc.ServerCodec, regs []rpc.Registration)) (code int) {
	os.Args = append([]string{"/bin/burl_backend"}, args...)
	flag.CommandLine = flag.NewFlagSet(os.Args[0], flag.ExitOnError)
	rpc.Reset()
	rpc.Serve = serve
	if jsonrpc.ServerCodecFor == nil {
		jsonrpc.ServerCodecFor = func(io.ReadWriteCloser) rpc.ServerCodec { return vNoCodec{} }
	}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(os.Exited)
			if !ok {
				panic(r)
			}
			code = e.Code
		}
	}()
	main()
	return 0
}

// vServe starts the backend and hands over the registered receiver;
// the result tells whether requests were served, with the exit status.
func vServe(args []string, f func(b vBackend)) (served bool, code int) {
	code = vMain(args, func(codec rpc.ServerCodec, regs []rpc.Registration) {
		served = true
		verif.Assert(len(regs) == 1, "one receiver is registered")
		b, ok := regs[0].Rcvr.(vBackend)
		if !ok {
			verif.Unsupported("the registered receiver has other methods")
		}
		f(b)
	})
	return
}

// vRuns records the programs that are started; each is answered by next.
type vRuns struct {
	cmds [][]string
	next func(n int, args []string) exec.Result
}

func vRecord(next func(n int, args []string) exec.Result) *vRuns {
	r := &vRuns{next: next}
	exec.Run = func(args []string) exec.Result {
		r.cmds = append(r.cmds, args)
		return r.next(len(r.cmds)-1, args)
	}
	return r
}

func vHasSuffix(a, tail []string) bool {
	if len(a) < len(tail) {
		return false
	}
	a = a[len(a)-len(tail):]
	for i := range tail {
		if a[i] != tail[i] {
			return false
		}
	}
	return true
}

func vEqual(a, b []string) bool { return len(a) == len(b) && vHasSuffix(a, b) }

// vManyFiles configures many readable files, each with a link of its own.
func vManyFiles() (files, links []string) {
	n := []int{5, 12, 40}[verif.Choose("files", 3)]
	os.AddDir("/n")
	for i := 0; i < n; i++ {
		name := "/n/" + string(rune('A'+i/10)) + string(rune('0'+i%10))
		url := "https://h.org/" + name[3:]
		if i%3 == 1 {
			name += ".txt"
		} else {
			name += ".org"
		}
		os.AddFile(name, "* x\nword "+url+" word\n", 0644)
		files = append(files, name)
		links = append(links, url)
	}
	return
}
