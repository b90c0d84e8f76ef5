//verif:pkg cmd/burl_backend

package main

import (
	"io"
	"log"
	"net/rpc"
	"net/rpc/jsonrpc"
	"os"
	"os/exec"

	"github.com/maxnikulin/burl/internal/verif"
	"github.com/maxnikulin/burl/pkg/burl_links"
	"github.com/maxnikulin/burl/pkg/burl_rpc"
)

// vReplyCodec writes the given reply
type vReplyCodec struct {
	conn  io.ReadWriteCloser
	reply []byte
}

func (c *vReplyCodec) ReadRequestHeader(*rpc.Request) error { return io.EOF }
func (c *vReplyCodec) ReadRequestBody(any) error            { return io.EOF }
func (c *vReplyCodec) WriteResponse(*rpc.Response, any) error {
	_, err := c.conn.Write(c.reply)
	return err
}
func (c *vReplyCodec) Close() error { return c.conn.Close() }

// vChatter serves requests of all kinds; some of them are logged.
func vChatter(b vBackend, codec rpc.ServerCodec, parent *vReplyCodec) {
	n := 2
	if verif.Tier() > 0 {
		n = 3
	}
	var want []byte
	for i := 0; i < n; i++ {
		switch verif.Choose("request", 5) {
		case 0:
			ok := false
			b.Visit(&burl_rpc.Location{FilePath: "/n/a.org", LineNo: 2}, &ok)
		case 1:
			q := &burl_rpc.CaptureQuery{Format: "org-protocol"}
			q.Data.Url = "org-protocol:/x"
			b.Capture(q, &burl_rpc.CaptureResponse{})
		case 2:
			b.UrlMentions(&burl_rpc.UrlMentionsQuery{Variants: []string{"https://h.org/a"}}, &burl_links.LimitCountNode{})
		case 3:
			b.LinkSet(&burl_rpc.LinkSetQuery{Prefix: make([]string, verif.Choose("prefixes", 2)*17)}, &burl_rpc.LinkSetResponse{})
		case 4:
			b.Hello(&burl_rpc.HelloQuery{}, &burl_rpc.HelloResponse{})
		}
		parent.reply = verif.Bytes("reply", i)
		verif.Assert(codec.WriteResponse(&rpc.Response{}, nil) == nil, "a reply is sent")
		want = append(want, byte(i), 0, 0, 0)
		want = append(want, parent.reply...)
		verif.Assert(string(os.Stdout.Out) == string(want), "standard output carries the replies and nothing else")
	}
}

// VC32_output: replies and diagnostics, all log destinations
//
//verif:opts time=80 ttime=700
func VC32_output() {
	os.Reset()
	log.Reset()
	log.Trace = true
	os.AddDir("/n")
	os.AddDir("/cwd")
	if verif.Choose("readable", 2) == 1 {
		os.AddFile("/n/a.org", "https://h.org/a\n", 0644)
	}
	vRecord(func(n int, args []string) exec.Result {
		return exec.Result{Code: []int{0, 9, 1}[verif.Choose("code", 3)], Out: []byte("org-protocol\n")}
	})
	var args []string
	dest := verif.Choose("log", 5)
	file, old := "", ""
	open := false
	switch dest {
	case 1:
		args = []string{"--log="}
	case 2:
		args = []string{"--log", "-"}
	case 3:
		file, open = "/n/log", true
		args = []string{"--log", file}
		if verif.Choose("old", 2) == 1 {
			old = verif.Str("text", 1, "ab\n") + "\n"
			os.AddFile(file, old, 0600)
		}
	case 4:
		file = []string{"/none/log", "/n", "log"}[verif.Choose("name", 3)]
		args = []string{"-log", file}
		if open = file == "log"; open {
			file = "/cwd/log"
		}
	}
	refused := false
	if open && verif.Choose("fails", 2) == 1 {
		open = false
		os.Fault = func(op, path string) error {
			if op == "create" && (path == "log" || path == "/n/log") {
				return os.ErrPermission
			}
			return nil
		}
	}
	refused = file != "" && !open
	parent := &vReplyCodec{}
	jsonrpc.ServerCodecFor = func(conn io.ReadWriteCloser) rpc.ServerCodec { parent.conn = conn; return parent }
	served := false
	count := 0
	code := vMain(append(args, "/n/a.org"), func(codec rpc.ServerCodec, regs []rpc.Registration) {
		served = true
		b, ok := regs[0].Rcvr.(vBackend)
		if !ok {
			verif.Unsupported("the registered receiver has other methods")
		}
		count = log.Count
		vChatter(b, codec, parent)
		count = log.Count - count
	})
	verif.Assert(served == !refused, "the backend serves requests unless the log cannot be opened")
	verif.Observe("logged", count)
	var data []byte
	if n := os.Find(file); file != "" && n != nil {
		data = n.Data
	}
	if refused {
		verif.Reach("refused")
		verif.Assert(code != 0 && len(os.Stderr.Out) > 0, "a log that cannot be opened is reported")
		verif.Assert(len(os.Stdout.Out) == 0, "nothing is written to standard output")
		verif.Assert(string(data) == old, "the file stays as it was")
		return
	}
	verif.Assert(code == 0, "the backend ends when the requests end")
	for _, e := range os.Files {
		if e.Path != file && e.Path != "/n/a.org" {
			verif.Assert(len(e.Node.Data) == 0, "no other file is written")
		}
	}
	switch dest {
	case 0, 2:
		verif.Assert((len(os.Stderr.Out) > 0) == (count > 0), "diagnostics go to standard error")
	case 1:
		verif.Assert(len(os.Stderr.Out) == 0, "no diagnostics are written")
	default:
		verif.Assert(len(os.Stderr.Out) == 0, "diagnostics do not go to standard error")
		verif.Assert(len(data) >= len(old) && string(data[:len(old)]) == old, "the earlier content of the log is kept")
		verif.Assert((len(data) > len(old)) == (count > 0), "diagnostics are appended to the log")
		if count > 0 {
			verif.Reach("logged")
		}
		if old == "" {
			verif.Assert(os.Find(file).Mode&077 == 0, "a new log is private")
		}
	}
}
