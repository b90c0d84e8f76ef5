//verif:pkg cmd/burl_backend

package main

import (
	"bytes"
	"io"
	"io/ioutil"
	"net/rpc"
	"net/rpc/jsonrpc"
	"os"
	"strings"

	"github.com/maxnikulin/burl/internal/verif"
	"github.com/maxnikulin/burl/pkg/webextensions"
)

// plays encoding/json: the payload of a message is the method name
type vNameCodec struct {
	conn io.ReadWriteCloser
	seq  uint64
}

func (c *vNameCodec) ReadRequestHeader(r *rpc.Request) error {
	b, err := ioutil.ReadAll(c.conn)
	if err != nil {
		return err
	}
	c.seq++
	r.ServiceMethod, r.Seq = string(b), c.seq
	return nil
}
func (c *vNameCodec) ReadRequestBody(any) error { return nil }
func (c *vNameCodec) WriteResponse(r *rpc.Response, x any) error {
	_, err := c.conn.Write([]byte("R" + r.Error))
	return err
}
func (c *vNameCodec) Close() error { return c.conn.Close() }

func vFrame(s string) []byte {
	n := len(s)
	return append([]byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}, s...)
}

var vPublished = [][2]string{
	{"hello", "Hello"}, {"burl.hello", "Hello"}, {"linkremark.hello", "Hello"},
	{"capture", "Capture"}, {"burl.capture", "Capture"}, {"linkremark.capture", "Capture"},
	{"burl.visit", "Visit"}, {"linkremark.visit", "Visit"},
	{"burl.urlMentions", "UrlMentions"}, {"linkremark.urlMentions", "UrlMentions"},
	{"burl.linkSet", "LinkSet"}, {"linkremark.linkSet", "LinkSet"},
}

// what net/rpc does with the name it is given: the method that is run, or ""
func vDispatch(regs []rpc.Registration, name string) string {
	dot := strings.LastIndex(name, ".")
	if dot < 0 {
		return ""
	}
	for _, r := range regs {
		if r.Name == name[:dot] {
			for _, m := range verif.Methods(r.Rcvr) {
				if m == name[dot+1:] {
					return m
				}
			}
		}
	}
	return ""
}

func vRoute(name string) {
	jsonrpc.ServerCodecFor = func(conn io.ReadWriteCloser) rpc.ServerCodec { return &vNameCodec{conn: conn} }
	os.Stdin.In = bytes.NewReader(append(vFrame(name), vFrame("hello")...))
	served := false
	code := vMain(nil, func(codec rpc.ServerCodec, regs []rpc.Registration) {
		served = true
		want := ""
		for _, p := range vPublished {
			if p[0] == name {
				want = p[1]
			}
		}
		var req rpc.Request
		err := codec.ReadRequestHeader(&req)
		verif.Assert(err == nil && req.Seq == 1, "any method name leaves the connection usable")
		got := vDispatch(regs, req.ServiceMethod)
		verif.Observe("method", got)
		if want == "" {
			verif.Reach("unknown")
			verif.Assert(got == "", "a name that is not published reaches no method")
			verif.Assert(codec.ReadRequestBody(nil) == nil, "the body of an unknown request is skipped")
		} else {
			verif.Reach("published")
			verif.Assert(got == want, "a published name reaches its method")
			var body struct{}
			verif.Assert(codec.ReadRequestBody(&body) == nil, "the body is read")
		}
		e := ""
		if got == "" {
			e = "E"
		}
		verif.Assert(codec.WriteResponse(&rpc.Response{ServiceMethod: req.ServiceMethod, Seq: 1, Error: e}, struct{}{}) == nil, "the answer is sent")
		verif.Assert(string(os.Stdout.Out) == string(vFrame("R"+e)), "the answer is one message")
		err = codec.ReadRequestHeader(&req)
		verif.Assert(err == nil && req.Seq == 2 && vDispatch(regs, req.ServiceMethod) == "Hello", "the next request is served")
		verif.Assert(codec.ReadRequestBody(nil) == nil, "the next body is read")
		verif.Assert(codec.ReadRequestHeader(&req) == io.EOF, "then the connection ends")
	})
	verif.Assert(served && code == 0, "the backend starts")
}

var _ webextensions.CodecFactory

// VC04_short: every short name
//
//verif:opts time=80 ttime=700
func VC04_short() {
	n := 8
	if verif.Tier() > 0 {
		n = 11
	}
	vRoute(verif.Str("name", verif.Choose("len", n+1), "helocaptur.HB"))
}

// VC04_near: names close to a published or internal one, one or two bytes changed
//
//verif:opts time=80 ttime=700
func VC04_near() {
	var bases []string
	for _, p := range vPublished {
		bases = append(bases, p[0])
	}
	for _, m := range []string{"Hello", "Capture", "Visit", "UrlMentions", "LinkSet", "Search"} {
		bases = append(bases, "Burl."+m, "burl."+m, "unknown.Burl."+m)
	}
	bases = append(bases, "search", "burl.search", "visit", "linkSet", "urlMentions", ".Burl.Hello", "Burl..Hello", "..", "unknown.hello", "linkremark.burl.hello")
	b := []byte(bases[verif.Choose("base", len(bases))])
	k := verif.Int("at", 0, len(b))
	c := verif.Byte("by")
	for i := range b {
		if i == k {
			b[i] = c
		}
	}
	name := string(b)
	switch verif.Choose("shape", 3) {
	case 1:
		name = verif.Str("first", 1, " .Bu\x00") + name
	case 2:
		name += verif.Str("last", 1, " .so\x00")
	}
	vRoute(name)
}

// VC04_methods: every prefix with every method
//
//verif:opts time=80 ttime=700
func VC04_methods() {
	prefixes := []string{"", "burl.", "linkremark.", "Burl.", "rpc.", "BURL."}
	b := []byte([]string{"hello", "capture", "visit", "urlMentions", "linkSet", "search"}[verif.Choose("method", 6)])
	if verif.Bool("capital") {
		b[0] -= 32
	}
	vRoute(prefixes[verif.Choose("prefix", len(prefixes))] + string(b))
}
