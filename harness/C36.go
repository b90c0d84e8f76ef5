//verif:pkg tools/burl_client

package main

import (
	"encoding/json"
	"errors"
	"flag"
	"io"
	"io/ioutil"
	"net/rpc"
	"net/rpc/jsonrpc"
	"os"
	"os/exec"

	"github.com/maxnikulin/burl/internal/verif"
)

// vClient encodes requests like net/rpc/jsonrpc; responses are decided by the harness.
type vClient struct {
	conn   io.ReadWriteCloser
	reply  any
	err    string
	broken bool
}

func (c *vClient) WriteRequest(r *rpc.Request, param any) error {
	return json.NewEncoder(c.conn).Encode(map[string]any{"method": r.ServiceMethod, "params": []any{param}, "id": r.Seq})
}
func (c *vClient) ReadResponseHeader(r *rpc.Response) error {
	got, err := ioutil.ReadAll(c.conn)
	if err != nil {
		return err
	}
	verif.Assert(string(got) == "{}", "the response is read from its message")
	r.Error = c.err
	return nil
}
func (c *vClient) ReadResponseBody(to any) error {
	if p, ok := to.(*any); ok && p != nil {
		*p = c.reply
	}
	return nil
}
func (c *vClient) Close() error { return c.conn.Close() }

// vSession is one run of the client.
type vSession struct {
	args     []string // of the backend
	requests []*vJSON
	code     int
}

func (c *vClient) run(args []string, code int) (s *vSession) {
	s = &vSession{}
	exec.Run = func(args []string) exec.Result {
		s.args = args
		return exec.Result{Code: code}
	}
	jsonrpc.ClientCodecFor = func(conn io.ReadWriteCloser) rpc.ClientCodec { c.conn = conn; return c }
	exec.Talk = func(in []byte) []byte {
		s.take(in)
		if c.broken {
			return nil
		}
		return []byte{2, 0, 0, 0, '{', '}'}
	}
	os.Args = append([]string{"/bin/burl_client"}, args...)
	flag.CommandLine = flag.NewFlagSet(os.Args[0], flag.ExitOnError)
	defer func() {
		for _, e := range exec.Started {
			s.take(e.Sent())
		}
		if r := recover(); r != nil {
			e, ok := r.(os.Exited)
			if !ok {
				panic(r)
			}
			s.code = e.Code
		}
		verif.Assert((s.code == 0) == (len(os.Stderr.Out) == 0), "exactly failures are reported on standard error")
	}()
	main()
	return s
}

// take splits what was sent to messages.
func (s *vSession) take(in []byte) {
	for len(in) > 0 {
		n := 0
		if len(in) >= 4 {
			n = int(in[0]) | int(in[1])<<8 | int(in[2])<<16 | int(in[3])<<24
		}
		verif.Assert(len(in) >= 4+n, "complete messages are sent")
		if len(in) < 4+n {
			return
		}
		m := vParse(in[4 : 4+n])
		verif.Assert(m != nil, "messages are JSON")
		s.requests = append(s.requests, m)
		in = in[4+n:]
	}
}

func (s *vSession) failed() {
	verif.Assert(s.code == 1 && len(os.Stdout.Out) == 0, "a failure is reported and nothing is printed")
}

// vPrinted tells that the standard output is the value and a new line.
func vPrinted(want any) bool {
	out := os.Stdout.Out
	if len(out) == 0 || out[len(out)-1] != '\n' {
		return false
	}
	return vEqual(vParse(out), want)
}

func vEqual(v *vJSON, want any) bool {
	if v == nil {
		return false
	}
	switch w := want.(type) {
	case nil:
		return v.kind == 'z'
	case bool:
		return w && v.kind == 't' || !w && v.kind == 'f'
	case string:
		return v.kind == 's' && v.str == w
	case []any:
		if v.kind != 'a' || len(v.vals) != len(w) {
			return false
		}
		for i := range w {
			if !vEqual(v.vals[i], w[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		if v.kind != 'o' || len(v.keys) != len(w) {
			return false
		}
		for i, k := range v.keys {
			e, ok := w[k]
			if !ok || !vEqual(v.vals[i], e) {
				return false
			}
		}
		return true
	}
	return false
}

// vSent are texts of a list, no list is an empty list.
func vSent(p *vJSON, key string) []string {
	if m := p.get(key); m == nil || m.kind == 'z' {
		return nil
	}
	return p.texts(key)
}

func vSame(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func vWords(label string, n int) (out []string) {
	for ; n > 0; n-- {
		out = append(out, "w"+verif.Str(label, 1, "a-/ \"\\\n"))
	}
	return
}

// VC36_call: requests with their parameters and results
//
//verif:opts time=60 ttime=600
func VC36_call() {
	most := 2
	if verif.Tier() > 0 {
		most = 3
	}
	backend := append([]string{"be"}, vWords("arg", verif.Choose("args", most))...)
	if len(backend) > 1 && verif.Choose("option", 2) == 1 {
		backend[1] = []string{"-f", "-", "", "--log=x", "---", " --"}[verif.Choose("which", 6)]
	}
	n := verif.Choose("parameters", most+1)
	words := vWords("word", n)
	kind := verif.Choose("command", 5)
	name := []string{"mentions", "set", "capture", "visit", "hello"}[kind]
	params := words
	valid := true
	line := 0
	switch name {
	case "capture":
		valid = n == 1
	case "visit":
		file := []string{"--file", "-file"}[verif.Choose("dash", 2)]
		line = []int{-3, 0, 1, 12, 34567}[verif.Choose("line", 5)]
		words = []string{"w" + verif.Str("file", 2, "a-/ =\"")}
		params = []string{file, words[0]}
		if n > 0 {
			l := vItoa(line)
			if n == 1 {
				params = []string{"--line", l, file + "=" + words[0]}
			} else {
				params = append(params, "-line="+l)
			}
		} else {
			line = 0
		}
	case "hello":
		// an own query
		text := []string{`{"version":"9","formats":[]}`, `{`}[verif.Choose("query", 2)]
		params = nil
		words = nil
		if n > 0 {
			words = []string{text}
			params = words
			valid = text != "{"
		}
		if n > 1 {
			params = append(params, "more")
			valid = false
		}
	}
	c := &vClient{}
	if verif.Choose("error", 2) == 1 {
		c.err = "e" + verif.Str("error", 1, "ab")
	}
	c.broken = verif.Choose("broken", 2) == 1
	c.reply = map[string]any{"a": verif.Str("reply", 1, "xy<"), "b": []any{true, nil}}
	code := []int{0, 2}[verif.Choose("code", 2)]
	s := c.run(append(append(append([]string{}, backend...), "--", name), params...), code)
	verif.Assert(vSame(s.args, backend), "the backend is started with its arguments")
	verif.Assert(len(exec.Started) == 1, "the backend is started once")
	if !valid {
		s.failed()
		verif.Assert(len(s.requests) == 0, "a wrong command sends nothing")
		return
	}
	verif.Assert(len(s.requests) == 1, "one request is sent")
	r := s.requests[0]
	verif.Assert(len(r.list("params")) == 1, "a request has one parameter")
	p := r.list("params")[0]
	method := ""
	switch name {
	case "mentions":
		method = "urlMentions"
		verif.Assert(vSame(vSent(p, "variants"), words), "all URLs are looked up")
		o := p.get("options")
		verif.Assert(o == nil || o.kind == 'z', "the limit is left to the backend")
	case "set":
		method = "linkSet"
		verif.Assert(vSame(vSent(p, "prefix"), words), "all prefixes are requested")
	case "capture":
		method = "capture"
		verif.Assert(p.text("format") == "org-protocol", "the URL is captured by org-protocol")
		verif.Assert(p.get("data").text("url") == words[0], "the URL is captured")
		e := p.get("error")
		verif.Assert(e == nil || e.kind == 'z', "a capture has no error")
	case "visit":
		method = "visit"
		verif.Assert(p.text("file") == words[0], "the file is visited")
		verif.Assert(p.number("lineNo") == line, "the line is visited")
	case "hello":
		method = "hello"
		if len(words) > 0 {
			verif.Assert(p.text("version") == "9" && len(p.list("formats")) == 0, "the given query is sent")
		} else {
			found := false
			for _, f := range p.list("formats") {
				if f.text("format") == "org-protocol" && f.text("version") != "" {
					found = true
				}
			}
			verif.Assert(found, "org-protocol is offered")
		}
	}
	verif.Assert(r.text("method") == "linkremark."+method, "the named method is called")
	if c.err != "" || c.broken {
		verif.Reach("failed call")
		s.failed()
		return
	}
	verif.Reach("answered")
	verif.Assert(vPrinted(c.reply), "the result is printed")
	verif.Assert((s.code == 0) == (code == 0), "a failure of the backend is reported")
	verif.Assert(exec.Closed["stdin"] == 1, "the backend is told to stop")
	verif.Assert(exec.Started[0].ProcessState != nil, "the end of the backend is awaited")
}

// VC36_usage: incomplete and unknown commands
//
//verif:opts time=60 ttime=600
func VC36_usage() {
	pool := []string{"--", "be", "hello", "mentions", "x"}
	n := 4
	if verif.Tier() > 0 {
		n = 5
	}
	var args []string
	for i := verif.Choose("arguments", n+1); i > 0; i-- {
		args = append(args, pool[verif.Choose("argument", len(pool))])
	}
	rest := args
	if len(rest) > 0 && rest[0] == "--" {
		// the end of own options
		rest = rest[1:]
	}
	sep := len(rest)
	for i := len(rest) - 1; i >= 0; i-- {
		if rest[i] == "--" {
			sep = i
		}
	}
	code := []int{0, -1}[verif.Choose("start", 2)]
	c := &vClient{reply: "ok"}
	s := c.run(args, code)
	if sep == 0 || sep >= len(rest)-1 {
		verif.Reach("usage")
		s.failed()
		verif.Assert(len(exec.Started) == 0, "nothing is started without a backend and a command")
		return
	}
	verif.Assert(len(exec.Started) == 1 && vSame(s.args, rest[:sep]), "the backend is started with its arguments")
	cmd := rest[sep+1:]
	if code < 0 || cmd[0] != "hello" && cmd[0] != "mentions" {
		verif.Reach("failure")
		s.failed()
		verif.Assert(len(s.requests) == 0, "nothing is requested")
		return
	}
	if cmd[0] == "hello" && len(cmd) > 1 {
		s.failed()
		verif.Assert(len(s.requests) == 0, "a wrong command sends nothing")
		return
	}
	verif.Assert(s.code == 0 && len(s.requests) == 1, "the command is run")
}

// VC36_close: closing the connection fails
//
//verif:opts time=60 ttime=600
func VC36_close() {
	fails := false
	exec.ClosePipe = func(which string) error {
		if verif.Choose(which, 2) == 1 {
			fails = true
			return errors.New(which)
		}
		return nil
	}
	c := &vClient{reply: "ok"}
	s := c.run([]string{"be", "--", "set", "h" + verif.Str("prefix", 1, "ab:")}, 0)
	verif.Assert(!fails || s.code == 1, "a failure of closing is reported")
	verif.Assert(fails || s.code == 0, "the command is run")
	verif.Assert(string(os.Stdout.Out) == "\"ok\"\n", "the result is printed")
}

// VC36_names: names of subcommands
//
//verif:opts time=60 ttime=600
func VC36_names() {
	names := []string{"hello", "mentions", "set"}
	name := names[verif.Choose("name", 3)]
	switch verif.Choose("kind", 3) {
	case 0:
		b := []byte(name)
		k := verif.Int("changed", 0, len(b)-1)
		c := verif.Byte("by")
		for i := range b {
			if i == k {
				b[i] = c
			}
		}
		name = string(b)
	case 1:
		name = name[:verif.Choose("cut", len(name))]
	case 2:
		name = []string{"", "-", " "}[verif.Choose("before", 3)] + name + []string{"", "s", " ", "\n"}[verif.Choose("after", 4)]
	}
	verif.Assume(name != "--")
	c := &vClient{reply: "ok"}
	args := []string{"be", "--", name}
	if name != "hello" {
		args = append(args, "mid:")
	}
	s := c.run(args, 0)
	known := ""
	for i, m := range []string{"hello", "urlMentions", "linkSet"} {
		if name == names[i] {
			known = m
		}
	}
	if known == "" {
		verif.Reach("unknown")
		s.failed()
		verif.Assert(len(s.requests) == 0, "nothing is requested")
		return
	}
	verif.Reach("known")
	verif.Assert(s.code == 0 && len(s.requests) == 1 && s.requests[0].text("method") == "linkremark."+known, "the named method is called")
}

// VC36_arguments: several arguments of the backend
//
//verif:opts time=60 ttime=600
func VC36_arguments() {
	pool := []string{"-f", "-", "", "--log=x", "---", " --", "a b", "hello"}
	n := 3
	if verif.Tier() > 0 {
		n = 4
	}
	backend := []string{"be"}
	for i := verif.Choose("arguments", n+1); i > 0; i-- {
		backend = append(backend, pool[verif.Choose("argument", len(pool))])
	}
	c := &vClient{reply: "ok"}
	s := c.run(append(append([]string{}, backend...), "--", "set", "mid:"), 0)
	verif.Assert(len(exec.Started) == 1 && vSame(s.args, backend), "the backend is started with its arguments")
	verif.Assert(s.code == 0 && len(s.requests) == 1, "the command is run")
}

// VC36_print: standard output can not be written
//
//verif:opts time=60 ttime=600
func VC36_print() {
	c := &vClient{reply: map[string]any{"a": verif.Str("reply", 1, "xy<")}}
	if verif.Choose("short", 2) == 1 {
		c.reply = nil
	}
	failed := false
	os.Fault = func(op, path string) error {
		if op == "write" && path == "/dev/stdout" && verif.Choose("fault", 2) == 1 {
			failed = true
			return os.ErrIO
		}
		return nil
	}
	s := c.run([]string{"be", "--", "set", "mid:"}, 0)
	if failed {
		verif.Reach("failed")
		s.failed()
		return
	}
	verif.Assert(s.code == 0 && vPrinted(c.reply), "the result is printed")
}

// VC36_many: many arguments of the backend and of the command
//
//verif:opts time=60 ttime=300
func VC36_many() {
	counts := []int{0, 9, 40}
	many := func(label string) []string {
		words := vWords(label, 1)
		for i := counts[verif.Choose(label, 3)]; i > 0; i-- {
			words = append(words, "w"+string(rune('A'+i)))
		}
		return append(words, vWords(label, 1)...)
	}
	backend := append([]string{"be"}, many("arg")...)
	words := many("word")
	k := verif.Choose("command", 2)
	c := &vClient{reply: "ok"}
	s := c.run(append(append(append([]string{}, backend...), "--", []string{"mentions", "set"}[k]), words...), 0)
	verif.Assert(vSame(s.args, backend), "the backend is started with its arguments")
	verif.Assert(s.code == 0 && len(s.requests) == 1, "the command is run")
	if len(s.requests) == 1 {
		p := s.requests[0].list("params")[0]
		verif.Assert(vSame(vSent(p, []string{"variants", "prefix"}[k]), words), "all URLs or prefixes are sent")
	}
}
