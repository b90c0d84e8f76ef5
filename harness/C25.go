//verif:pkg cmd/burl_backend

package main

import (
	"encoding/json"
	"io"
	"log"
	"os"
	"os/exec"

	"github.com/maxnikulin/burl/internal/verif"
	"github.com/maxnikulin/burl/pkg/burl_links"
	"github.com/maxnikulin/burl/pkg/burl_rpc"
)

// vConfig is the observable configuration of a started backend.
type vConfig struct {
	served   bool
	absolute bool
	logKind  int
	logFile  *os.Node
	schemes  []string
	linkSet  bool
	files    []*os.Node
	org      []bool
	emacs    []string
}

func vNode(name string) *os.Node {
	_, n, err := os.Resolve(name)
	verif.Assert(err == nil && n != nil, "configured files exist")
	return n
}

// vObserve starts the backend and looks at what it does.
func vObserve(args []string) *vConfig {
	c := &vConfig{absolute: true}
	os.Opened = nil
	log.SetOutput(os.Stderr)
	c.served, _ = vServe(args, func(b vBackend) {
		if w := log.Writer(); w == io.Discard {
			c.logKind = 1
		} else if f, ok := w.(*os.File); !ok {
			verif.Unsupported("another kind of log")
		} else if f == os.Stderr {
			c.logKind = 2
		} else {
			c.logKind = 3
			c.logFile = vNode(f.Name())
			c.absolute = c.absolute && f.Name()[0] == '/'
		}
		c.schemes = append(c.schemes, burl_links.SchemeVariants...)
		var ls burl_rpc.LinkSetResponse
		c.linkSet = b.LinkSet(&burl_rpc.LinkSetQuery{Prefix: []string{"http"}}, &ls) == nil
		var r burl_links.LimitCountNode
		q := &burl_rpc.UrlMentionsQuery{Variants: []string{"http://x.yz/"}, Options: &burl_rpc.UrlMentionsOptions{CountLimit: 9}}
		if err := b.UrlMentions(q, &r); err == nil {
			js, err := json.Marshal(&r)
			verif.Assert(err == nil, "a reply is serialized")
			v := vParse(js)
			if v == nil {
				verif.Assert(false, "a reply is well-formed")
				return
			}
			files := []*vJSON{v}
			if v.text("_type") == "FileGroup" {
				files = v.list("children")
			}
			for _, f := range files {
				name := f.text("path")
				c.files = append(c.files, vNode(name))
				c.absolute = c.absolute && name[0] == '/'
				body := f.list("children")[0]
				link := body.list("links")[0]
				c.org = append(c.org, link.get("descr") != nil)
			}
		}
		exec.Run = func(a []string) exec.Result {
			c.emacs = append(c.emacs, a...)
			return exec.Result{Out: []byte("org-protocol\n")}
		}
		cq := &burl_rpc.CaptureQuery{Format: "org-protocol"}
		cq.Data.Url = "org-protocol://capture?url=x"
		var cr burl_rpc.CaptureResponse
		verif.Assert(b.Capture(cq, &cr) == nil, "a capture succeeds")
	})
	return c
}

// vRoundTrip compares the directly configured backend to that started by the wrapper.
func vRoundTrip(args []string) {
	d := vSaveDefaults()
	direct := vObserve(args)
	vRestoreDefaults(d)
	if !direct.served {
		verif.Unsupported("options are refused")
	}
	vPrintf(-1)
	started, code := vInstall(append([]string{"--wrapper=/w/run"}, args...))
	vRestoreDefaults(d)
	verif.Assert(!started && code == 0, "the wrapper is generated")
	n := os.Find("/w/run")
	if n == nil {
		verif.Assert(false, "the wrapper is generated")
		return
	}
	verif.Assert(n.Mode&0500 == 0500, "the wrapper is executable")
	exe, words := vWrapper(string(n.Data))
	verif.Assert(vNode(exe) == vNode(os.Exe), "the wrapper runs the backend")
	os.Cwd = "/"
	got := vObserve(words)
	os.Cwd = "/cwd"
	vRestoreDefaults(d)
	verif.Assert(got.served, "the wrapper starts the backend")
	if !got.served {
		return
	}
	verif.Assert(got.absolute, "file names are absolute")
	verif.Assert(got.logKind == direct.logKind && got.logFile == direct.logFile, "the log destination is kept")
	verif.Assert(vEqual(got.schemes, direct.schemes), "the schemes are kept")
	verif.Assert(got.linkSet == direct.linkSet, "disabling of link sets is kept")
	verif.Assert(vEqual(got.emacs, direct.emacs), "the Emacs command and its arguments are kept")
	verif.Assert(len(got.files) == len(direct.files), "all files are kept")
	for i := range got.files {
		if i < len(direct.files) {
			verif.Assert(got.files[i] == direct.files[i], "files and their order are kept")
			verif.Assert(got.org[i] == direct.org[i], "types of files are kept")
		}
	}
	verif.Observe("files", len(got.files))
	verif.Observe("log", got.logKind)
}

const vNote = "[[http://x.yz/][d]]\n"

// VC25_files: source files of both types, in any order, with unusual names
//
//verif:opts time=100 ttime=800
func VC25_files() {
	vSystem()
	alpha, suffixes := "a '$", 2
	if verif.Tier() > 0 {
		suffixes = 3
		alpha = "ab '\"$\\;*&"
	}
	var args []string
	plain := false
	add := func(s string) {
		// other options would end up behind plain arguments
		args = append(args, s)
	}
	for i := verif.Choose("files", 3); i > 0; i-- {
		k := verif.Choose("file", 4)
		dirs := []string{"/cwd", "/n", "/cwd/sub", "/n"}
		names := []string{"", "/n/", "sub/", "../n/"}
		base := "f" + string(rune('0'+i)) + verif.Str("c", 1, alpha) + []string{".org", "", ".txt"}[verif.Choose("suffix", suffixes)]
		os.AddFile(dirs[k]+"/"+base, vNote, 0644)
		switch t := verif.Choose("type", 3); {
		case t == 0 || plain && t == 1:
			if plain {
				add(names[k] + base)
			} else {
				add("--org=" + names[k] + base)
			}
		case t == 1:
			args = append(args, "-txt", names[k]+base)
		default:
			plain = true
			add(names[k] + base)
		}
	}
	vRoundTrip(args)
}

// VC25_links: files reached through symbolic links
//
//verif:opts time=60 ttime=300
func VC25_links() {
	vSystem()
	os.AddFile("/n/real.txt", vNote, 0644)
	os.AddFile("/n/real.org", vNote, 0644)
	os.Add("/cwd/link.org", &os.Node{Link: "/n/real.txt"})
	os.Add("/cwd/link", &os.Node{Link: "../n/real.org"})
	os.Add("/cwd/dir", &os.Node{Link: "/n"})
	var args []string
	os.AddFile("/cwd/-x.org", vNote, 0644)
	for i := verif.Choose("files", 3); i > 0; i-- {
		name := []string{"link.org", "link", "dir/real.org", "/n/real.txt", "-x.org"}[verif.Choose("name", 5)]
		args = append(args, []string{"--org=", "--txt=", "--org="}[verif.Choose("type", 2)]+name)
	}
	if verif.Choose("plain", 2) == 1 {
		args = append(args, []string{"link.org", "link"}[verif.Choose("plainname", 2)])
	}
	vRoundTrip(args)
}

// VC25_log: log destinations
//
//verif:opts time=60 ttime=300
func VC25_log() {
	vSystem()
	var args []string
	c := verif.Str("c", 1+verif.Choose("longer", 2), "ab '\"$\\-")
	switch verif.Choose("log", 7) {
	case 1:
		args = append(args, "--log=")
	case 2:
		args = append(args, "--log=-")
	case 3:
		args = append(args, "-log", "/n/l"+c)
	case 4:
		args = append(args, "--log=l"+c)
	case 5:
		args = append(args, "--log", "sub/"+c)
	case 6:
		args = append(args, "--log=-"+c)
	}
	if verif.Choose("disabled", 2) == 1 {
		args = append(args, []string{"--disable-link-set", "--disable-link-set=true", "--disable-link-set=false"}[verif.Choose("form", 3)])
	}
	if verif.Choose("notes", 2) == 1 {
		os.AddFile("/n/a.org", vNote, 0644)
		args = append(args, "/n/a.org")
	}
	vRoundTrip(args)
}

// VC25_emacs: Emacs command and its arguments
//
//verif:opts time=100 ttime=800
func VC25_emacs() {
	vSystem()
	max := 2
	if verif.Tier() > 0 {
		max = 3
	}
	var args []string
	switch verif.Choose("command", 3) {
	case 1:
		args = append(args, "--emacsclient="+verif.Str("e", 2, "ab '\"$\\/-"))
	case 2:
		names := []string{"", "emacsclient", "/usr/bin/emacsclient", "./emacsclient", "emacsclient ", "Emacsclient"}
		args = append(args, "--emacsclient="+names[verif.Choose("name", len(names))])
	}
	n := verif.Choose("emacsargs", max+1)
	for i := 0; i < n; i++ {
		if verif.Choose("empty", 2) == 1 {
			if i > 0 && args[len(args)-1] != "--emacsarg=" {
				// discards appended arguments, refused unless started with an empty one
				verif.Assume(false)
			}
			args = append(args, "--emacsarg=")
			continue
		}
		v := verif.Str("a", 1+verif.Choose("longer", 2), "ab '\"$\\-=")
		if verif.Choose("form", 2) == 1 {
			args = append(args, "--emacsarg", v)
		} else {
			args = append(args, "--emacsarg="+v)
		}
	}
	vRoundTrip(args)
}

// VC25_exe: places of the backend
//
//verif:opts time=60 ttime=300
func VC25_exe() {
	vSystem()
	n := 1
	if verif.Tier() > 0 {
		n = 3
	}
	dir := []string{"/bin", "/my bin"}[verif.Choose("dir", 2)]
	os.AddDir("/my bin")
	exe := dir + "/b" + verif.Str("c", n, "ab '\"$\\;*&-") + "x"
	os.AddFile(exe, "ELF", 0755)
	os.Exe = exe
	if verif.Choose("link", 2) == 1 {
		os.Add("/bin/alias", &os.Node{Link: exe})
		os.Exe = "/bin/alias"
	}
	os.AddFile("/n/a.org", vNote, 0644)
	vRoundTrip([]string{"/n/a.org"})
}

// VC25_scheme: schemes for link extraction
//
//verif:opts time=100 ttime=600
func VC25_scheme() {
	vSystem()
	var args []string
	reset := false
	for i := verif.Choose("schemes", 4); i > 0; i-- {
		v := []string{"", "ftp", "x-y:", "e?f+", "a.b|c", "q'r s"}[verif.Choose("scheme", 6)]
		if v == "" && len(args) > 0 && !reset {
			verif.Assume(false)
		}
		if v == "" {
			reset = true
			if i == 1 {
				v = "http"
			}
		}
		args = append(args, "--scheme="+v)
	}
	os.AddFile("/n/a.org", vNote, 0644)
	args = append(args, "/n/a.org")
	vRoundTrip(args)
}

// VC25_failure: a value cannot be quoted
//
//verif:opts time=60 ttime=300
func VC25_failure() {
	vSystem()
	os.AddFile("/n/a.org", vNote, 0644)
	if verif.Choose("exists", 2) == 1 {
		os.AddFile("/w/run", "#!/bin/sh\nold\n", 0755)
	}
	args := []string{"--wrapper=/w/run", "--force"}
	if verif.Choose("manifest", 2) == 1 {
		args = append(args, "--manifest-firefox=/m")
	}
	options := []string{"--emacsclient=e", "--emacsarg=a", "--emacsarg=b", "--scheme=ftp", "--scheme=x", "--log=/n/log"}
	bad := verif.Choose("bad", len(options))
	zero := string(verif.Bytes("zero", 1))
	verif.Assume(zero[0] == 0)
	for i, o := range options {
		if i == bad {
			o += zero
		} else if verif.Choose("used", 2) == 0 {
			continue
		}
		args = append(args, o)
	}
	args = append(args, "--org=/n/a.org")
	before := len(os.Files)
	old := ""
	if f := os.Find("/w/run"); f != nil {
		old = string(f.Data)
	}
	started, code := vInstall(args)
	verif.Reach("failed")
	verif.Assert(!started && code != 0, "a quoting failure is reported")
	verif.Assert(len(os.Files) == before, "nothing is written after a quoting failure")
	if f := os.Find("/w/run"); f != nil {
		verif.Assert(string(f.Data) == old, "an existing wrapper is kept after a quoting failure")
	}
}

// VC25_many: many values of each option
//
//verif:opts time=60 ttime=300
func VC25_many() {
	vSystem()
	n := []int{5, 9, 20}[verif.Choose("values", 3)]
	kind := verif.Choose("kind", 3)
	c := verif.Str("c", 1, []string{"ab '\"$\\", "ab'\"$", "ab '\"$\\"}[kind])
	at := []int{0, n / 2, n - 1}[verif.Choose("at", 3)]
	var args []string
	if verif.Choose("reset", 2) == 1 {
		args = append(args, []string{"--emacsarg=", "--scheme=", "--disable-link-set"}[kind])
	}
	var plain []string
	for i := 0; i < n; i++ {
		v := "v" + string(rune('A'+i))
		if i == at {
			v += c
		}
		switch kind {
		case 0:
			args = append(args, "--emacsarg=-"+v)
		case 1:
			args = append(args, "--scheme="+v)
		case 2:
			v += []string{".org", "", ".txt"}[i%3]
			if i%4 != 1 {
				os.AddFile("/cwd/sub/"+v, vNote, 0644)
				v = "sub/" + v
			} else {
				v = "/n/" + v
				os.AddFile(v, vNote, 0644)
			}
			switch {
			case i >= n/2:
				plain = append(plain, v)
			case i%2 == 0:
				args = append(args, "--org="+v)
			default:
				args = append(args, "--txt", v)
			}
		}
	}
	if kind < 2 {
		os.AddFile("/n/a.org", vNote, 0644)
		plain = append(plain, "/n/a.org")
	}
	vRoundTrip(append(args, plain...))
}

// VC25_later: notes that do not exist yet
//
//verif:opts time=60 ttime=300
func VC25_later() {
	vSystem()
	os.AddFile("/n/a.org", vNote, 0644)
	k := verif.Choose("name", 4)
	name := []string{"none.org", "sub/x y", "/n/b.txt", "../n/c"}[k]
	args := []string{[]string{"--org=", "--txt=", ""}[verif.Choose("type", 3)] + name}
	if verif.Choose("before", 2) == 1 {
		args = append([]string{"--org=/n/a.org"}, args...)
	}
	d := vSaveDefaults()
	started, code := vInstall(append([]string{"--wrapper=/w/run"}, args...))
	vRestoreDefaults(d)
	verif.Assert(!started, "the backend does not start when files are generated")
	if code != 0 {
		verif.Reach("refused")
		verif.Assert(os.Find("/w/run") == nil, "nothing is written for refused options")
		return
	}
	verif.Reach("generated")
	os.AddFile("/"+[]string{"cwd/none.org", "cwd/sub/x y", "n/b.txt", "n/c"}[k], vNote, 0644)
	direct := vObserve(args)
	vRestoreDefaults(d)
	_, words := vWrapper(string(os.Find("/w/run").Data))
	os.Cwd = "/"
	got := vObserve(words)
	verif.Assert(got.served && got.absolute && len(got.files) == len(direct.files), "the wrapper finds the notes from any directory")
}
