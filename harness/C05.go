//verif:pkg cmd/burl_backend

package main

import (
	"os"
	"os/exec"

	"github.com/maxnikulin/burl/internal/verif"
	"github.com/maxnikulin/burl/pkg/burl_emacs"
	"github.com/maxnikulin/burl/pkg/burl_rpc"
)

// value of a decimal number without sign and leading zeros, or -1
func vDecimal(s string) int {
	if len(s) == 0 || len(s) > 1 && s[0] == '0' {
		return -1
	}
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return -1
		}
		n = n*10 + int(s[i]-'0')
	}
	return n
}

func vVisit(files []string, args []string, path string, line int) {
	os.AddDir("/n")
	codes := []int{0, 1, 9, -1}
	runs := vRecord(func(n int, args []string) exec.Result {
		return exec.Result{Code: codes[verif.Choose("code", 4)], Out: []byte(verif.Str("out", verif.Choose("nout", 2), "nt\n"))}
	})
	results := []int{}
	inner := runs.next
	runs.next = func(n int, args []string) exec.Result {
		r := inner(n, args)
		results = append(results, r.Code)
		return r
	}
	served, _ := vServe(args, func(b vBackend) {
		allowed := false
		for _, f := range files {
			if f == path {
				allowed = true
			}
		}
		ok := false
		err := b.Visit(&burl_rpc.Location{FilePath: path, LineNo: line}, &ok)
		verif.Observe("ok", ok)
		verif.Observe("runs", len(runs.cmds))
		if !allowed {
			verif.Reach("refused")
			verif.Assert(err != nil && !ok, "a path that is not configured is refused")
			verif.Assert(len(runs.cmds) == 0, "nothing is run for a refused path")
			return
		}
		verif.Assert(len(runs.cmds) > 0, "an allowed path is opened by a program")
		failed := false
		for i, c := range results {
			if c != 0 {
				failed = true
				verif.Assert(i == len(results)-1, "nothing is run after a failure")
			}
		}
		if failed {
			verif.Reach("failed")
			verif.Assert(err != nil && !ok, "failures of Emacs are reported")
			return
		}
		verif.Reach("visited")
		verif.Assert(err == nil && ok, "success is reported")
		verif.Assert(len(runs.cmds) == 2, "a frame is ensured, then the file is opened")
		verif.Assert(vHasSuffix(runs.cmds[0], []string{"--eval", burl_emacs.EnsureFrameLisp}), "a frame is ensured first")
		last := runs.cmds[1]
		base := 1 + len(burl_emacs.UserArgs) + len(burl_emacs.Args)
		own := last[base:]
		if line > 0 {
			verif.Assert(len(own) == 3, "the path, the line and --no-wait are given")
			l := own[1]
			verif.Assert(own[0] == "--no-wait", "the file is opened without waiting")
			verif.Assert(l[0] == '+' && vDecimal(l[1:]) == line, "the requested line is given")
			verif.Assert(own[2] == path, "the path is the last argument, unchanged")
		} else {
			verif.Assert(len(own) == 2 && own[0] == "--no-wait" && own[1] == path, "without a positive line only the path is given")
		}
	})
	verif.Assert(served, "the backend starts")
}

// VC05_path: any requested path against the configured ones
//
//verif:opts time=80 ttime=600
func VC05_path() {
	files := []string{"/n/a.org", "n/b.txt", "-"}[:verif.Choose("files", 4)]
	var args []string
	for i, f := range files {
		args = append(args, []string{"--org=", "--txt=", "--org="}[i]+f)
	}
	var path string
	alpha := "/na.orgbtx-"
	max := 8
	if verif.Tier() > 0 {
		max = 10
	}
	switch k := verif.Choose("len", max+1); k {
	default:
		path = verif.Str("path", k, alpha)
	}
	vVisit(files, args, path, []int{0, 3, -1}[verif.Choose("line", 3)])
}

// VC05_line: any line number
//
//verif:opts time=80 ttime=600
func VC05_line() {
	line := 0
	hi := 99999
	if verif.Tier() > 0 {
		hi = 9999999
	}
	switch verif.Choose("kind", 4) {
	case 0:
		line = verif.Int("line", 1, hi)
	case 1:
		line = verif.Int("negative", -9223372036854775808, 0)
	case 2:
		line = 9223372036854775807
	case 3:
		line = 4294967297
	}
	vVisit([]string{"/n/a.org", "/n/c.org"}, []string{"/n/a.org", "/n/c.org"}, "/n/c.org", line)
}

// VC05_similar: paths that differ in a few bytes from a configured one, or name
// the same file
//
//verif:opts time=80 ttime=600
func VC05_similar() {
	files := []string{"/n/A b.org", "/n/x.txt"}
	path := files[0]
	switch verif.Choose("kind", 3) {
	case 0:
		k := verif.Int("changed", 0, len(path))
		c := verif.Byte("by")
		b := []byte(path)
		for i := range b {
			if i == k {
				b[i] = c
			}
		}
		path = string(b)
	case 1:
		k := verif.Choose("at", len(path)+1)
		path = path[:k] + string(verif.Bytes("more", 1+verif.Choose("n", 2))) + path[k:]
	case 2:
		path = []string{"//n/A b.org", "/n/./A b.org", "/n/../n/A b.org", "file:///n/A b.org", "file:/n/A b.org", "/n/A%20b.org", "n/A b.org", "A b.org", "/n/A b.org/", "/n/A b", "/n", "/", "", "/n/A b.org\x00", "/n/A b.org:1"}[verif.Choose("form", 15)]
	}
	vVisit(files, files, path, 1)
}

// VC05_space: white space in names of files
//
//verif:opts time=80 ttime=600
func VC05_space() {
	files := []string{" a", "a ", "\tb\n", "a\u00a0b"}
	path := verif.Str("path", 1+verif.Choose("len", 3), " ab\t\n")
	switch verif.Choose("form", 3) {
	case 1:
		path = files[verif.Choose("file", len(files))]
	case 2:
		path = "a" + string(verif.Bytes("middle", 2)) + "b"
	}
	vVisit(files, []string{"--org= a", "--txt=a ", "--org=\tb\n", "--txt=a\u00a0b"}, path, verif.Choose("line", 2))
}

// VC05_many: any of many files
//
//verif:opts time=80 ttime=600
func VC05_many() {
	files, _ := vManyFiles()
	path := files[verif.Choose("file", len(files))]
	if verif.Choose("other", 2) == 1 {
		path = path[:3] + verif.Str("other", 2, "AB109") + path[5:]
	}
	vVisit(files, files, path, 1)
}
