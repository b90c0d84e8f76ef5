//verif:pkg cmd/burl_tool

package main

import (
	"os"

	"github.com/maxnikulin/burl/internal/verif"
)

// VC34_tool: help, unknown options and a missing query
//
//verif:opts time=60 ttime=300
func VC34_tool() {
	os.Reset()
	os.AddDir("/n")
	os.AddFile("/n/a.org", "* h\nhttps://h.org/a\n", 0644)
	known := []string{"--org=/n/a.org", "--txt=/n/a.org", "--set=https://h.org/"}
	var args []string
	for i := verif.Choose("before", 3); i > 0; i-- {
		args = append(args, known[verif.Choose("known", len(known))])
	}
	kind := verif.Choose("kind", 3)
	switch kind {
	case 0:
		args = append(args, []string{"-h", "--help", "-help"}[verif.Choose("help", 3)])
	case 1:
		name := verif.Str("name", 1+verif.Choose("length", 4), "abchopqtx-")
		verif.Assume(name[0] != '-')
		if name == "h" || name == "org" || name == "txt" {
			return
		}
		args = append(args, "-"+name)
	}
	if kind < 2 {
		for i := verif.Choose("after", 3); i > 0; i-- {
			args = append(args, "https://h.org/a")
		}
	}
	out, code := vTool(args...)
	verif.Assert(out == "", "nothing is printed on standard output")
	verif.Assert(len(os.Opened) == 0 && len(os.Ops) == 0, "nothing is read or written")
	verif.Assert(len(os.Stderr.Out) > 0, "the usage is explained")
	if kind == 0 {
		verif.Reach("help")
		verif.Assert(code == 0, "help is not an error")
	} else {
		verif.Reach("wrong")
		verif.Assert(code != 0, "wrong arguments are reported")
	}
}
