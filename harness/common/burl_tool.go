package main

import (
	"flag"
	"os"

	"github.com/maxnikulin/burl/internal/verif"
)

// vTool runs the program with a fresh command line.
func vTool(args ...string) (out string, code int) {
	os.Args = append([]string{"/bin/burl_tool"}, args...)
	flag.CommandLine = flag.NewFlagSet(os.Args[0], flag.ExitOnError)
	defer func() {
		out = string(os.Stdout.Out)
		if r := recover(); r != nil {
			e, ok := r.(os.Exited)
			if !ok {
				panic(r)
			}
			code = e.Code
		}
	}()
	main()
	return
}

type vLinkLine struct {
	url  string
	line int
}

// vListed collects the links of a reply in order.
func (v *vJSON) vListed() (out []vLinkLine) {
	if v.text("_type") == "Body" {
		for _, l := range v.list("links") {
			out = append(out, vLinkLine{l.text("url"), l.number("lineNo")})
		}
		return
	}
	for _, k := range v.list("children") {
		out = append(out, k.vListed()...)
	}
	return
}

func vLines(s string) (out []string) {
	start := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			out = append(out, s[start:i])
			start = i + 1
		}
	}
	verif.Assert(start == len(s), "the output ends with a complete line")
	return
}
