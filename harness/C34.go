//verif:pkg cmd/burl_backend

package main

import (
	"net/rpc"
	"os"
	"os/exec"

	"github.com/maxnikulin/burl/internal/verif"
)

// vInfo runs the backend with an option among others; the option is at the
// given place, and files may follow.
func vInfo(option string, n int) int {
	os.Reset()
	os.AddDir("/n")
	os.AddFile("/n/a.org", "* h\nhttps://h.org/a\n", 0644)
	os.AddDir("/bin")
	os.AddFile("/bin/burl_backend", "", 0755)
	runs := vRecord(func(n int, args []string) exec.Result { return exec.Result{} })
	others := []string{"--log=/n/log", "--wrapper=/n/wrapper", "--manifest-firefox=/n/burl_backend.json", "--org=/n/a.org", "--scheme=(", "--force"}
	at := verif.Choose("at", n+1)
	var args []string
	for i := 0; i <= n; i++ {
		if i == at {
			args = append(args, option)
		} else {
			args = append(args, others[verif.Choose("other", len(others))])
		}
	}
	if verif.Choose("file", 2) == 1 {
		args = append(args, "/n/a.org")
	}
	served := false
	code := vMain(args, func(codec rpc.ServerCodec, regs []rpc.Registration) { served = true })
	verif.Assert(!served, "no requests are served")
	verif.Assert(len(os.Ops) == 0, "nothing is written")
	verif.Assert(len(os.Opened) == 0, "nothing is read")
	verif.Assert(len(runs.cmds) == 0, "nothing is run")
	return code
}

func vOneOf(s string, of ...string) bool {
	for _, t := range of {
		if s == t {
			return true
		}
	}
	return false
}

// VC34_information: help and version beside other options, with any value
//
//verif:opts time=60 ttime=400
func VC34_information() {
	names := []string{"-h", "--help", "-v", "-V", "--version", "-version"}
	name := names[verif.Choose("name", len(names))]
	value := "true"
	option := name
	if verif.Choose("value", 2) == 1 {
		value = ""
		if n := verif.Choose("length", 6); n > 0 {
			value = verif.Str("text", n, "tTrRuUeEfFaAlLsS01yn xX")
		}
		option += "=" + value
	}
	yes := vOneOf(value, "1", "t", "T", "true", "TRUE", "True")
	no := vOneOf(value, "0", "f", "F", "false", "FALSE", "False")
	verif.Assume(!no)
	n := 1
	if verif.Tier() > 0 {
		n = 2
	}
	code := vInfo(option, n)
	if !yes {
		verif.Reach("invalid")
		verif.Assert(code != 0 && len(os.Stderr.Out) > 0, "an invalid value is reported")
		return
	}
	verif.Reach("information")
	verif.Assert(code == 0, "printing information succeeds")
	verif.Assert(len(os.Stdout.Out) > 0, "information is printed on standard output")
	verif.Assert(len(os.Stderr.Out) == 0, "no error is reported")
	if name[1] != 'h' && name[2:] != "help" {
		verif.Assert(string(os.Stdout.Out[:13]) == "burl_backend ", "the version is printed")
	}
}

// VC34_unknown: unknown options are reported, and nothing else happens
//
//verif:opts time=60 ttime=400
func VC34_unknown() {
	n := 3
	if verif.Tier() > 0 {
		n = 5
	}
	name := string(verif.Bytes("name", 1+verif.Choose("length", n)))
	verif.Assume(name[0] != '-')
	for i := 0; i < len(name); i++ {
		verif.Assume(name[i] != '=')
	}
	verif.Assume(!vOneOf(name, "h", "v", "V", "help", "version", "log", "org", "txt", "force"))
	option := []string{"-", "--"}[verif.Choose("dashes", 2)] + name
	code := vInfo(option, 1)
	verif.Reach("unknown")
	verif.Assert(code != 0 && len(os.Stderr.Out) > 0, "an unknown option is reported")
	verif.Assert(len(os.Stdout.Out) == 0, "nothing is printed on standard output")
}
