//verif:pkg cmd/burl_backend

package main

import (
	"os"

	"github.com/maxnikulin/burl/internal/verif"
)

// VC31_vanished: the backend is removed after the wrapper is generated
//
//verif:opts time=60 ttime=600
func VC31_vanished() {
	vSystem()
	alpha := "ab \\\"'$`%~\n\t\x01\x1f\x7f{}"
	n := 2
	if verif.Tier() > 0 {
		n = 3
	}
	// the message gets shorter and longer than 255 and 511 bytes
	pad := []int{0, 1, 199, 200, 201, 202, 203, 204, 205, 206, 455, 456, 457, 458, 459, 460, 461, 462, 2000, 3900}[verif.Choose("pad", 20)]
	dir := "/"
	for i := 0; i < pad; i++ {
		if i%100 == 50 {
			dir += "/"
		} else {
			dir += "p"
		}
	}
	if pad > 0 {
		os.AddDir(dir)
		dir += "/"
	}
	name := []string{"", "ä", "漢"}[verif.Choose("wide", 3)] + verif.Str("name", n, alpha) + "b"
	os.AddFile(dir+name, "ELF", 0755)
	os.Exe = dir + name
	started, code := vInstall([]string{"--wrapper=/w/run"})
	f := os.Find("/w/run")
	verif.Assert(!started && code == 0 && f != nil, "the wrapper is generated")
	if f == nil {
		return
	}
	chars := verif.Choose("characters", 2) == 1
	removed := verif.Choose("removed", 2) == 1
	s := vScriptIn(string(f.Data), chars, func(op byte, name string) bool {
		verif.Assert(name == os.Exe, "the wrapper looks for the backend")
		return !removed && op != 'x' && op != 'd'
	})
	verif.Assert(!s.unquoted, "the wrapper is a complete script")
	if s.unquoted {
		return
	}
	verif.Assert(len(s.executed) == 0, "a backend that is missing or not executable is not run")
	out := s.out
	verif.Assert(len(out) >= 4, "a message has a length")
	if len(out) < 4 {
		return
	}
	size := int(out[0]) | int(out[1])<<8 | int(out[2])<<16 | int(out[3])<<24
	verif.Assert(size == len(out)-4, "the announced length is that of the message")
	v := vParse(out[4:])
	if v == nil || v.kind != 'o' {
		verif.Assert(false, "the message is a JSON object")
		return
	}
	e := v.get("error")
	if e == nil || e.kind != 's' {
		verif.Assert(false, "the message reports an error")
		return
	}
	for i := 0; i < len(name); i++ {
		if name[i] < ' ' || name[i] == '"' || name[i] == '\\' || name[i] == 127 {
			verif.Reach("special")
			return
		}
	}
	verif.Reach("ordinary")
	k := 0
	for k+len(os.Exe) < len(e.str) && e.str[k:k+len(os.Exe)] != os.Exe {
		k++
	}
	verif.Assert(k+len(os.Exe) <= len(e.str) && e.str[k:k+len(os.Exe)] == os.Exe, "the error names the missing file")
}
