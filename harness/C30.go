//verif:pkg pkg/burl_fileutil

package burl_fileutil

import (
	"strings"

	"github.com/maxnikulin/burl/internal/verif"
)

// VC30_quote: any value without zero bytes becomes a single word
//
//verif:opts time=60 ttime=600
func VC30_quote() {
	n := 5
	if verif.Tier() > 0 {
		n = 7
	}
	value := string(verif.Bytes("value", verif.Choose("length", n+1)))
	for i := 0; i < len(value); i++ {
		verif.Assume(value[i] != 0)
	}
	before := []string{"", "--org=", "x "}[verif.Choose("before", 3)]
	quoted, err := EscapeShellArg(value)
	verif.Assert(err == nil, "every value can be quoted")
	if err != nil {
		return
	}
	s := vShell(before + quoted + " --next=" + quoted + "\n")
	var words []string
	for s.blank(); s.pos < len(s.src) && s.src[s.pos] != '\n' && !s.unquoted; s.blank() {
		at := s.pos
		words = append(words, s.word(false, true)...)
		if s.pos == at {
			s.unquoted = true
		}
	}
	verif.Assert(!s.unquoted, "special characters are quoted")
	if s.unquoted {
		return
	}
	k := 0
	if before == "x " {
		k, before = 1, ""
	}
	verif.Assert(len(words) == k+2, "a value is a single word")
	if len(words) == k+2 {
		verif.Assert(words[k] == before+value, "the shell passes the value unchanged")
		verif.Assert(words[k+1] == "--next="+value, "the value is passed unchanged as the value of an option")
	}
}

// VC30_zero: values that no program can get are refused
func VC30_zero() {
	value := verif.Bytes("value", 1+verif.Choose("length", 4))
	value[verif.Choose("at", len(value))] = 0
	_, err := EscapeShellArg(string(value))
	verif.Assert(err != nil, "a value with a zero byte is refused")
}

// VC30_long: long values, values with many special characters
//
//verif:opts time=60 ttime=300 steps=20000000
func VC30_long() {
	n := []int{11, 64, 300, 5000}[verif.Choose("n", 4)]
	piece := []string{"a", "'", "\\", " ", "\n", "é"}[verif.Choose("piece", 6)]
	value := verif.Str("first", 1, "a'~-") + strings.Repeat(piece, n) + verif.Str("last", 1, "a'")
	quoted, err := EscapeShellArg(value)
	verif.Assert(err == nil, "every value can be quoted")
	if err != nil {
		return
	}
	s := vShell(quoted + "\n")
	words := s.word(false, true)
	verif.Assert(!s.unquoted && s.pos == len(s.src)-1, "special characters are quoted")
	verif.Assert(len(words) == 1, "a value is a single word")
	if len(words) == 1 {
		verif.Assert(words[0] == value, "the shell passes the value unchanged")
	}
}
