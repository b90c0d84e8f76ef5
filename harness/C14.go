//verif:pkg cmd/burl_backend

package main

import (
	"os"

	"github.com/maxnikulin/burl/internal/verif"
	"github.com/maxnikulin/burl/pkg/burl_rpc"
)

func vAlnum(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// vWellFormed: a URL scheme, optionally followed by a colon and further
// characters on the same line
func vWellFormed(p string) bool {
	i := 0
	for i < len(p) && vAlnum(p[i]) {
		if i == 0 && p[i] <= '9' {
			return false
		}
		i++
		if i+1 < len(p) && (p[i] == '-' || p[i] == '+') && vAlnum(p[i+1]) {
			i++
		}
	}
	if i == 0 {
		return false
	}
	if i < len(p) && p[i] != ':' {
		return false
	}
	for ; i < len(p); i++ {
		if p[i] == '\n' {
			return false
		}
	}
	return true
}

func vSetFiles(files int) []string {
	os.Reset()
	os.AddDir("/n")
	args := []string{}
	for i := 0; i < files; i++ {
		name := []string{"/n/a.org", "/n/b.txt"}[i]
		os.AddFile(name, "x https://h.org/a doi:b/\n", 0644)
		args = append(args, name)
	}
	return args
}

// VC14_prefix: every text as the only prefix
//
//verif:opts time=60 ttime=800
func VC14_prefix() {
	max := 5
	if verif.Tier() > 0 {
		max = 8
	}
	args := vSetFiles(verif.Choose("files", 3))
	prefix := verif.Str("prefix", verif.Choose("len", max+1), "aZ09-+:/ \n.(")
	served, _ := vServe(args, func(b vBackend) {
		r := burl_rpc.LinkSetResponse{}
		err := b.LinkSet(&burl_rpc.LinkSetQuery{Prefix: []string{prefix}}, &r)
		if vWellFormed(prefix) {
			verif.Reach("served")
			verif.Assert(err == nil, "a well-formed request is served")
		} else {
			verif.Reach("refused")
			verif.Assert(err != nil, "a malformed prefix is refused")
		}
	})
	verif.Assert(served, "the backend starts")
}

// VC14_bytes: any byte in a prefix
//
//verif:opts time=60 ttime=800
func VC14_bytes() {
	args := vSetFiles(1)
	c := verif.Byte("byte")
	verif.Assume(c < 0x80)
	at := verif.Choose("at", 4)
	prefix := []byte("ab:c")
	prefix[at] = c
	served, _ := vServe(args, func(b vBackend) {
		r := burl_rpc.LinkSetResponse{}
		err := b.LinkSet(&burl_rpc.LinkSetQuery{Prefix: []string{string(prefix)}}, &r)
		verif.Assert((err == nil) == vWellFormed(string(prefix)), "exactly malformed prefixes are refused")
	})
	verif.Assert(served, "the backend starts")
}

// VC14_count: numbers of prefixes, one of them possibly malformed
//
//verif:opts time=60 ttime=800
func VC14_count() {
	files := verif.Choose("files", 3)
	args := vSetFiles(files)
	disabled := verif.Choose("disabled", 2) == 1
	if disabled {
		args = append([]string{"--disable-link-set"}, args...)
	}
	n := verif.Choose("prefixes", 20)
	var list []string
	for i := 0; i < n; i++ {
		list = append(list, []string{"https", "doi:", "x"}[i%3])
	}
	good := true
	if n > 0 && verif.Choose("changed", 2) == 1 {
		k := verif.Choose("at", n)
		list[k] = verif.Str("prefix", 2, "a:. 1")
		good = vWellFormed(list[k])
	}
	served, _ := vServe(args, func(b vBackend) {
		r := burl_rpc.LinkSetResponse{}
		err := b.LinkSet(&burl_rpc.LinkSetQuery{Prefix: list}, &r)
		if disabled || n > 16 {
			verif.Reach("out of limits")
			verif.Assert(err != nil, "too many prefixes are refused, and any request if linkSet is disabled")
			verif.Assert(len(os.Opened) == 0, "no file is read for a request refused that way")
			return
		}
		verif.Assert((err == nil) == (n > 0 && good), "exactly well-formed requests of 1 to 16 prefixes are served")
		if err == nil && files > 0 && n >= 2 && good && n < 17 {
			verif.Reach("served")
		}
	})
	verif.Assert(served, "the backend starts")
}

// VC14_long: long schemes with many parts, long prefixes
//
//verif:opts time=60 ttime=600
func VC14_long() {
	args := vSetFiles(verif.Choose("files", 2))
	n := []int{1, 5, 12, 40}[verif.Choose("parts", 4)]
	size := []int{1, 4, 20}[verif.Choose("size", 3)]
	at := verif.Choose("at", 2) * (n - 1)
	prefix := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			prefix += []string{"-", "+"}[i%2]
		}
		part := "abcdefghijklmnopqrstuvwxyz"[:size-1]
		if i == at {
			part += verif.Str("last", 1, "aZ9-+._ ")
		} else {
			part += "Q"
		}
		prefix += part
	}
	switch verif.Choose("more", 3) {
	case 1:
		prefix += ":"
	case 2:
		prefix += "://"
		for i := 0; i < 10*n; i++ {
			prefix += "()"
		}
		prefix += verif.Str("end", 1, "a\n ")
	}
	served, _ := vServe(args, func(b vBackend) {
		r := burl_rpc.LinkSetResponse{}
		err := b.LinkSet(&burl_rpc.LinkSetQuery{Prefix: []string{prefix}}, &r)
		verif.Assert((err == nil) == vWellFormed(prefix), "exactly malformed prefixes are refused")
	})
	verif.Assert(served, "the backend starts")
}
