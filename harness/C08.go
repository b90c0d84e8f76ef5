//verif:pkg cmd/burl_backend

package main

import (
	"os"
	"strings"

	"github.com/maxnikulin/burl/internal/verif"
	"github.com/maxnikulin/burl/pkg/burl_links"
	"github.com/maxnikulin/burl/pkg/burl_rpc"
)

// VC08_hello: offered formats, versions and configurations
//
//verif:opts time=80 ttime=600
func VC08_hello() {
	var args []string
	files := verif.Choose("files", 3)
	disable := verif.Choose("disable", 3)
	for i := 0; i < files; i++ {
		args = append(args, []string{"--org=/n/a.org", "/n/b.txt"}[i])
	}
	switch disable {
	case 1:
		args = append([]string{"--disable-link-set"}, args...)
	case 2:
		args = append([]string{"--disable-link-set=false"}, args...)
	}
	os.AddDir("/n")
	os.AddFile("/n/a.org", "[[http://a.org/][A]]\n", 0644)
	os.AddFile("/n/b.txt", "http://b.org/\n", 0644)
	served, code := vServe(args, func(b vBackend) {
		q := &burl_rpc.HelloQuery{Version: verif.Str("qversion", verif.Choose("nqversion", 2), "0.1")}
		want, decided := "", false
		for i := verif.Choose("formats", 4); i > 0; i-- {
			var f burl_rpc.HelloFormat
			// any of these letters may be wrong
			f.Format = verif.Str("f0", 1, "oO") + "rg-protoco" + verif.Str("f11", 1, "lLx ")
			if verif.Choose("longer", 2) == 1 {
				f.Format += verif.Str("f12", 1, "s2l")
			}
			f.Version = verif.Str("version", verif.Choose("nversion", 3), "0123456789.ab")
			q.Formats = append(q.Formats, f)
			if f.Format == "org-protocol" && !decided {
				decided = true
				want = f.Version
			}
		}
		var r burl_rpc.HelloResponse
		err := b.Hello(q, &r)
		verif.Observe("ok", err == nil)
		if want == "" {
			verif.Reach("refused")
			verif.Assert(err != nil, "hello fails if no usable org-protocol version is offered")
			return
		}
		verif.Reach("accepted")
		verif.Assert(err == nil, "hello succeeds if org-protocol is offered")
		verif.Assert(r.Format == "org-protocol" && r.Version == want, "hello answers with the first offered org-protocol version")
		visit, mentions, linkSet := 0, 0, 0
		for _, c := range r.Capabilities {
			switch c {
			case "visit":
				visit++
			case "urlMentions":
				mentions++
			case "linkSet":
				linkSet++
			}
		}
		verif.Assert((visit == 1) == (files > 0) && (mentions == 1) == (files > 0), "visit and urlMentions are advertised exactly if files are configured")
		verif.Assert((linkSet == 1) == (files > 0 && disable != 1), "linkSet is advertised exactly if it is available")
		verif.Assert(visit <= 1 && mentions <= 1 && linkSet <= 1 && len(r.Capabilities) == visit+mentions+linkSet, "nothing else is advertised")
		var s burl_rpc.LinkSetResponse
		err = b.LinkSet(&burl_rpc.LinkSetQuery{Prefix: []string{"http"}}, &s)
		if disable == 1 {
			verif.Assert(err != nil && len(s.Urls) == 0 && len(os.Opened) == 0, "a disabled linkSet request is refused")
		} else {
			verif.Assert(err == nil && len(s.Urls) == files, "an advertised linkSet works")
		}
	})
	verif.Assert(served && code == 0, "the backend starts")
}

// VC08_again: capabilities do not depend on earlier requests
//
//verif:opts time=80 ttime=600
func VC08_again() {
	args := []string{"/n/a.org", "--txt=/n/b.txt"}[:1+verif.Choose("files", 2)]
	disabled := verif.Choose("disable", 2) == 1
	if disabled {
		args = append([]string{"--disable-link-set"}, args...)
	}
	os.AddDir("/n")
	os.AddFile("/n/a.org", "[[http://a.org/][A]]\n", 0644)
	if verif.Choose("missing", 2) == 0 {
		os.AddFile("/n/b.txt", "http://b.org/\n", 0644)
	}
	served, _ := vServe(args, func(b vBackend) {
		q := &burl_rpc.HelloQuery{Formats: []burl_rpc.HelloFormat{{Format: "org-protocol", Version: "2"}}}
		for i := 0; i < 3; i++ {
			var r burl_rpc.HelloResponse
			verif.Assert(b.Hello(q, &r) == nil, "hello succeeds")
			n := 0
			for _, c := range r.Capabilities {
				if c == "linkSet" {
					n++
				}
			}
			verif.Assert((n == 0) == disabled && len(r.Capabilities) == n+2, "the same is advertised whatever has been requested before")
			switch verif.Choose("request", 3) {
			case 0:
				var t burl_links.LimitCountNode
				b.UrlMentions(&burl_rpc.UrlMentionsQuery{Variants: []string{"http://a.org/"}}, &t)
			case 1:
				var s burl_rpc.LinkSetResponse
				err := b.LinkSet(&burl_rpc.LinkSetQuery{Prefix: []string{"http"}}, &s)
				verif.Assert(!disabled || err != nil && len(s.Urls) == 0, "a disabled linkSet request is refused")
			case 2:
				var h burl_rpc.HelloResponse
				verif.Assert(b.Hello(&burl_rpc.HelloQuery{}, &h) != nil, "hello without formats fails")
			}
		}
	})
	verif.Assert(served, "the backend starts")
}

// VC08_many: many offered formats and many files
//
//verif:opts time=60 ttime=600
func VC08_many() {
	files, _ := vManyFiles()
	served, _ := vServe(files, func(b vBackend) {
		n := []int{5, 12, 70}[verif.Choose("formats", 3)]
		at := verif.Choose("at", n+1)
		q := &burl_rpc.HelloQuery{}
		for i := 0; i < n; i++ {
			f := burl_rpc.HelloFormat{Format: "format" + string(rune('a'+i)), Version: "7"}
			if i >= at && i%2 == at%2 {
				f = burl_rpc.HelloFormat{Format: "org-protocol", Version: "0." + string(rune('a'+i))}
			}
			q.Formats = append(q.Formats, f)
		}
		var r burl_rpc.HelloResponse
		err := b.Hello(q, &r)
		if at == n {
			verif.Assert(err != nil, "hello fails if org-protocol is not offered")
			return
		}
		verif.Assert(err == nil && r.Format == "org-protocol" && r.Version == "0."+string(rune('a'+at)), "hello answers with the first offered org-protocol version")
		verif.Assert(len(r.Capabilities) == 3, "all capabilities are advertised")
	})
	verif.Assert(served, "the backend starts")
}

// VC08_versions: versions are any texts
//
//verif:opts time=60 ttime=300
func VC08_versions() {
	version := []string{"0.2", "10.11.12-rc1", strings.Repeat("1.", 100), "é ", " ", "0", "\xff"}[verif.Choose("version", 7)] + verif.Str("end", 1, "0 a.\n")
	q := &burl_rpc.HelloQuery{Version: verif.Str("own", verif.Choose("n", 2), "a0")}
	for i := verif.Choose("before", 3); i > 0; i-- {
		q.Formats = append(q.Formats, burl_rpc.HelloFormat{Format: []string{"object", "org", "org-protocol-2"}[i], Version: "x"})
	}
	q.Formats = append(q.Formats, burl_rpc.HelloFormat{Format: "org-protocol", Version: version})
	if verif.Choose("after", 2) == 1 {
		q.Formats = append(q.Formats, burl_rpc.HelloFormat{Format: "org-protocol", Version: "9.9"})
	}
	served, _ := vServe(nil, func(b vBackend) {
		var r burl_rpc.HelloResponse
		err := b.Hello(q, &r)
		verif.Assert(err == nil && r.Format == "org-protocol" && r.Version == version, "hello answers with the first offered org-protocol version")
		verif.Assert(len(r.Capabilities) == 0, "nothing else is advertised")
	})
	verif.Assert(served, "the backend starts")
}
