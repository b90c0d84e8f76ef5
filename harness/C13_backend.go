//verif:pkg cmd/burl_backend

package main

import (
	"os"

	"github.com/maxnikulin/burl/internal/verif"
	"github.com/maxnikulin/burl/pkg/burl_rpc"
)

// VC13_backend: the same link in several files is returned once
//
//verif:opts time=60 ttime=800
func VC13_backend() {
	os.Reset()
	os.AddDir("/n")
	var all []string
	file := func(name string, lines int, org bool) {
		text := ""
		for i := 0; i < lines; i++ {
			url := "mid:" + verif.Str("url", 1, "ab") + verif.Str("url", 1, "cd")
			all = append(all, url)
			if org {
				text += []string{"* h ", "[[", "<"}[i%3] + url + []string{"", "][d]]", ">"}[i%3] + "\n"
			} else {
				text += "w " + url + "\n"
			}
		}
		os.AddFile(name, text, 0644)
	}
	n := 2
	if verif.Tier() > 0 {
		n = 3
	}
	file("/n/a.org", n, true)
	file("/n/b.txt", n-1, false)
	prefixes := []string{"mid:" + verif.Str("prefix", 1, "abx")}
	if verif.Choose("two", 2) == 1 {
		prefixes = append(prefixes, []string{"mid:bc", "doi", "mid"}[verif.Choose("second", 3)])
	}
	served, _ := vServe([]string{"/n/a.org", "/n/b.txt"}, func(b vBackend) {
		r := burl_rpc.LinkSetResponse{}
		err := b.LinkSet(&burl_rpc.LinkSetQuery{Prefix: prefixes}, &r)
		verif.Assert(err == nil, "a valid request is served")
		for i, u := range r.Urls {
			for k := 0; k < i; k++ {
				verif.Assert(r.Urls[k] != u, "every link is returned once")
			}
			found := false
			for _, a := range all {
				found = found || a == u
			}
			verif.Assert(found, "only links of the files are returned")
		}
		for _, a := range all {
			want, got := false, false
			for _, p := range prefixes {
				want = want || len(p) == 3 && p == "mid" || len(p) > 3 && len(p) <= len(a) && a[:len(p)] == p
			}
			for _, u := range r.Urls {
				got = got || u == a
			}
			verif.Assert(want == got, "exactly the links with a requested prefix are returned")
		}
	})
	verif.Assert(served, "the backend starts")
}

// VC13_many: many files, links and prefixes
//
//verif:opts time=60 ttime=600
func VC13_many() {
	os.Reset()
	files, links := vManyFiles()
	if verif.Choose("one", 2) == 1 {
		text := ""
		for _, l := range links {
			text += "* [[" + l + "][x]] " + l + "\n"
		}
		files = files[:1]
		os.Find(files[0]).Data = []byte(text)
	}
	c := verif.Str("prefix", 1, "ABDx1")
	prefix := "https://h.org/" + c
	all := verif.Choose("all", 2) == 1
	if all {
		prefix = "https://h"
	}
	n := []int{1, 2, 5, 16}[verif.Choose("prefixes", 4)]
	q := &burl_rpc.LinkSetQuery{}
	for i := 0; i < n; i++ {
		q.Prefix = append(q.Prefix, []string{"mid", "https:///", "https://h.org/a", "x-" + string(rune('a'+i))}[i%4])
	}
	q.Prefix[[]int{0, n / 2, n - 1}[verif.Choose("at", 3)]] = prefix
	served, _ := vServe(files, func(b vBackend) {
		r := burl_rpc.LinkSetResponse{}
		verif.Assert(b.LinkSet(q, &r) == nil, "a valid request is served")
		want := 0
		for _, l := range links {
			if !all && l[len(prefix)-1] != c[0] {
				continue
			}
			want++
			found := false
			for _, u := range r.Urls {
				found = found || u == l
			}
			verif.Assert(found, "every link with a requested prefix is returned")
		}
		verif.Assert(len(r.Urls) == want, "only links with a requested prefix are returned, once")
	})
	verif.Assert(served, "the backend starts")
}
