//verif:pkg cmd/burl_backend

package main

import (
	"os"

	"github.com/maxnikulin/burl/internal/verif"
	"github.com/maxnikulin/burl/pkg/burl_rpc"
)

// VC09_query: every URL of a query counts, empty ones do not
//
//verif:opts time=60 ttime=600
func VC09_query() {
	os.Reset()
	os.AddDir("/n")
	// no two of them are equivalent
	urls := []string{"http://h.org/a", "https://h.org/b", "ftp://h.org/c", "mid:d", "http://h.org/a/e"}
	os.AddFile("/n/a.org", "<"+urls[0]+">\n* h\n[["+urls[1]+"][b]]\n** g\n[["+urls[2]+"]]\n[["+urls[3]+"]]\n* i\n[["+urls[4]+"]]\n", 0644)
	n := 3
	if verif.Tier() > 0 {
		n = 4
	}
	asked := make([]bool, len(urls))
	other := false
	q := &burl_rpc.UrlMentionsQuery{}
	for i := verif.Choose("urls", n+1); i > 0; i-- {
		k := verif.Choose("url", 7)
		switch {
		case k < 5:
			asked[k] = true
			u := urls[k]
			if k == 1 {
				// the other scheme and a tail
				u = "http://h.org/b/"
			}
			q.Variants = append(q.Variants, u)
		case k == 5:
			other = true
			q.Variants = append(q.Variants, "https://h.org/"+verif.Str("other", 1, "xyz"))
		default:
			q.Variants = append(q.Variants, "")
		}
	}
	var want []string
	for i, u := range urls {
		if asked[i] {
			want = append(want, u)
			other = true
		}
	}
	vServe([]string{"--scheme=ftp", "--org=/n/a.org"}, func(b vBackend) {
		v, err := vMentions(b, q)
		if !other {
			verif.Assert(err != nil, "a query without an URL is refused")
			return
		}
		verif.Assert(err == nil, "a query is answered")
		got := vListed(v)
		verif.Observe("listed", len(got))
		verif.Assert(len(got) == len(want), "exactly the links to a queried URL are listed")
		for i := range want {
			verif.Assert(i < len(got) && got[i] == want[i], "every link to a queried URL is listed")
		}
		verif.Assert(v.number("total") == len(want), "the links to the queried URLs are counted")
	})
}

// VC09_many: a query with many URLs, one of them or two in the notes
//
//verif:opts time=60 ttime=300
func VC09_many() {
	os.Reset()
	os.AddDir("/n")
	os.AddFile("/n/a.org", "* h\n[[http://h.org/one][1]]\n* i\n<https://h.org/two>\n", 0644)
	n := []int{2, 5, 9, 17, 33}[verif.Choose("urls", 5)]
	q := &burl_rpc.UrlMentionsQuery{}
	for i := 0; i < n; i++ {
		q.Variants = append(q.Variants, "https://x.org/"+string(rune('A'+i))+"/?#")
	}
	at := func(l string) int { return []int{0, n / 2, n - 1}[verif.Choose(l, 3)] }
	q.Variants[at("one")] = "https://h.org/one/"
	k := at("two")
	both := q.Variants[k] != "https://h.org/one/"
	want := 1
	if both {
		q.Variants[k] = "https://h.org/two"
		want = 2
	}
	vServe([]string{"--org=/n/a.org"}, func(b vBackend) {
		v, err := vMentions(b, q)
		verif.Assert(err == nil, "a query is answered")
		verif.Assert(len(vListed(v)) == want && v.number("total") == want, "every link to a queried URL is listed and counted")
	})
}

// VC09_files: many files
//
//verif:opts time=60 ttime=300
func VC09_files() {
	os.Reset()
	files, links := vManyFiles()
	k := verif.Choose("which", len(links))
	q := &burl_rpc.UrlMentionsQuery{Variants: []string{links[k]}}
	if verif.Choose("all", 2) == 1 {
		q.Variants = append(q.Variants, links...)
		q.Options = &burl_rpc.UrlMentionsOptions{CountLimit: 500}
	}
	vServe(files, func(b vBackend) {
		v, err := vMentions(b, q)
		verif.Assert(err == nil, "a query is answered")
		got := vListed(v)
		if q.Options == nil {
			verif.Assert(len(got) == 1 && got[0] == links[k] && v.number("total") == 1, "the link of any file is listed")
			return
		}
		verif.Assert(vEqual(got, links) && v.number("total") == len(links), "links of all files are listed in order")
	})
}
