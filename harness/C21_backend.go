//verif:pkg cmd/burl_backend

package main

import (
	"os"

	"github.com/maxnikulin/burl/internal/verif"
	"github.com/maxnikulin/burl/pkg/burl_rpc"
)

// VC21_separators: subqueries are separated by any white space
//
//verif:opts time=60 ttime=300
func VC21_separators() {
	os.Reset()
	os.AddDir("/n")
	os.AddFile("/n/a.org", "http://h/ab/cd\nhttp://h/cd/ab\nhttp://h/ab\nhttp://h/cd/é\n", 0644)
	vServe([]string{"/n/a.org"}, func(bk vBackend) {
		b, ok := bk.(interface {
			Search(*burl_rpc.SearchQuery, *[]burl_rpc.ReplyRecord) error
		})
		if !ok {
			verif.Unsupported("no search")
		}
		space := func(l string, min int) string { return verif.Str(l, min+verif.Choose(l, 3-min), " \t\n\r") }
		q := space("before", 0)
		var parts []string
		for i := verif.Choose("parts", 4); i > 0; i-- {
			p := []string{"ab", "cd", "AB", "é", "/ab"}[verif.Choose("part", 5)]
			parts = append(parts, p)
			if i > 1 {
				p += space("between", 1)
			}
			q += p
		}
		q += space("after", 0)
		tol := 0
		var reply []burl_rpc.ReplyRecord
		err := b.Search(&burl_rpc.SearchQuery{Query: q, Tolerance: &tol}, &reply)
		verif.Assert(err == nil, "the query is accepted")
		contained := map[string]string{"ab": "0 1 2", "AB": "0 1 2", "/ab": "0 1 2", "cd": "0 1 3", "é": "3"}
		urls := []string{"http://h/ab/cd", "http://h/cd/ab", "http://h/ab", "http://h/cd/é"}
		want := 0
		for i, u := range urls {
			all := true
			for _, p := range parts {
				found := false
				for _, c := range contained[p] {
					found = found || int(c-'0') == i
				}
				all = all && found
			}
			listed := false
			for _, r := range reply {
				listed = listed || r.Url == u
			}
			verif.Assert(all == listed, "a link is accepted exactly if it contains every subquery")
			if all {
				want++
			}
		}
		verif.Assert(len(reply) == want, "a link is accepted exactly if it contains every subquery")
		verif.Reach("searched")
	})
}
