//verif:pkg cmd/burl_backend

package main

import (
	"os"

	"github.com/maxnikulin/burl/internal/verif"
	"github.com/maxnikulin/burl/pkg/burl_rpc"
)

// VC10_query: the limit of a request, any integer
//
//verif:opts time=60 ttime=600
func VC10_query() {
	os.Reset()
	os.AddDir("/n")
	text := ""
	n := 10
	for i := 0; i < n; i++ {
		if i%3 == 0 {
			text += "* h\n"
		}
		text += "[[http://h.org/" + string(rune('a'+i)) + "]]\n"
	}
	os.AddFile("/n/a.org", text, 0644)
	q := &burl_rpc.UrlMentionsQuery{}
	for i := 0; i < n; i++ {
		q.Variants = append(q.Variants, "http://h.org/"+string(rune('a'+i)))
	}
	limit := int(verif.Int64("limit", -9223372036854775808, 9223372036854775807))
	if limit > 0 && limit <= n {
		limit = verif.Concretize(limit)
	}
	q.Options = &burl_rpc.UrlMentionsOptions{CountLimit: limit}
	vServe([]string{"/n/a.org"}, func(b vBackend) {
		v, err := vMentions(b, q)
		verif.Assert(err == nil, "a query is answered whatever the limit is")
		got := len(vListed(v))
		verif.Observe("listed", got)
		verif.Assert(got <= limit || limit < 0 && got == 0, "at most as many links are listed as requested")
		verif.Assert(limit < n || got == n, "within the limit every accepted link is listed")
		verif.Assert(limit <= 0 || got > 0, "something is listed if there is a place")
		verif.Assert(v.number("total") == n && v.number("filtered") == got, "the numbers of links are reported")
	})
}
