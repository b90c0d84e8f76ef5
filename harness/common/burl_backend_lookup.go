package main

import (
	"encoding/json"

	"github.com/maxnikulin/burl/internal/verif"
	"github.com/maxnikulin/burl/pkg/burl_links"
	"github.com/maxnikulin/burl/pkg/burl_rpc"
)

// vMentions asks a backend and decodes its reply.
func vMentions(b vBackend, q *burl_rpc.UrlMentionsQuery) (*vJSON, error) {
	r := burl_links.LimitCountNode{}
	if err := b.UrlMentions(q, &r); err != nil {
		return nil, err
	}
	text, err := json.Marshal(&r)
	verif.Assert(err == nil, "a reply can be encoded")
	v := vParse(text)
	verif.Assert(v != nil, "a reply is JSON")
	return v, nil
}

// vListed collects the links of a reply in order.
func vListed(v *vJSON) (out []string) {
	if v.text("_type") == "Body" {
		for _, l := range v.list("links") {
			out = append(out, l.text("url"))
		}
		return
	}
	for _, k := range v.list("children") {
		out = append(out, vListed(k)...)
	}
	return
}
