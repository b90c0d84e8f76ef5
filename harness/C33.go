//verif:pkg cmd/burl_backend

package main

import (
	"encoding/json"
	"os"
	"os/exec"

	"github.com/maxnikulin/burl/internal/verif"
	"github.com/maxnikulin/burl/pkg/burl_links"
	"github.com/maxnikulin/burl/pkg/burl_rpc"
)

type vSearching interface {
	Search(*burl_rpc.SearchQuery, *[]burl_rpc.ReplyRecord) error
}

// vStillServes: an ordinary lookup after any other request
func vStillServes(b vBackend) {
	r := burl_links.LimitCountNode{}
	err := b.UrlMentions(&burl_rpc.UrlMentionsQuery{Variants: []string{"doi:known"}}, &r)
	verif.Assert(err == nil && r.Attrs != nil && r.Attrs.Count == 1, "later requests are answered")
	_, err = json.Marshal(&r)
	verif.Assert(err == nil, "later replies can be encoded")
}

func vAnyText(label string, max int) string {
	return string(verif.Bytes(label, verif.Choose("len", max+1)))
}

// vAny is a decoded JSON value: every type, objects with the names in use.
func vAny(label string, depth int) interface{} {
	n := 6
	if depth == 0 {
		n = 4
	}
	switch verif.Choose(label, n) {
	case 0:
		return nil
	case 1:
		return verif.Bool(label)
	case 2:
		return []float64{0, -1.5, 1e300}[verif.Choose(label, 3)]
	case 3:
		return []string{"", "org-protocol", "0.2"}[verif.Choose(label, 3)]
	case 4:
		list := []interface{}{}
		for i := verif.Choose(label, 2); i > 0; i-- {
			list = append(list, vAny(label, depth-1))
		}
		return list
	}
	return vObject(label, depth)
}

func vObject(label string, depth int) map[string]interface{} {
	m := map[string]interface{}{}
	if k := verif.Choose(label, 6); k > 0 {
		m[[]string{"", "format", "version", "clipboardForBody", "options"}[k-1]] = vAny(label, depth-1)
	}
	return m
}

// VC33_values: values of any type where a request leaves the type open
//
//verif:opts time=80 ttime=700
func VC33_values() {
	depth := 1
	if verif.Tier() > 0 {
		depth = 2
	}
	os.Reset()
	os.AddDir("/n")
	os.AddFile("/n/a.org", "* h\n[[doi:known][d]]\n", 0644)
	vRecord(func(n int, args []string) exec.Result { return exec.Result{Out: []byte("org-protocol\n")} })
	served, _ := vServe([]string{"/n/a.org"}, func(b vBackend) {
		if verif.Choose("request", 2) == 0 {
			q := &burl_rpc.HelloQuery{}
			f := burl_rpc.HelloFormat{Format: []string{"org", "org-protocol"}[verif.Choose("format", 2)], Version: "0.2"}
			if verif.Choose("options", 2) == 1 {
				f.Options = vObject("options", depth)
			}
			q.Formats = append(q.Formats, f)
			if verif.Choose("formats", 2) == 1 {
				q.Formats = append(q.Formats, burl_rpc.HelloFormat{Format: "org-protocol", Version: "0.3"})
			}
			r := burl_rpc.HelloResponse{}
			if b.Hello(q, &r) == nil {
				_, err := json.Marshal(&r)
				verif.Assert(err == nil, "a reply can be encoded")
			}
		} else {
			q := &burl_rpc.CaptureQuery{Format: "org-protocol"}
			q.Data.Url = "org-protocol:x"
			switch verif.Choose("where", 3) {
			case 0:
				q.Options = vAny("options", depth)
			case 1:
				q.Data.Body = vAny("body", depth)
			case 2:
				q.Error = vAny("error", depth)
			}
			r := burl_rpc.CaptureResponse{}
			if b.Capture(q, &r) == nil {
				_, err := json.Marshal(&r)
				verif.Assert(err == nil, "a reply can be encoded")
			}
		}
		vStillServes(b)
	})
	verif.Assert(served, "the backend starts")
}

// VC33_requests: parameters with any values or without any
//
//verif:opts time=80 ttime=700
func VC33_requests() {
	max, many := 1, 3
	if verif.Tier() > 0 {
		max, many = 3, 3
	}
	os.Reset()
	os.AddDir("/n")
	os.AddFile("/n/a.org", "* h\n[[doi:known][d]]\n*** g\nmid:x\n", 0644)
	os.AddFile("/n/b.txt", "see https://h.org/a\n", 0644)
	vRecord(func(n int, args []string) exec.Result {
		r := exec.Result{Code: []int{0, 9, -1}[verif.Choose("code", 3)], Out: []byte("org-protocol\n")}
		if n == 0 && r.Code >= 0 && verif.Choose("other", 2) == 1 {
			r.Out = []byte(vAnyText("out", 1))
		}
		return r
	})
	served, _ := vServe([]string{"/n/a.org", "/n/b.txt"}, func(b vBackend) {
		switch verif.Choose("request", 6) {
		case 0:
			q := &burl_rpc.HelloQuery{Version: vAnyText("version", 1)}
			for i := verif.Choose("formats", 3); i > 0; i-- {
				q.Formats = append(q.Formats, burl_rpc.HelloFormat{Format: []string{"", "org-protocol"}[verif.Choose("format", 2)], Version: vAnyText("offered", 1)})
			}
			b.Hello(q, &burl_rpc.HelloResponse{})
		case 1:
			q := &burl_rpc.CaptureQuery{Format: []string{"", "org-protocol"}[verif.Choose("format", 2)]}
			q.Data.Url = []string{"", "org-protocol:"}[verif.Choose("url", 2)] + vAnyText("more", max)
			k := verif.Choose("body", 5)
			q.Data.Body = []interface{}{nil, 1.5, "text", []interface{}{}, map[string]interface{}{}}[k]
			q.Error = []interface{}{nil, nil, "failed", nil, 1.5}[k]
			b.Capture(q, &burl_rpc.CaptureResponse{})
		case 2:
			ok := false
			line := int(verif.Int64("line", -1<<63, 1<<63-1))
			// numbers of any length are printed by Visit: see C05
			verif.Assume(line <= 0 || line == 1<<63-1)
			b.Visit(&burl_rpc.Location{FilePath: []string{"", "/n/a.org", vAnyText("path", max)}[verif.Choose("kind", 3)], LineNo: line}, &ok)
		case 3:
			q := &burl_rpc.UrlMentionsQuery{}
			for i := verif.Choose("variants", many); i > 0; i-- {
				q.Variants = append(q.Variants, vAnyText("url", max))
			}
			if verif.Choose("known", 2) == 1 {
				q.Variants = append(q.Variants, "mid:x", "https://h.org/a/", "doi:known")
			}
			if verif.Choose("options", 2) == 1 {
				limit := int(verif.Int64("limit", -1<<63, 1<<63-1))
				if limit > 0 && limit <= 4 {
					limit = verif.Concretize(limit)
				}
				q.Options = &burl_rpc.UrlMentionsOptions{CountLimit: limit}
			}
			r := burl_links.LimitCountNode{}
			if b.UrlMentions(q, &r) == nil {
				_, err := json.Marshal(&r)
				verif.Assert(err == nil, "a reply can be encoded")
			}
		case 4:
			q := &burl_rpc.LinkSetQuery{}
			for i := verif.Choose("prefixes", many); i > 0; i-- {
				q.Prefix = append(q.Prefix, []string{"", "mid", "https:"}[verif.Choose("prefix", 3)]+verif.Str("more", verif.Choose("len", max+1), ":(+\n\xff"))
			}
			if verif.Choose("many", 2) == 1 {
				q.Prefix = append(q.Prefix, make([]string, 20)...)
			}
			r := burl_rpc.LinkSetResponse{}
			if b.LinkSet(q, &r) == nil {
				_, err := json.Marshal(&r)
				verif.Assert(err == nil, "a reply can be encoded")
			}
		case 5:
			s, ok := b.(vSearching)
			if !ok {
				return
			}
			q := &burl_rpc.SearchQuery{Query: []string{"", " ", "\u00a0", "a ", "known\t", "\u0130"}[verif.Choose("query", 6)] + verif.Str("more", verif.Choose("len", 2), "a \xc3")}
			if verif.Choose("limited", 2) == 1 {
				limit := int(verif.Int64("limit", -1<<63, 1<<63-1))
				if limit > 0 && limit <= 4 {
					limit = verif.Concretize(limit)
				}
				q.Limit = &limit
			}
			if verif.Choose("tolerant", 2) == 1 {
				tol := int(verif.Int64("tol", -1<<63, 1<<63-1))
				q.Tolerance = &tol
			}
			s.Search(q, &[]burl_rpc.ReplyRecord{})
		}
		vStillServes(b)
	})
	verif.Assert(served, "the backend starts")
}

// VC33_notes: notes with any text
//
//verif:opts time=80 ttime=700
func VC33_notes() {
	lines, size := 1, 3
	if verif.Tier() > 0 {
		lines, size = 2, 2
	}
	os.Reset()
	os.AddDir("/n")
	text := ""
	for i := 0; i < lines; i++ {
		switch verif.Choose("line", 5) {
		case 0:
			text += verif.Str("stars", 3, "* \t") + verif.Str("title", 1, "x*\xff\r") + "\n"
		case 1:
			text += "[[doi:" + verif.Str("link", size, "]a[\\\xff") + "]]\n"
		case 2:
			text += "doi:" + verif.Str("link", size, "(/.)<\xff") + "\n"
		case 3:
			text += "<mid:x" + verif.Str("link", size, "<> >\xc3\xa9") + "\n"
		case 4:
			text += verif.Str("any", size, "[]*:<\xc3\xa9\x00\n")
		}
	}
	text += "\n* x\n[[doi:known]]\n"
	names := []string{"/n/a.org", "/n/b.txt"}
	os.AddFile(names[0], text, 0644)
	os.AddFile(names[1], text, 0644)
	served, _ := vServe(names, func(b vBackend) {
		r := burl_links.LimitCountNode{}
		q := &burl_rpc.UrlMentionsQuery{Variants: []string{"doi:known", "doi:a", "mid:x", "doi:a/"}}
		verif.Assert(b.UrlMentions(q, &r) == nil, "a lookup succeeds")
		_, err := json.Marshal(&r)
		verif.Assert(err == nil, "a reply can be encoded")
		set := burl_rpc.LinkSetResponse{}
		verif.Assert(b.LinkSet(&burl_rpc.LinkSetQuery{Prefix: []string{"doi", "mid:"}}, &set) == nil, "link sets are returned")
		_, err = json.Marshal(&set)
		verif.Assert(err == nil, "a reply can be encoded")
	})
	verif.Assert(served, "the backend starts")
}
