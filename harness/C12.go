//verif:pkg pkg/burl_links

package burl_links

import (
	"encoding/json"
	"strings"

	"github.com/maxnikulin/burl/internal/verif"
)

func (v *vJSON) only(keys ...string) {
	for _, k := range v.keys {
		found := false
		for _, w := range keys {
			found = found || k == w
		}
		verif.Assert(found, "a node has only the described fields")
	}
}

// vEncoded compares the JSON value of a node with the node.
func vEncoded(v *vJSON, r *LimitCountNode) {
	if v == nil || v.kind != 'o' {
		verif.Assert(false, "a node is encoded as an object")
		return
	}
	verif.Assert(v.number("total") == r.Attrs.Count, "a node has its total number of links")
	verif.Assert(v.number("filtered") == r.Attrs.TargetCount, "a node has its filtered number of links")
	kind := v.text("_type")
	switch n := r.Node.(type) {
	case *TreeLeafNode:
		verif.Assert(kind == "Body", "the type of a body")
		v.only("_type", "total", "filtered", "links")
		links := v.list("links")
		verif.Assert(len(links) == len(n.Links), "a body has its links")
		if len(links) != len(n.Links) {
			return
		}
		for i, l := range links {
			w := n.Links[i]
			verif.Assert(l.text("_type") == "Link", "the type of a link")
			verif.Assert(l.text("url") == w.URL, "a link has its URL")
			verif.Assert(l.number("lineNo") == w.LineNo, "a link has its line")
			if w.Description != "" {
				verif.Assert(l.text("descr") == w.Description, "a link has its description")
			} else {
				d := l.get("descr")
				verif.Assert(d == nil || d.kind == 's' && d.str == "", "an absent description is not invented")
			}
			l.only("_type", "url", "lineNo", "descr")
		}
	case *TreeChildrenNode:
		switch p := n.Props.(type) {
		case *FileGroupProps:
			verif.Assert(kind == "FileGroup", "the type of a group")
			v.only("_type", "total", "filtered", "children")
		case *FileProps:
			verif.Assert(kind == "File", "the type of a file")
			verif.Assert(v.text("path") == p.Path, "a file has its path")
			v.only("_type", "total", "filtered", "children", "path")
		case *Heading:
			verif.Assert(kind == "Heading", "the type of a heading")
			verif.Assert(v.text("rawText") == p.RawText, "a heading has its text")
			verif.Assert(v.number("lineNo") == p.LineNo, "a heading has its line")
			v.only("_type", "total", "filtered", "children", "rawText", "lineNo")
		default:
			verif.Assert(false, "a node has its properties")
		}
		kids := v.list("children")
		verif.Assert(len(kids) == len(n.Children), "a node has its children")
		if len(kids) != len(n.Children) {
			return
		}
		for i, k := range kids {
			vEncoded(k, n.Children[i].(*LimitCountNode))
		}
	default:
		verif.Assert(false, "a node of a reply has a known kind")
	}
}

func vEncode(r *LimitCountNode) {
	text, err := json.Marshal(r)
	verif.Assert(err == nil, "a reply can be encoded")
	if err != nil {
		return
	}
	v := vParse(text)
	verif.Assert(v != nil, "a reply is well-formed JSON")
	if v == nil {
		return
	}
	verif.Observe("reply", string(text))
	if c, ok := r.Node.(*TreeChildrenNode); ok && len(c.Children) == 1 {
		if _, ok := c.Props.(*FileGroupProps); ok {
			verif.Reach("single file")
			vEncoded(v, c.Children[0].(*LimitCountNode))
			return
		}
	}
	verif.Reach("group")
	vEncoded(v, r)
}

// VC12_shapes: trees of any shape
//
//verif:opts time=60 ttime=700
func VC12_shapes() {
	g := vGen{left: 3, body: 2, alpha: "abc"}
	var n *vNode
	if verif.Tier() > 0 {
		n = g.shapes()
	} else {
		n = g.files(1+verif.Choose("files", 2), 1, 1)
	}
	limit := verif.Choose("limit", n.size()+1)
	vEncode(vLookup(n.tree(), vOk, limit))
}

// vText is valid UTF-8 with everything JSON treats in a special way.
func vText(label string, n int) string {
	s := verif.Str(label, n, "a\"\\<&>/ \t\x01\x1f\x7f")
	return s + []string{"", "é", "\u2028", "\U0001f600"}[verif.Choose(label, 4)]
}

// VC12_texts: any text in headings, paths, descriptions and URLs
//
//verif:opts time=60 ttime=700
func VC12_texts() {
	n := 1
	if verif.Tier() > 0 {
		n = 3
	}
	texts := []string{"p", "h", "u", "d"}
	k := verif.Choose("where", 4)
	texts[k] = vText("text", n)
	if k == 3 && verif.Choose("nodescr", 2) == 1 {
		texts[k] = ""
	}
	lines := []int{1, 2}
	lines[verif.Choose("line", 2)] = 10 + 90*verif.Choose("number", 3)
	root := &vNode{props: &FileGroupProps{}, kids: []*vNode{{
		props: &FileProps{texts[0]},
		kids: []*vNode{{
			props: &Heading{lines[0], texts[1]},
			links: []*Link{{texts[2], texts[3], lines[1]}},
		}},
	}}}
	vEncode(vLookup(root.tree(), func(*Link) bool { return true }, 8))
}

// VC12_org: replies about Org files with any heading levels
//
//verif:opts time=60 ttime=700
func VC12_org() {
	lines := 3
	levels := []int{0, 1, 2, 3, 12}
	if verif.Tier() > 0 {
		lines = 4
	}
	var text []byte
	linked := 0
	for i := 0; i < lines; i++ {
		k := levels[verif.Choose("level", len(levels))]
		if k > 0 {
			text = append(text, strings.Repeat("*", k)...)
			text = append(text, " h"...)
		}
		if verif.Choose("linked", 2) == 1 {
			text = append(text, " https://h.x/a"...)
			linked++
		}
		text = append(text, '\n')
	}
	t, err := OrgLinkSource("a.org").Extract(strings.NewReader(string(text)), nil)
	verif.Assert(err == nil && t != nil, "notes can be read")
	if t == nil || t.Empty() {
		verif.Assert(linked == 0, "links are found")
		return
	}
	t.Props = &FileProps{"a.org"}
	g := NewTreeChildrenNode(&FileGroupProps{})
	g.AppendChild(t)
	r := vLookup(&g, func(*Link) bool { return true }, verif.Choose("limit", linked+2))
	verif.Assert(r.Attrs.Count == linked, "every link is counted")
	vEncode(r)
}

// VC12_big: many links, headings and files
//
//verif:opts time=60 ttime=600
func VC12_big() {
	n := vBig()
	r := vLookup(n.tree(), vOk, n.size())
	if n.count(vOk) > 0 {
		vEncode(r)
	}
}
