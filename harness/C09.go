//verif:pkg pkg/burl_links

package burl_links

import (
	"github.com/maxnikulin/burl/internal/verif"
)

func vC09(n *vNode, extra int) {
	t := n.tree()
	want := n.count(vOk)
	r := vLookup(t, vOk, want+extra)
	verif.Observe("total", r.Attrs.Count)
	verif.Observe("listed", r.Attrs.TargetCount)
	vReply(r, n, vOk, true, true)
	if r.Attrs.TargetCount < want {
		verif.Reach("repeated")
	}
}

// VC09_shapes: note trees of any shape, limits that suffice
//
//verif:opts time=100 ttime=800
func VC09_shapes() {
	g := vGen{left: 3, body: 2, alpha: "abc"}
	vC09(g.shapes(), verif.Choose("extra", 2)*5)
}

// VC09_body: long bodies with repeated URLs
//
//verif:opts time=60 ttime=600
func VC09_body() {
	max := 5
	if verif.Tier() > 0 {
		max = 7
	}
	g := vGen{left: max, body: max, alpha: "abc"}
	n := g.files(1, 0, 0)
	vC09(n, verif.Choose("extra", 2))
}

// VC09_deep: headings below each other, links at any depth
//
//verif:opts time=60 ttime=600
func VC09_deep() {
	max := 5
	if verif.Tier() > 0 {
		max = 7
	}
	g := vGen{left: max, body: 1, alpha: "ac"}
	n := g.files(1, max, 1)
	vC09(n, 0)
}

// VC09_distinct: URLs that differ in any byte are different
//
//verif:opts time=60 ttime=600
func VC09_distinct() {
	root := &vNode{props: &FileGroupProps{}}
	f := &vNode{props: &FileProps{"/f"}}
	root.kids = append(root.kids, f)
	base := "http://a.org/x"
	for i := 0; i < 3; i++ {
		u := base
		switch verif.Choose("kind", 3) {
		case 0:
			u += string(verif.Bytes("tail", 1))
		case 1:
			b := []byte(base)
			k := verif.Choose("at", 4) * 4
			b[k] = verif.Byte("by")
			u = string(b)
		}
		f.links = append(f.links, &Link{URL: u, Description: string(rune('A' + i)), LineNo: 1 + i/2})
	}
	all := func(*Link) bool { return true }
	t := root.tree()
	r := vLookup(t, all, 8)
	verif.Observe("listed", r.Attrs.TargetCount)
	vReply(r, root, all, true, true)
}

// VC09_big: many links, headings and files
//
//verif:opts time=60 ttime=600
func VC09_big() {
	vC09(vBig(), 0)
}
