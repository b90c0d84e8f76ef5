//verif:pkg pkg/burl_links

package burl_links

import (
	"github.com/maxnikulin/burl/internal/verif"
)

// vSameReply compares complete replies.
func vSameReply(a, b *LimitCountNode) bool {
	if *a.Attrs != *b.Attrs {
		return false
	}
	switch p := a.Node.(type) {
	case *TreeLeafNode:
		q, ok := b.Node.(*TreeLeafNode)
		if !ok || len(p.Links) != len(q.Links) {
			return false
		}
		for i := range p.Links {
			if *p.Links[i] != *q.Links[i] {
				return false
			}
		}
		return true
	case *TreeChildrenNode:
		q, ok := b.Node.(*TreeChildrenNode)
		if !ok || len(p.Children) != len(q.Children) || !vPropsEqual(p.Props, q.Props) {
			return false
		}
		for i := range p.Children {
			if !vSameReply(p.Children[i].(*LimitCountNode), q.Children[i].(*LimitCountNode)) {
				return false
			}
		}
		return true
	}
	return false
}

func vC11(n *vNode) {
	t := n.tree()
	other := verif.Str("other", 1, "abc")
	limit := verif.Choose("limit", n.size()+1)
	first := vLookup(t, vOk, limit)
	verif.Assert(vSameTree(t, n), "a lookup does not alter the notes")
	fresh := vLookup(n.tree(), vOk, limit)
	verif.Assert(vSameReply(first, fresh), "equal notes give equal replies")
	vLookup(t, func(l *Link) bool { return l.URL == other }, verif.Choose("limit", n.size()+1))
	verif.Assert(vSameTree(t, n), "another lookup does not alter the notes")
	again := vLookup(t, vOk, limit)
	verif.Assert(vSameReply(again, fresh), "a lookup is not influenced by earlier ones")
	verif.Assert(vSameReply(first, fresh), "a reply is not influenced by later lookups")
	verif.Observe("listed", first.Attrs.TargetCount)
}

// VC11_shapes: lookups one after another in notes of any shape
//
//verif:opts time=60 ttime=700
func VC11_shapes() {
	g := vGen{left: 3, body: 2, alpha: "abc"}
	if verif.Tier() > 0 {
		vC11(g.shapes())
		return
	}
	vC11(g.files(1+verif.Choose("files", 2), 1, 1))
}

// VC11_body: bodies with several links
//
//verif:opts time=60 ttime=700
func VC11_body() {
	max := 4
	if verif.Tier() > 0 {
		max = 5
	}
	g := vGen{left: max, body: max, alpha: "abc"}
	vC11(g.files(1, 0, 0))
}
