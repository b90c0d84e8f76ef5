//verif:pkg pkg/burl_links

package burl_links

import (
	"github.com/maxnikulin/burl/internal/verif"
)

// vLimit is any integer. Limits that cut the reply are told apart one by one,
// since it is divided by in proportion to the number of links.
func vLimit(total int) int {
	limit := int(verif.Int64("limit", -9223372036854775808, 9223372036854775807))
	if limit > 0 && limit <= total {
		limit = verif.Concretize(limit)
	}
	return limit
}

func vC10(n *vNode, limit int) {
	t := n.tree()
	r := vLookup(t, vOk, limit)
	want := n.count(vOk)
	verif.Observe("total", r.Attrs.Count)
	listed := vReply(r, n, vOk, limit >= want, true)
	verif.Observe("listed", listed)
	if limit <= 0 {
		verif.Reach("no place")
		verif.Assert(listed == 0, "nothing is listed for a limit of zero or less")
	} else {
		verif.Assert(listed <= limit, "at most as many links are listed as requested")
		verif.Assert(want == 0 || listed > 0, "something is listed if there is a place")
	}
}

// VC10_shapes: note trees of any shape, all limits
//
//verif:opts time=100 ttime=800
func VC10_shapes() {
	g := vGen{left: 3, body: 2, alpha: "abc"}
	n := g.shapes()
	vC10(n, vLimit(n.size()))
}

// VC10_wide: many siblings with different numbers of links, all limits
//
//verif:opts time=100 ttime=800
func VC10_wide() {
	width, max := 4, 3
	if verif.Tier() > 0 {
		width, max = 5, 4
	}
	g := vGen{left: 100, body: 0, alpha: "a"}
	n := g.files(1, 0, 0)
	f := n.kids[0]
	url := 'A'
	for i := 0; i < width; i++ {
		h := g.heading(0, 0)
		for k := verif.Choose("links", max+1); k > 0; k-- {
			url++
			h.links = append(h.links, &Link{URL: string(url), LineNo: int(url)})
		}
		f.kids = append(f.kids, h)
	}
	limit := vLimit(width * max)
	all := func(*Link) bool { return true }
	t := n.tree()
	r := vLookup(t, all, limit)
	listed := vReply(r, n, all, limit >= n.count(all), true)
	verif.Assert(listed <= limit || limit < 0 && listed == 0, "at most as many links are listed as requested")
	verif.Observe("listed", listed)
}

// VC10_huge: bodies with many links and proportional shares
//
//verif:opts time=60 ttime=600
func VC10_huge() {
	g := vGen{left: 100, body: 0, alpha: "a"}
	n := g.files(2, 0, 0)
	sizes := []int{1, 7, 40, 90}
	if verif.Tier() > 0 {
		sizes = append(sizes, 2, 13, 200)
	}
	url := 0
	for i, f := range n.kids {
		for k := sizes[verif.Choose("links", len(sizes))]; k > 0; k-- {
			url++
			f.links = append(f.links, &Link{URL: string(rune(0x100 + url)), LineNo: i})
		}
	}
	all := func(*Link) bool { return true }
	limit := vLimit(url)
	t := n.tree()
	r := vLookup(t, all, limit)
	listed := r.Attrs.TargetCount
	verif.Assert(r.Attrs.Count == url, "the total is the number of accepted links")
	verif.Assert(listed <= limit || limit < 0 && listed == 0, "at most as many links are listed as requested")
	verif.Assert(limit < url || listed == url, "within the limit every accepted link is listed")
}

// VC10_big: many links, headings and files, limits around their number
//
//verif:opts time=60 ttime=600
func VC10_big() {
	n := vBig()
	total := n.size()
	vC10(n, []int{1, 2, total / 3, total - 1, total, 2 * total}[verif.Choose("limit", 6)])
}
