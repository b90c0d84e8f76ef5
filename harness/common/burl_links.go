// helpers shared by the harnesses of this package
package burl_links

import (
	"github.com/maxnikulin/burl/internal/verif"
)

// vNode describes a tree of notes.
type vNode struct {
	props TreeNodeProps
	links []*Link // of the body
	kids  []*vNode
}

type vGen struct {
	left  int // links that may still be added
	body  int // maximal links in a body
	alpha string
	line  int
	node  int
}

func (g *vGen) addLinks(n *vNode, k int) {
	for ; k > 0 && g.left > 0; k-- {
		g.left--
		g.line++
		n.links = append(n.links, &Link{URL: verif.Str("url", 1, g.alpha), Description: string(rune('A' + g.line)), LineNo: g.line})
	}
}

// heading with an optional body and subheadings
func (g *vGen) heading(depth, width int) *vNode {
	g.node++
	g.line++
	n := &vNode{props: &Heading{g.line, string(rune('a' + g.node))}}
	g.fill(n, depth, width)
	return n
}

func (g *vGen) fill(n *vNode, depth, width int) {
	if g.left > 0 {
		g.addLinks(n, verif.Choose("links", g.body+1))
	}
	if depth > 0 && g.left > 0 {
		for i := verif.Choose("kids", width+1); i > 0; i-- {
			n.kids = append(n.kids, g.heading(depth-1, width))
		}
	}
}

func (g *vGen) files(count, depth, width int) *vNode {
	root := &vNode{props: &FileGroupProps{}}
	for i := 0; i < count; i++ {
		f := &vNode{props: &FileProps{"/f" + string(rune('0'+i))}}
		g.fill(f, depth, width)
		root.kids = append(root.kids, f)
	}
	return root
}

// shapes of one or two files with headings below each other and side by side
func (g *vGen) shapes() *vNode {
	depth, width := 1, 2
	files := 1 + verif.Choose("files", 2)
	if verif.Tier() > 0 {
		if files == 1 {
			depth = 2
		} else {
			g.left++
		}
	}
	return g.files(files, depth, width)
}

// tree as it is built by extraction; parts without links are absent
func (n *vNode) tree() *TreeChildrenNode {
	t := NewTreeChildrenNode(n.props)
	if len(n.links) > 0 {
		leaf := &TreeLeafNode{}
		for _, l := range n.links {
			c := *l
			leaf.Links = append(leaf.Links, &c)
		}
		t.AddChild(leaf)
	}
	for _, k := range n.kids {
		if k.size() > 0 {
			t.AddChild(k.tree())
		}
	}
	return &t
}

func (n *vNode) size() int {
	c := len(n.links)
	for _, k := range n.kids {
		c += k.size()
	}
	return c
}

func (n *vNode) count(ok func(*Link) bool) int {
	c := vAccepted(n.links, ok)
	for _, k := range n.kids {
		c += k.count(ok)
	}
	return c
}

func vAccepted(links []*Link, ok func(*Link) bool) (c int) {
	for _, l := range links {
		if ok(l) {
			c++
		}
	}
	return
}

func vPropsEqual(a, b TreeNodeProps) bool {
	switch p := a.(type) {
	case *Heading:
		q, ok := b.(*Heading)
		return ok && q != nil && *p == *q
	case *FileProps:
		q, ok := b.(*FileProps)
		return ok && q != nil && *p == *q
	case *FileGroupProps:
		_, ok := b.(*FileGroupProps)
		return ok
	}
	return false
}

// vSameTree: is the tree still what it was built from?
func vSameTree(t TreeBaseNode, n *vNode) bool {
	c, ok := t.(*TreeChildrenNode)
	if !ok || !vPropsEqual(n.props, c.Props) {
		return false
	}
	kids := c.GetChildrenNodes()
	i := 0
	if len(n.links) > 0 {
		if i >= len(kids) {
			return false
		}
		leaf, ok := kids[i].(*TreeLeafNode)
		if !ok || len(leaf.Links) != len(n.links) {
			return false
		}
		for k := range leaf.Links {
			if *leaf.Links[k] != *n.links[k] {
				return false
			}
		}
		i++
	}
	for _, k := range n.kids {
		if k.size() == 0 {
			continue
		}
		if i >= len(kids) || !vSameTree(kids[i], k) {
			return false
		}
		i++
	}
	return i == len(kids)
}

// vReply checks the node of a reply against the notes it stems from and
// returns the number of listed links.
func vReply(r *LimitCountNode, n *vNode, ok func(*Link) bool, complete bool, root bool) int {
	want := n.count(ok)
	verif.Assert(r.Attrs.Count == want, "the total is the number of accepted links")
	verif.Assert(root || want > 0, "a node without an accepted link is not kept")
	c, isNode := r.Node.(*TreeChildrenNode)
	if !isNode {
		verif.Assert(false, "a file or heading stays what it is")
		return 0
	}
	verif.Assert(vPropsEqual(n.props, c.Props), "the text, path and line of a node are unchanged")
	kids := c.GetChildrenNodes()
	listed, i := 0, 0
	minKept, maxDropped := 1<<60, 0
	keep := func(kept bool, count int) {
		if kept && count < minKept {
			minKept = count
		}
		if !kept && count > maxDropped {
			maxDropped = count
		}
	}
	if own := vAccepted(n.links, ok); own > 0 {
		var leaf *TreeLeafNode
		if i < len(kids) {
			leaf, _ = kids[i].(*LimitCountNode).Node.(*TreeLeafNode)
		}
		keep(leaf != nil, own)
		if leaf != nil {
			b := kids[i].(*LimitCountNode)
			i++
			verif.Assert(b.Attrs.Count == own, "the total of a body is the number of its accepted links")
			verif.Assert(b.Attrs.TargetCount == len(leaf.Links), "the filtered number of a body is that of the listed links")
			verif.Assert(len(leaf.Links) > 0, "a kept body lists a link")
			listed += len(leaf.Links)
			// listed links are a subsequence without repeated URLs, the first one of each
			at := 0
			for _, l := range n.links {
				if !ok(l) {
					continue
				}
				repeated := false
				for _, e := range n.links {
					if e == l {
						break
					}
					if ok(e) && e.URL == l.URL {
						repeated = true
					}
				}
				if at < len(leaf.Links) && *leaf.Links[at] == *l {
					verif.Assert(!repeated, "the first of repeated links is listed")
					at++
				} else {
					verif.Assert(!complete || repeated, "within the limit every accepted link is listed")
				}
			}
			verif.Assert(at == len(leaf.Links), "listed links are accepted ones in source order, unchanged")
		}
	}
	for _, k := range n.kids {
		count := k.count(ok)
		var next *LimitCountNode
		if i < len(kids) {
			next = kids[i].(*LimitCountNode)
			if t, isNode := next.Node.(*TreeChildrenNode); !isNode || !vPropsEqual(k.props, t.Props) {
				next = nil
			}
		}
		keep(next != nil, count)
		if next != nil {
			i++
			m := vReply(next, k, ok, complete, false)
			verif.Assert(m > 0, "a kept file or heading lists a link")
			listed += m
		} else {
			verif.Assert(!complete || count == 0, "within the limit every file and heading with accepted links is kept")
		}
	}
	verif.Assert(i == len(kids), "files, headings and bodies are in source order")
	verif.Assert(maxDropped == 0 || minKept >= maxDropped, "siblings with more matches are preferred")
	verif.Assert(r.Attrs.TargetCount == listed, "the filtered number is that of the listed links")
	verif.Assert(listed <= want, "the filtered number does not exceed the total")
	return listed
}

func vLookup(t *TreeChildrenNode, ok func(*Link) bool, limit int) *LimitCountNode {
	return FilterChildrenCount(CountDescendants(t, ok), limit)
}

// links to a and b, or to a part of these, are accepted
func vOk(l *Link) bool { return len(l.URL) > 0 && (l.URL[0] == 'a' || l.URL[0] == 'b') }

// vBig is one of some large trees of notes; the link at some place may be any
// of those to a, b or c.
func vBig() *vNode {
	n := []int{20, 45}[verif.Choose("count", 2)]
	if verif.Tier() > 0 && verif.Choose("larger", 2) == 1 {
		n *= 3
	}
	at := []int{0, n / 2, n - 1}[verif.Choose("at", 3)]
	distinct := verif.Choose("distinct", 2) == 1
	line := 0
	links := func(k int, n *vNode) {
		url := []string{"a", "c", "b"}[k%3]
		if k == at {
			url = verif.Str("url", 1, "abc")
		} else if distinct {
			url += string(rune('A' + k))
		}
		line += 97
		n.links = append(n.links, &Link{URL: url, Description: string(rune('A' + k)), LineNo: line})
	}
	heading := func(n *vNode) *vNode {
		line += 113
		k := &vNode{props: &Heading{line, "h" + string(rune(0x100+line))}}
		n.kids = append(n.kids, k)
		return k
	}
	file := func(n *vNode) *vNode {
		line = 0
		k := &vNode{props: &FileProps{"/f" + string(rune('0'+len(n.kids)))}}
		n.kids = append(n.kids, k)
		return k
	}
	root := &vNode{props: &FileGroupProps{}}
	switch verif.Choose("shape", 6) {
	case 0: // a long body
		f := file(root)
		for i := 0; i < n; i++ {
			links(i, f)
		}
	case 1: // many headings
		f := file(root)
		for i := 0; i < n; i++ {
			links(i, heading(f))
		}
	case 2: // many files
		for i := 0; i < n; i++ {
			links(i, file(root))
		}
	case 3: // headings below each other
		k := file(root)
		for i := 0; i < n; i++ {
			k = heading(k)
			links(i, k)
		}
	case 4: // a link far below
		k := file(root)
		for i := 0; i < n; i++ {
			k = heading(k)
		}
		links(at, k)
		links(at+1, k)
	case 5: // two levels
		f := file(root)
		for i := 0; i < n; i++ {
			if i%5 == 0 {
				heading(f)
			}
			links(i, f.kids[len(f.kids)-1])
		}
	}
	return root
}
