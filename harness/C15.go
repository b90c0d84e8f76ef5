//verif:pkg pkg/burl_links

package burl_links

import (
	"strings"

	"github.com/maxnikulin/burl/internal/verif"
)

// vPlace is where a link is expected.
type vPlace struct {
	chain []*Heading
	link  Link
}

type vOrg struct {
	text   []byte
	line   int
	open   []*Heading // enclosing headings
	depth  []int
	places []vPlace
}

func (o *vOrg) add(text string) {
	o.line++
	o.text = append(o.text, text...)
	o.text = append(o.text, '\n')
}

func (o *vOrg) heading(level int, text string) {
	for len(o.depth) > 0 && o.depth[len(o.depth)-1] >= level {
		o.depth = o.depth[:len(o.depth)-1]
		o.open = o.open[:len(o.open)-1]
	}
	h := &Heading{o.line, text}
	o.depth = append(o.depth, level)
	o.open = append(o.open[:len(o.open):len(o.open)], h)
}

func (o *vOrg) link(url, descr string) {
	o.places = append(o.places, vPlace{o.open[:len(o.open):len(o.open)], Link{url, descr, o.line}})
}

func (o *vOrg) check(t *TreeChildrenNode) {
	var got []vPlace
	var seen []int
	var walk func(n *TreeChildrenNode, chain []*Heading)
	walk = func(n *TreeChildrenNode, chain []*Heading) {
		for i, c := range n.GetChildrenNodes() {
			switch c := c.(type) {
			case *TreeLeafNode:
				verif.Assert(i == 0, "the body is in front of subheadings")
				for _, l := range c.Links {
					got = append(got, vPlace{chain, *l})
				}
			case *TreeChildrenNode:
				h, _ := c.Props.(*Heading)
				if h == nil {
					verif.Assert(false, "every level below a file is a heading")
					continue
				}
				for _, s := range seen {
					verif.Assert(s < h.LineNo, "every heading appears once, in file order")
				}
				seen = append(seen, h.LineNo)
				before := len(got)
				walk(c, append(chain[:len(chain):len(chain)], h))
				verif.Assert(len(got) > before, "a heading without links does not appear")
			}
		}
	}
	walk(t, nil)
	verif.Observe("links", len(got))
	verif.Assert(len(got) == len(o.places), "every link is reported once")
	if len(got) != len(o.places) {
		return
	}
	for i, w := range o.places {
		g := got[i]
		verif.Assert(g.link.LineNo == w.link.LineNo, "a link is reported with its line")
		verif.Assert(g.link.URL == w.link.URL && g.link.Description == w.link.Description, "links are in file order with URL and description")
		ok := len(g.chain) == len(w.chain)
		for k := 0; ok && k < len(w.chain); k++ {
			ok = *g.chain[k] == *w.chain[k]
		}
		verif.Assert(ok, "a link is reported below its enclosing headings")
	}
}

func (o *vOrg) run() {
	t, err := OrgLinkSource("a.org").Extract(strings.NewReader(string(o.text)), nil)
	verif.Assert(err == nil && t != nil, "notes can be read")
	if t != nil {
		o.check(t)
	}
}

// VC15_levels: headings of any depth in any order
//
//verif:opts time=60 ttime=800
func VC15_levels() {
	lines := 4
	levels := 4
	if verif.Tier() > 0 {
		lines, levels = 5, 5
	}
	o := &vOrg{}
	for i := 0; i < lines; i++ {
		url := "https://h.x/" + string(rune('a'+i))
		k := verif.Choose("level", levels)
		if k == 0 {
			o.add("- " + url)
			o.link(url, "")
			continue
		}
		text := string(rune('A' + i))
		if verif.Choose("linked", 2) == 1 {
			text += " [[" + url + "][" + text + "]]"
			o.add(strings.Repeat("*", k) + " " + text)
			o.heading(k, text)
			o.link(url, string(rune('A'+i)))
		} else {
			o.add(strings.Repeat("*", k) + " " + text)
			o.heading(k, text)
		}
	}
	o.run()
}

// VC15_far: skipped and very deep levels
//
//verif:opts time=60 ttime=800
func VC15_far() {
	lines := 3
	levels := []int{1, 2, 9, 10, 11, 12, 30}
	if verif.Tier() > 0 {
		lines = 4
	}
	o := &vOrg{}
	for i := 0; i < lines; i++ {
		k := levels[verif.Choose("level", len(levels))]
		text := string(rune('A' + i))
		o.add(strings.Repeat("*", k) + " " + text)
		o.heading(k, text)
		if verif.Choose("linked", 2) == 1 || i == lines-1 {
			url := "https://h.x/" + string(rune('a'+i))
			o.add("<" + url + ">")
			o.link(url, "")
		}
	}
	o.run()
}

// VC15_text: lines that are or only look like headings
//
//verif:opts time=60 ttime=800
func VC15_text() {
	n := 4
	if verif.Tier() > 0 {
		n = 6
	}
	o := &vOrg{}
	o.add("* A")
	o.heading(1, "A")
	s := verif.Str("line", n, "* a\\")
	o.add(s)
	k := 0
	for k < n && s[k] == '*' {
		k++
	}
	if k > 0 && k < n && s[k] == ' ' {
		from, to := k, n
		for from < n && s[from] == ' ' {
			from++
		}
		for to > from && s[to-1] == ' ' {
			to--
		}
		verif.Reach("heading")
		o.heading(k, s[from:to])
	}
	o.add("https://h.x/a https://h.x/b")
	o.link("https://h.x/a", "")
	o.link("https://h.x/b", "")
	o.run()
}

// VC15_lines: line numbers, whatever the lines look like
//
//verif:opts time=60 ttime=800
func VC15_lines() {
	n := 3
	if verif.Tier() > 0 {
		n = 5
	}
	o := &vOrg{}
	for i := 0; i < n; i++ {
		switch verif.Choose("line", 5) {
		case 0:
			o.add("")
		case 1:
			o.add("\r")
		case 2:
			url := "https://h.x/" + verif.Str("url", 1, "az09/")
			o.add("a " + url + " b\r")
			o.link(url, "")
		case 3:
			o.add("#+title: x")
		case 4:
			url := "https://h.x/" + verif.Str("url", 1, "az09/")
			o.add("<" + url + ">,[[" + url + "]]")
			o.link(url, "")
			o.link(url, "")
		}
	}
	if verif.Choose("unterminated", 2) == 1 {
		o.text = o.text[:len(o.text)-1]
	}
	o.run()
}

// VC15_chain: headings nested deeply, then back to any level
//
//verif:opts time=60 ttime=300
func VC15_chain() {
	n := []int{8, 9, 10, 11, 16, 17, 33}[verif.Choose("depth", 7)]
	first := []int{1, 2}[verif.Choose("first", 2)]
	linked := verif.Choose("linked", 3)
	o := &vOrg{}
	link := func() {
		url := "https://h.x/" + string(rune('a'+o.line%26))
		o.add("<" + url + ">")
		o.link(url, "")
	}
	for i := 0; i < n; i++ {
		text := "t" + string(rune('A'+i))
		o.add(strings.Repeat("*", first+i) + " " + text)
		o.heading(first+i, text)
		if linked == 1 || linked == 2 && i == n/2 || i == n-1 {
			link()
		}
	}
	k := []int{1, 2, n / 2, n - 1, n, n + 1}[verif.Choose("back", 6)]
	o.add(strings.Repeat("*", k) + " back")
	o.heading(k, "back")
	link()
	o.run()
}

// VC15_big: far lines, many links below a heading, many headings
//
//verif:opts time=60 ttime=300 steps=30000000
func VC15_big() {
	lines := []int{12, 130, 1100}
	if verif.Tier() > 0 {
		lines = []int{300, 5000}
	}
	n := lines[verif.Choose("lines", len(lines))]
	o := &vOrg{}
	o.add("* first")
	o.heading(1, "first")
	o.text = append(o.text, strings.Repeat("\n", n)...)
	o.line += n
	many := []int{1, 5, 20, 70}[verif.Choose("links", 4)]
	link := func() {
		url := "https://h.x/" + verif.Str("url", 1, "az")
		o.add("<" + url + ">")
		o.link(url, "")
	}
	switch verif.Choose("kind", 3) {
	case 0:
		for i := 0; i < many; i++ {
			url := "https://h.x/" + string(rune('A'+i/26)) + string(rune('a'+i%26))
			o.add("- " + url)
			o.link(url, "")
		}
	case 1:
		for i := 0; i < many; i++ {
			o.add("** x")
			o.heading(2, "x")
			if i%3 != 1 {
				link()
			}
		}
	case 2:
		line := ""
		for i := 0; i < many; i++ {
			url := "https://h.x/" + string(rune('a'+i%26))
			line += " " + url
			o.line++
			o.link(url, "")
			o.line--
		}
		o.add(line)
	}
	o.add("* last")
	o.heading(1, "last")
	link()
	o.run()
}

// VC15_titles: titles of any characters, white space behind them
//
//verif:opts time=60 ttime=300
func VC15_titles() {
	titles := []string{"", "é", "日 本", "a\tb", "*b*", "TODO [#A] x :tag:", "<b>", "\u2028x", "x\\", "[1/2]"}
	o := &vOrg{}
	for i := 1; i < 3; i++ {
		t := titles[verif.Choose("title", len(titles))]
		if verif.Choose("ascii", 2) == 1 {
			t = verif.Str("first", 1, "xX*1") + t + verif.Str("last", 1, "z.)")
		} else {
			t = "é" + t + "日"
		}
		o.add(strings.Repeat("*", i) + []string{" ", "  "}[verif.Choose("before", 2)] + t + []string{"", " ", "\t", " \t \r"}[verif.Choose("after", 4)])
		o.heading(i, t)
	}
	o.add("doi:ab")
	o.link("doi:ab", "")
	o.run()
}
