//verif:pkg pkg/burl_links

package burl_links

import (
	"strings"

	"github.com/maxnikulin/burl/internal/verif"
)

// vLinks extracts the links of a text.
func vLinks(text string) []Link {
	t, err := OrgLinkSource("a.org").Extract(strings.NewReader(text), nil)
	verif.Assert(err == nil && t != nil, "notes can be read")
	var out []Link
	if t != nil {
		ForEachLink(t, func(l *Link) bool {
			out = append(out, *l)
			return true
		})
	}
	return out
}

var vSchemes = []string{"doi", "http", "https", "mid"}

func vExact(text string, want []Link) {
	got := vLinks(text)
	verif.Observe("links", len(got))
	verif.Assert(len(got) >= len(want), "every link with a configured scheme is extracted")
	verif.Assert(len(got) <= len(want), "nothing else is extracted")
	for i := range got {
		if i < len(want) {
			verif.Assert(got[i].URL == want[i].URL, "the complete link target is the URL")
			verif.Assert(got[i].Description == want[i].Description, "the description of a link")
			verif.Assert(got[i].LineNo == 1, "the line of a link")
		}
	}
}

func vBracket(target, descr string, schemes []string) {
	text := "a [[" + target + "]"
	if descr != "" {
		text += "[" + descr + "]"
	}
	text += "] b"
	var want []Link
	if vScheme(target, schemes) > 0 {
		verif.Reach("link")
		want = append(want, Link{URL: target, Description: descr})
	} else {
		verif.Reach("no link")
	}
	vExact(text, want)
}

// VC16_bracket: bracket links to any target
//
//verif:opts time=60 ttime=800
func VC16_bracket() {
	n := 6
	if verif.Tier() > 0 {
		n = 10
	}
	target := verif.Str("target", n, "midohtps:/ .-+<>#*")
	descr := ""
	if verif.Choose("descr", 2) == 1 {
		descr = verif.Str("descr", 2, "d:]<")
		if descr[0] == ']' || descr[1] == ']' {
			verif.Assume(false)
		}
	}
	vBracket(target, descr, vSchemes)
}

// VC16_inside: configured schemes inside of other targets
//
//verif:opts time=60 ttime=800
func VC16_inside() {
	n := 4
	if verif.Tier() > 0 {
		n = 8
	}
	head := verif.Str("head", n, "filex:/#*?")
	scheme := vSchemes[verif.Choose("scheme", len(vSchemes))]
	colon := []string{"", ":", "-a:"}[verif.Choose("colon", 3)]
	vBracket(head+scheme+colon+"//h.x/", "", vSchemes)
}

// VC16_plain: any text with configured schemes
//
//verif:opts time=60 ttime=800
func VC16_plain() {
	n, m := 3, 5
	if verif.Tier() > 0 {
		n, m = 4, 8
	}
	head := verif.Str("head", n, "a_ -<:[")
	tail := verif.Str("tail", m, "a_/. ,->:<")
	text := head + vSchemes[verif.Choose("scheme", len(vSchemes))] + []string{":", ""}[verif.Choose("colon", 2)] + tail
	vExact(text, vScan(text, vSchemes))
}

// VC16_several: several links, next to each other
//
//verif:opts time=60 ttime=800
func VC16_several() {
	n := 3
	if verif.Tier() > 0 {
		n = 5
	}
	text := verif.Str("a", 1, "<[ ") + "mid:b" + verif.Str("b", n, ">]/. ,c") + "https://x" + verif.Str("c", n, ">] /<y") + "doi:zz"
	vExact(text, vScan(text, vSchemes))
}

// VC16_mixed: brackets around and between links
//
//verif:opts time=60 ttime=800
func VC16_mixed() {
	n := 4
	if verif.Tier() > 0 {
		n = 6
	}
	text := verif.Str("a", 2, "[x ") + "mid:b" + verif.Str("b", n, "[]d/") + "https://x" + verif.Str("c", n, "] [e")
	vExact(text, vScan(text, vSchemes))
}

// VC16_parens: balanced parentheses belong to a plain link
//
//verif:opts time=60 ttime=800
func VC16_parens() {
	n := 2
	if verif.Tier() > 0 {
		n = 6
	}
	scheme := vSchemes[verif.Choose("scheme", len(vSchemes))]
	url := scheme + "://h" + verif.Str("a", n, "b/_.") + "(" + verif.Str("b", n, "c/_.") + ")"
	if verif.Choose("more", 2) == 1 {
		url += "d/"
	}
	text := []string{"", "see ", "(", "see ("}[verif.Choose("before", 4)] + url
	text += []string{"", " and", ", and", ".", ")", "."}[verif.Choose("after", 6)]
	vExact(text, []Link{{url, "", 1}})
}

// VC16_added: schemes added to the default ones, or instead of them
//
//verif:opts time=60 ttime=800
func VC16_added() {
	added := verif.Str("scheme", 2, "fxp")
	list, schemes := []string{}, []string{}
	if verif.Choose("defaults", 2) == 1 {
		list = append(list, SchemeVariants...)
		schemes = append(schemes, vSchemes...)
	}
	switch verif.Choose("form", 3) {
	case 0:
		list = append(list, added)
	case 1:
		list = append(list, added+":")
	case 2:
		list = append(list, added, "", "news", added)
		schemes = append(schemes, "news")
	}
	schemes = append(schemes, added)
	verif.Assert(UpdateRe(list) == nil, "valid schemes are accepted")
	if verif.Choose("again", 2) == 1 {
		bad := [][]string{nil, {}, {""}, {":", ""}, {"("}, {"mid", "a)"}, {"[", "b"}}
		verif.Assert(UpdateRe(bad[verif.Choose("bad", len(bad))]) != nil, "invalid or empty lists of schemes are refused")
	}
	used := []string{"fp", "pf", "mid", "https", "news", "f", "xx"}[verif.Choose("used", 7)]
	text := []string{"", "<", "[[", "[[file:", "[[x", " "}[verif.Choose("before", 6)] + used + "://x" + []string{"", ">", "]]", "][f]]"}[verif.Choose("after", 4)]
	vExact(text, vScan(text, schemes))
}

// VC16_refused: refused lists leave the default schemes in force
//
//verif:opts time=60 ttime=800
func VC16_refused() {
	bad := verif.Str("scheme", 2, "m*+()[")
	err := UpdateRe([]string{"mid", bad})
	verif.Assert(UpdateRe([]string{"", ":"}) != nil, "empty lists of schemes are refused")
	if err == nil {
		return
	}
	verif.Reach("refused")
	text := "[[doi:a]] [[x-mid:a]] https://h/ m:aa <mid:b>"
	vExact(text, []Link{{"doi:a", "", 1}, {"https://h/", "", 1}, {"mid:b", "", 1}})
}

// VC16_long: long links and descriptions, many schemes and many links in a line
//
//verif:opts time=60 ttime=300
func VC16_long() {
	schemes := append([]string{}, SchemeVariants...)
	all := append([]string{}, vSchemes...)
	for i := []int{0, 4, 30}[verif.Choose("schemes", 3)]; i > 0; i-- {
		s := "s" + string(rune('a'+i%26)) + string(rune('a'+i/26))
		schemes = append(schemes, s)
		all = append(all, s)
	}
	verif.Assert(UpdateRe(schemes) == nil, "valid schemes are accepted")
	used := all[[]int{0, len(all) / 2, len(all) - 1}[verif.Choose("used", 3)]]
	n := []int{10, 70, 300, 3000}[verif.Choose("length", 4)]
	part := []string{"a", "b/", "%20", "é", "x_y."}[verif.Choose("part", 5)]
	url := used + "://h/" + strings.Repeat(part, n) + verif.Str("end", 1, "a/")
	switch verif.Choose("form", 5) {
	case 0:
		url += " and (more"
		vExact("<"+url+"> x", []Link{{url, "", 1}})
	case 1:
		vExact("x "+url+" x", []Link{{url, "", 1}})
	case 2:
		d := strings.Repeat([]string{"d", "d e", "é"}[verif.Choose("descr", 3)], n) + "."
		vExact("[["+url+"]["+d+"]]", []Link{{url, d, 1}})
	case 3:
		vExact("[["+url+"]]", []Link{{url, "", 1}})
	case 4:
		var want []Link
		text := ""
		for i := 0; i < n && i < 300; i++ {
			u := used + "://" + string(rune('a'+i%26)) + "/"
			text += []string{" " + u, "<" + u + ">", "[[" + u + "]]"}[i%3]
			want = append(want, Link{u, "", 1})
		}
		vExact(text, want)
	}
}

// VC16_chars: any characters inside and at the end of plain and angle links
//
//verif:opts time=60 ttime=600
func VC16_chars() {
	var all []byte
	for c := byte(0x21); c < 0x7f; c++ {
		if c != '(' && c != ')' && c != '[' {
			all = append(all, c)
		}
	}
	all = append(all, '\t', ' ')
	n := 2
	if verif.Tier() > 0 {
		n = 3
	}
	url := vSchemes[verif.Choose("scheme", len(vSchemes))] + ":b" + verif.Str("chars", n, string(all))
	switch verif.Choose("form", 3) {
	case 0:
		text := "x " + url
		vExact(text, vScan(text, vSchemes))
	case 1:
		text := url + "\tc"
		vExact(text, vScan(text, vSchemes))
	case 2:
		text := "<" + url + "> ."
		vExact(text, vScan(text, vSchemes))
	}
}

// VC16_nested: parentheses inside of parentheses, letters of any script
//
//verif:opts time=60 ttime=600
func VC16_nested() {
	atoms := []string{"", "a", "é", "(b)", "(c(d))", "(日)", "((e)f(g))", "/"}
	if verif.Tier() > 0 {
		atoms = append(atoms, "=ж", "(/)", "((h))", "%d0", "?i=j&", "#k")
	}
	url := "https://h"
	for i := 0; i < 3; i++ {
		url += atoms[verif.Choose("part", len(atoms))]
	}
	last := url[len(url)-1]
	if last == '=' || last == '&' {
		url += "z"
	}
	if url == "https://h" {
		url += verif.Str("more", 1, "zZ9/")
	}
	before := []string{"", "(", "«", "\t", "日 "}[verif.Choose("before", 5)]
	after := []string{"", ").", "\t(", " é", "> <"}[verif.Choose("after", 5)]
	vExact(before+url+after, []Link{{url, "", 1}})
}

// VC16_escaped: escaped brackets in a target, single brackets in a description
//
//verif:opts time=60 ttime=600
func VC16_escaped() {
	atoms := []string{"a", "\\[", "\\]", "\\\\", " ", "é"}
	n := 3
	if verif.Tier() > 0 {
		n = 4
	}
	target, plain := "http://h/", "http://h/"
	for i := 0; i < n; i++ {
		k := verif.Choose("part", len(atoms))
		target += atoms[k]
		if k == 1 || k == 2 {
			plain += atoms[k][1:]
		} else {
			plain += atoms[k]
		}
	}
	target += "b"
	plain += "b"
	descr := []string{"", "d", "a]b", "[x", "x[y]z", "é — \\]z"}[verif.Choose("descr", 6)]
	text := "[[" + target + "]"
	if descr != "" {
		text += "[" + descr + "]"
	}
	got := vLinks(text + "] tail")
	verif.Assert(len(got) == 1, "a bracket link is extracted as one link")
	if len(got) == 1 {
		verif.Assert(got[0].URL == target || got[0].URL == plain, "the complete link target is the URL")
		verif.Assert(got[0].Description == descr, "the description of a link")
	}
}
