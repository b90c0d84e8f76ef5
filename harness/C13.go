//verif:pkg pkg/burl_links

package burl_links

import (
	"strings"

	"github.com/maxnikulin/burl/internal/verif"
)

func vHasPrefix(url, p string) bool {
	colon := false
	for i := 0; i < len(p); i++ {
		colon = colon || p[i] == ':'
	}
	if !colon {
		p += ":"
	}
	return len(url) >= len(p) && url[:len(p)] == p
}

func vPrefixScheme(p string) string {
	for i := 0; i < len(p); i++ {
		if p[i] == ':' {
			return p[:i]
		}
	}
	return p
}

// vSet compares the links of a text having one of the prefixes
// with those returned.
func vSet(src TextLinkSource, text string, prefixes []string) {
	got := map[string]bool{}
	err := src.ExtractSet(strings.NewReader(text), prefixes, &got)
	verif.Assert(err == nil, "a valid request is served")
	var schemes []string
	for _, p := range prefixes {
		schemes = append(schemes, vPrefixScheme(p))
	}
	links := vScan(text, schemes)
	if src.Flag() == "txt" {
		links = vScanPlain(text, schemes)
	}
	verif.Observe("links", len(got))
	for u, present := range got {
		verif.Assert(present, "every returned link is present")
		ok := false
		for _, p := range prefixes {
			ok = ok || vHasPrefix(u, p)
		}
		verif.Assert(ok, "every returned link literally begins with a requested prefix")
		ok = false
		for _, l := range links {
			ok = ok || l.URL == u
		}
		verif.Assert(ok, "every returned link is a complete link of the file")
	}
	for _, l := range links {
		for _, p := range prefixes {
			if vHasPrefix(l.URL, p) {
				verif.Reach("link")
				verif.Assert(got[l.URL], "every link with a requested prefix is returned")
				break
			}
		}
	}
}

func vSource() TextLinkSource {
	if verif.Choose("txt", 2) == 1 {
		return TxtLinkSource("a.txt")
	}
	return OrgLinkSource("a.org")
}

// VC13_literal: characters of a prefix are literal
//
//verif:opts time=60 ttime=800
func VC13_literal() {
	n := 5
	if verif.Tier() > 0 {
		n = 10
	}
	src := vSource()
	prefix := "doi:" + verif.Str("prefix", n, ".*?+|\\^$a{1}/-")
	link := "doi:" + verif.Str("link", n, ".*?+|\\^$a{1}/-") + "b/"
	vSet(src, "x "+link+" y", []string{prefix})
}

// VC13_brackets: literal brackets and spaces
//
//verif:opts time=60 ttime=800
func VC13_brackets() {
	n := 4
	if verif.Tier() > 0 {
		n = 7
	}
	prefix := "doi:" + verif.Str("prefix", n, "()[]<> a")
	link := "doi:" + verif.Str("link", n, "<> a/")
	text := []string{"<" + link + "b>", "[[" + link + "b][c]]", link}[verif.Choose("form", 3)]
	vSet(OrgLinkSource("a.org"), text, []string{prefix})
}

// VC13_plain: plain links of any length and prefixes of any length
//
//verif:opts time=60 ttime=800
func VC13_plain() {
	n := 3
	if verif.Tier() > 0 {
		n = 6
	}
	src := vSource()
	prefix := "mid:" + verif.Str("prefix", verif.Choose("nprefix", n+1), "ab/.")
	text := verif.Str("before", 1, "<[ x_-") + "mid:" + verif.Str("link", n, "ab/. ,>]")
	vSet(src, text, []string{prefix})
}

// VC13_schemes: prefixes with and without colon
//
//verif:opts time=60 ttime=800
func VC13_schemes() {
	src := vSource()
	schemes := []string{"http", "https", "x", "x-h", "HTTP"}
	n := 1 + verif.Choose("prefixes", 2)
	var prefixes []string
	for i := 0; i < n; i++ {
		prefixes = append(prefixes, schemes[verif.Choose("prefix", len(schemes))]+[]string{"", ":", "://h"}[verif.Choose("more", 3)])
	}
	text := schemes[verif.Choose("scheme", len(schemes))] + verif.Str("colon", 1, ":s") + "//" + verif.Str("host", 2, "hg") + "/"
	if src.Flag() != "txt" {
		text = []string{"", "<", "[["}[verif.Choose("form", 3)] + text + []string{"", ">", "]]", "][http:aa]]"}[verif.Choose("form", 4)]
	}
	vSet(src, text, prefixes)
}

// VC13_several: repeated links and several lines' worth of links
//
//verif:opts time=60 ttime=800
func VC13_several() {
	src := vSource()
	prefixes := []string{"mid:" + verif.Str("p", 1, "abc"), "doi"}
	text := "mid:" + verif.Str("a", 2, "abc") + " doi:" + verif.Str("b", 2, "abc") + ", <mid:" + verif.Str("c", 2, "abc") + ">"
	if verif.Choose("bracket", 2) == 1 {
		text += " [[doi:x][mid:" + verif.Str("d", 2, "ab") + "]]"
	}
	vSet(src, text, prefixes)
}

// VC13_cut: prefixes that are a part of a link, or differ in a character
//
//verif:opts time=60 ttime=800
func VC13_cut() {
	n := 2
	if verif.Tier() > 0 {
		n = 4
	}
	src := vSource()
	form := verif.Choose("form", 4)
	url := "mid:a" + verif.Str("a", n, "b/.%+?") + "(" + verif.Str("b", n, "c.*") + ")/é" + verif.Str("c", 1, "de")
	text := ""
	switch form {
	case 0:
		text = url
	case 1:
		text = "(" + url + ")."
	case 2:
		text = "<" + url + ">"
	case 3:
		text = "[[" + url + "][" + verif.Str("descr", 1, "xé") + "]]"
	}
	cut := 4 + verif.Choose("cut", len(url)-3)
	prefix := []byte(url[:cut])
	if cut > 4 && verif.Choose("other", 2) == 1 {
		prefix[cut-1] = verif.Str("char", 1, "a./*()")[0]
	}
	got := map[string]bool{}
	err := src.ExtractSet(strings.NewReader("x "+text+" y"), []string{string(prefix)}, &got)
	if err != nil {
		// a prefix cut inside of a character cannot be expressed in JSON
		verif.Assert(prefix[cut-1] >= 0x80 || cut > 5 && prefix[cut-2] >= 0x80, "a valid request is served")
		return
	}
	if vHasPrefix(url, string(prefix)) {
		verif.Reach("link")
		verif.Assert(len(got) == 1 && got[url], "every link with a requested prefix is returned, once")
	} else {
		verif.Assert(len(got) == 0, "nothing else is returned")
	}
}

// VC13_scheme: characters of a scheme are literal
//
//verif:opts time=60 ttime=600
func VC13_scheme() {
	src := vSource()
	p := "a" + verif.Str("scheme", 1, "+-b9") + "c"
	u := "a" + verif.Str("used", 1, "+-b9a") + "c:" + verif.Str("rest", 1, "xy") + "x"
	switch verif.Choose("more", 3) {
	case 1:
		p += ":"
	case 2:
		p += ":" + verif.Str("more", 1, "xz")
	}
	vSet(src, []string{u, "<" + u + ">", "[[" + u + "]]", "a" + u}[verif.Choose("form", 4)], []string{p})
}
