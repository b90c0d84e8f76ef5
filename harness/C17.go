//verif:pkg pkg/burl_links

package burl_links

import (
	"strings"

	"github.com/maxnikulin/burl/internal/verif"
)

func vTxtLinks(text string) (out []Link) {
	t, err := TxtLinkSource("a.txt").Extract(strings.NewReader(text), nil)
	verif.Assert(err == nil && t != nil, "notes can be read")
	if t == nil {
		return
	}
	ForEachLink(t, func(l *Link) bool {
		out = append(out, *l)
		return true
	})
	return
}

func vLetter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80 }

// vLinkLike: begins with scheme: and something more, or with host.domain
func vLinkLike(u string) bool {
	i := 0
	for i < len(u) && vLetter(u[i]) && u[i] < 0x80 {
		i++
	}
	if i > 0 && i < len(u) && u[i] == ':' {
		rest := u[i+1:]
		return rest != "" && rest != "//"
	}
	// host.domain
	i = 0
	for i < len(u) && (vLetter(u[i]) || u[i] >= '0' && u[i] <= '9' || u[i] == '-' || u[i] == '_') {
		i++
	}
	return i > 0 && i+1 < len(u) && u[i] == '.' && u[i+1] != '.' && u[i+1] != '/'
}

// vCheckLinks of lines
func vCheckLinks(lines []string) []Link {
	text := ""
	for _, l := range lines {
		text += l + "\n"
	}
	got := vTxtLinks(text)
	verif.Observe("links", len(got))
	line, at := 1, 0 // where to look for the next link
	for _, l := range got {
		verif.Reach("link")
		if l.LineNo < line || l.LineNo > len(lines) {
			verif.Assert(false, "links are in file order")
			return got
		}
		if l.LineNo > line {
			line, at = l.LineNo, 0
		}
		s := lines[line-1]
		found := false
		for k := at; k+len(l.URL) <= len(s); k++ {
			if s[k:k+len(l.URL)] == l.URL {
				found = true
				at = k + len(l.URL)
				break
			}
		}
		verif.Assert(found && l.URL != "", "a link is a part of its line, behind the previous link")
		for k := 0; k < len(l.URL); k++ {
			verif.Assert(l.URL[k] != ' ' && l.URL[k] != '\t' && l.URL[k] != '\r', "a link is a part of a single word")
		}
		verif.Assert(vLinkLike(l.URL), "a link begins like scheme: or host.domain and is not a bare scheme, word or relative path")
		verif.Assert(l.Description == "", "a link of a text file has no description")
	}
	return got
}

// VC17_line: any line of text
//
//verif:opts time=60 ttime=800
func VC17_line() {
	n := 6
	if verif.Tier() > 0 {
		n = 9
	}
	vCheckLinks([]string{"x", verif.Str("line", n, "ab.:/ ")})
}

// VC17_odd: lines with less usual characters
//
//verif:opts time=60 ttime=800
func VC17_odd() {
	n := 4
	if verif.Tier() > 0 {
		n = 5
	}
	s := verif.Str("line", n, "a.:/-_%0@?\t")
	switch verif.Choose("around", 3) {
	case 0:
	case 1:
		s = "ab." + s + "b"
	case 2:
		s = "http" + s + "é.fr"
	}
	vCheckLinks([]string{s})
}

// VC17_url: a complete URL is extracted unchanged
//
//verif:opts time=60 ttime=800
func VC17_url() {
	h, p := 3, 4
	if verif.Tier() > 0 {
		h, p = 5, 6
	}
	host := "a" + verif.Str("host", h, "a0-.") + "b"
	for i := 0; i+1 < len(host); i++ {
		a, b := host[i], host[i+1]
		verif.Assume(!((a == '.' || a == '-') && b == '.' || a == '.' && b == '-'))
	}
	url := []string{"http://", "https://"}[verif.Choose("scheme", 2)] + host + []string{".xy", ".org", ".музей"}[verif.Choose("tld", 3)]
	if verif.Choose("path", 2) == 1 {
		url += "/" + verif.Str("path", p, "aZ09/._-~,@") + []string{"", "%4f", "é", "/"}[verif.Choose("end", 4)]
	}
	before := []string{"", "w ", "\t", "x. "}[verif.Choose("before", 4)]
	after := []string{"", " w", "\t"}[verif.Choose("after", 3)]
	got := vCheckLinks([]string{"first", before + url + after})
	verif.Assert(len(got) == 1, "a complete URL is extracted as a single link")
	if len(got) == 1 {
		verif.Assert(got[0].URL == url && got[0].LineNo == 2, "a complete URL is extracted unchanged with its line")
	}
}

// VC17_lines: links in several words and lines
//
//verif:opts time=60 ttime=800
func VC17_lines() {
	n := 2
	if verif.Tier() > 0 {
		n = 3
	}
	var lines []string
	var want []Link
	for k := 0; k < n; k++ {
		for i := verif.Choose("empty", 2); i > 0; i-- {
			lines = append(lines, []string{"", " "}[k%2])
		}
		i := len(lines)
		s := ""
		for k := verif.Choose("words", 3); k > 0; k-- {
			switch verif.Choose("word", 4) {
			case 0:
				s += "word "
			case 1:
				u := "https://h.xy/" + verif.Str("path", 1, "ab")
				s += u + "\t"
				want = append(want, Link{u, "", i + 1})
			case 2:
				s += "a/b/ "
			case 3:
				s += "  http:// -\r"
			}
		}
		lines = append(lines, s)
	}
	got := vCheckLinks(lines)
	verif.Assert(len(got) == len(want), "every link is extracted")
	for i := range got {
		if i < len(want) {
			verif.Assert(got[i] == want[i], "links are in file order with their lines")
		}
	}
}

// VC17_host: hosts with many or long parts
//
//verif:opts time=60 ttime=800
func VC17_host() {
	c := verif.Str("char", 2, "a0-_")
	host := ""
	labels := []int{1, 2, 3, 4, 5, 8, 12, 16}
	for i := labels[verif.Choose("labels", len(labels))]; i > 0; i-- {
		host += "h" + string(c[i%2]) + "1."
	}
	if verif.Choose("long", 2) == 1 {
		host = strings.Repeat("b", []int{10, 32, 61, 63}[verif.Choose("length", 4)]) + "." + "c.d."
	}
	url := "https://" + host + []string{"xy", "museum", "international"}[verif.Choose("tld", 3)] + []string{"", "/", "/p/q", "/" + strings.Repeat("p", 70) + "/" + strings.Repeat("q/", 20)}[verif.Choose("path", 4)]
	got := vCheckLinks([]string{url})
	verif.Assert(len(got) == 1, "a complete URL is extracted as a single link")
	if len(got) == 1 {
		verif.Assert(got[0].URL == url, "a complete URL is extracted unchanged")
	}
}

// VC17_long: far lines, many links in a line, long paths
//
//verif:opts time=60 ttime=300 steps=30000000
func VC17_long() {
	n, many := 0, 1
	if verif.Choose("lines", 2) == 1 {
		lines := []int{12, 130, 1100}
		if verif.Tier() > 0 {
			lines = []int{300, 5000}
		}
		n = lines[verif.Choose("number", len(lines))]
	} else {
		many = []int{1, 5, 20, 70}[verif.Choose("links", 4)]
	}
	path := "p" + strings.Repeat([]string{"a", "b/", "%20", "-x"}[verif.Choose("part", 4)], []int{1, 20, 70}[verif.Choose("length", 3)])
	c := verif.Str("path", 1, "ab9")
	line, want := "", []Link{}
	for i := 0; i < many; i++ {
		u := "https://h.xy/" + string(rune('A'+i%26)) + path
		if i+1 == many {
			u += c
		}
		if u[len(u)-1] == '/' {
			u += "e"
		}
		line += u + " "
		want = append(want, Link{u, "", n + 1})
	}
	got := vTxtLinks(strings.Repeat("\n", n) + line)
	verif.Assert(len(got) == len(want), "every link is extracted")
	for i := range got {
		if i < len(want) {
			verif.Assert(got[i] == want[i], "links are in file order with their lines, unchanged")
		}
	}
}

// VC17_letters: letters of any script and case, escapes of any bytes
//
//verif:opts time=60 ttime=600
func VC17_letters() {
	letters := []string{"a", "Z", "0", "é", "É", "ж", "Ж", "日", "ש", "क", "ß"}
	at := func(l string) string { return letters[verif.Choose(l, len(letters))] }
	url := []string{"http://", "https://"}[verif.Choose("scheme", 2)]
	host, tld, path := "ho", "org", ""
	switch verif.Choose("where", 3) {
	case 0:
		host = at("host") + []string{"", "-", "_", "m"}[verif.Choose("middle", 4)] + at("host")
	case 1:
		t := at("tld")
		verif.Assume(t != "0")
		tld = t + []string{"", "n"}[verif.Choose("middle", 2)] + letters[:2][verif.Choose("tld", 2)]
		tld += []string{"", "."}[verif.Choose("root", 2)]
	case 2:
		path = "/" + at("path") + []string{"", ".", "@", "~", ",", "-", "_"}[verif.Choose("middle", 7)] + at("path")
	}
	url += host + ".sub." + tld + path
	if verif.Choose("escape", 2) == 1 {
		if path == "" {
			url += "/"
		}
		url += "%" + verif.Str("escape", 2, "0189afAF")
	}
	got := vCheckLinks([]string{"w " + url + "\tw"})
	verif.Assert(len(got) == 1, "a complete URL is extracted as a single link")
	if len(got) == 1 {
		verif.Assert(got[0].URL == url || got[0].URL+"." == url, "a complete URL is extracted unchanged")
	}
}
