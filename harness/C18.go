//verif:pkg pkg/burl_url

package burl_url

import (
	"strings"

	"github.com/maxnikulin/burl/internal/verif"
)

// vTails: the URL with 0, 1, ... redundant trailing characters cut off
func vTails(u string) []string {
	out := []string{u}
	i := len(u)
	cut := func(c byte) bool {
		if i > 0 && u[i-1] == c {
			i--
			out = append(out, u[:i])
			return true
		}
		return false
	}
	cut('#')
	for cut('&') {
	}
	cut('?')
	for cut('/') {
	}
	return out
}

func vPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

func vIn(list []string, s string) bool {
	for _, v := range list {
		if v == s {
			return true
		}
	}
	return false
}

func vCheck(u string) {
	want := vTails(u)
	if vPrefix(u, "http:") {
		verif.Reach("http")
		want = append(want, vTails("https:"+u[5:])...)
	} else if vPrefix(u, "https:") {
		verif.Reach("https")
		want = append(want, vTails("http:"+u[6:])...)
	}
	got := UrlVariants(u)
	verif.Observe("variants", len(got))
	verif.Assert(vIn(got, u), "the URL itself is a variant")
	for _, w := range want {
		verif.Assert(vIn(got, w), "every equivalent URL is a variant")
	}
	for _, g := range got {
		verif.Assert(vIn(want, g), "only equivalent URLs are variants")
	}
}

// VC18_any: any short URL
//
//verif:opts time=60 ttime=600
func VC18_any() {
	max := 9
	if verif.Tier() > 0 {
		max = 16
	}
	n := 1 + verif.Choose("n", max)
	vCheck(verif.Str("u", n, "ht:/?&#"))
}

// VC18_scheme: any tail after a scheme, any bytes
//
//verif:opts time=60 ttime=600
func VC18_scheme() {
	max := 6
	if verif.Tier() > 0 {
		max = 12
	}
	scheme := []string{"http:", "https:", "ftp:", "Http:", "httpx:", "xhttp:", "http"}[verif.Choose("scheme", 7)]
	n := verif.Choose("n", max+1)
	vCheck(scheme + verif.Str("t", n, "a/?&#:\xc3\xa9\xff"))
}

// VC18_inside: schemes and redundant characters inside of an URL
//
//verif:opts time=60 ttime=600
func VC18_inside() {
	parts := []string{"http:", "https:", "//", "/", "?", "&", "#", "x"}
	n := 4
	if verif.Tier() > 0 {
		n = 5
	}
	u := parts[verif.Choose("first", 2)]
	for i := 1; i < n; i++ {
		u += parts[verif.Choose("part", len(parts))]
	}
	vCheck(u + string(verif.Bytes("last", 1)))
}

// VC18_long: long URLs and long redundant tails
//
//verif:opts time=60 ttime=300
func VC18_long() {
	counts := []int{0, 1, 40}
	u := []string{"http:", "https:", "mid:"}[verif.Choose("scheme", 3)]
	u += strings.Repeat([]string{"a", "/b", "/?"}[verif.Choose("part", 3)], []int{1, 40, 1000}[verif.Choose("length", 3)])
	u += verif.Str("last", 1, "c/?&#")
	u += strings.Repeat("/", counts[verif.Choose("slashes", 3)])
	u += []string{"", "?"}[verif.Choose("query", 2)]
	u += strings.Repeat("&", counts[verif.Choose("ampersands", 3)])
	u += []string{"", "#"}[verif.Choose("fragment", 2)]
	vCheck(u)
}
