//verif:pkg pkg/burl_fuzzy

package burl_fuzzy

import (
	"strings"

	"github.com/maxnikulin/burl/internal/verif"
)

// VC20_reference: distances of short words agree with the definition
//
//verif:opts time=80 ttime=700
func VC20_reference() {
	maxP, maxW := 4, 4
	if verif.Tier() > 0 {
		maxP, maxW = 4, 5
	}
	m := 1 + verif.Choose("m", maxP)
	n := 1 + verif.Choose("n", maxW)
	p := verif.Str("p", m, "abA ")
	w := verif.Str("w", n, "abB ")
	d := int(SearchDistanceDL(p, w))
	verif.Observe("d", d)
	verif.Assert(d == vdistance(vlower(p), vlower(w)), "the distance is the minimal number of edits")
	verif.Reach("compared")
}

// VC20_zero: zero exactly for substrings, and never above the query length
//
//verif:opts time=60 ttime=700
func VC20_zero() {
	maxP, maxW := 3, 5
	if verif.Tier() > 0 {
		maxP, maxW = 5, 7
	}
	m := 1 + verif.Choose("m", maxP)
	n := 1 + verif.Choose("n", maxW)
	p := verif.Str("p", m, "abcdeABC/:. ")
	w := verif.Str("w", n, "abcdeABC/:. ")
	d := int(SearchDistanceDL(p, w))
	verif.Assert(d >= 0 && d <= m, "the distance is between zero and the length of the query")
	verif.Assert((d == 0) == strings.Contains(strings.ToLower(w), strings.ToLower(p)), "the distance is zero exactly if the word contains the query")
}

// VC20_letters: a character of several bytes counts as one, letter case
// is ignored also outside of ASCII
//
//verif:opts time=60
func VC20_letters() {
	sym := func(l string) string { return "\xc3" + verif.Str(l, 1, "\xa9\x89\xa8\xb6\x96") } // e and o with accents, both cases
	p := sym("p0") + sym("p1")
	w := sym("w0") + sym("w1") + sym("w2")
	d := int(SearchDistanceDL(p, w))
	fold := func(s string) []rune {
		var r []rune
		for i := 1; i < len(s); i += 2 {
			c := s[i]
			if c == 0x89 || c == 0x96 {
				c += 0x20
			}
			r = append(r, rune(c))
		}
		return r
	}
	verif.Observe("d", d)
	verif.Assert(d == vdistance(fold(p), fold(w)), "the distance counts characters")
}

// VC20_long: long queries and words that differ in few places
//
//verif:opts time=150 ttime=600
func VC20_long() {
	lengths := []int{8, 9, 16, 17, 33, 70}
	if verif.Tier() > 0 {
		lengths = append(lengths, 130)
	}
	n := lengths[verif.Choose("n", len(lengths))]
	base := make([]byte, n)
	for i := range base {
		base[i] = "abcdefghijk"[i*5%11]
	}
	p := append([]byte("<"), base...)[1:]
	at := func(l string) int { return []int{0, n / 2, n - 1}[verif.Choose(l, 3)] }
	p[at("p")] = verif.Str("c", 1, "abz")[0]
	w := append([]byte("xy"), base...)
	i := at("w")
	switch verif.Choose("edit", 3) {
	case 0:
		w = append(w[:2+i:2+i], w[3+i:]...)
	case 1:
		w = append(w[:2+i:2+i], append([]byte("z"), w[2+i:]...)...)
	case 2:
		w[2+i], w[1+i] = w[1+i], w[2+i]
	}
	w = append(w, 'y')
	d := int(SearchDistanceDL(string(p), string(w)))
	last := len(w)
	if n > 33 {
		last = 4 // what begins later is too short to be better than the at most 2 edits
	}
	verif.Assert(d == vdistanceFrom([]rune(string(p)), []rune(string(w)), last), "the distance is the minimal number of edits")
}

// VC20_far: the query at the end of a long word
//
//verif:opts time=100 ttime=600 steps=20000000
func VC20_far() {
	n := []int{10, 63, 64, 130, 1000, 2100, 5000}[verif.Choose("length", 7)]
	filler := []string{"x", "q", "é"}[verif.Choose("filler", 3)]
	p := "ab" + verif.Str("p", 1, "cd") + "e"
	w := strings.Repeat(filler, n) + "ab" + verif.Str("w", 1, "cd") + "e" + []string{"", filler}[verif.Choose("end", 2)]
	d := int(SearchDistanceDL(p, w))
	want := 1
	if p[2] == w[len(filler)*n+2] {
		want = 0
	}
	verif.Assert(d == want, "the distance is the minimal number of edits anywhere in the word")
}

// VC20_unlike: long queries that have little in common with the word
//
//verif:opts time=60 ttime=300 steps=30000000
func VC20_unlike() {
	n := []int{7, 21, 64, 130, 300, 1000, 40000}[verif.Choose("n", 7)]
	m := 3
	if n > 1000 {
		m = 1
	}
	w := verif.Str("w", m, "ab")
	want := n
	for i := 0; i < m; i++ {
		want -= 1 - vne(w[i] == 'a')
	}
	d := int(SearchDistanceDL(strings.Repeat("a", n), w))
	verif.Assert(d == want, "the distance is the minimal number of edits")
}

// VC20_scripts: characters of different scripts
//
//verif:opts time=60 ttime=300
func VC20_scripts() {
	letter := func(l string) (string, rune) {
		k := verif.Choose(l, 8)
		return []string{"\u00e9", "\u04e9", "\u04e8", "\u03a9", "\u03c9", "\u1ea9", "\U000104e9", "i"}[k],
			[]rune{0xe9, 0x4e9, 0x4e9, 0x3c9, 0x3c9, 0x1ea9, 0x104e9 + 0x0, 'i'}[k]
	}
	var p, w string
	var pr, wr []rune
	for i := 0; i < 2; i++ {
		s, r := letter("p")
		p += s
		pr = append(pr, r)
	}
	for i := 0; i < 2; i++ {
		s, r := letter("w")
		w += s
		wr = append(wr, r)
	}
	d := int(SearchDistanceDL(p, w))
	verif.Assert(d == vdistance(pr, wr), "the distance counts characters")
}
