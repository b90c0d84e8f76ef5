//verif:pkg pkg/burl_fuzzy

package burl_fuzzy

import (
	"github.com/maxnikulin/burl/internal/verif"
)

func vaccept(query []string, word string, tol int) (bool, int) {
	limit := 3
	t := EditorDistance(tol)
	h := ProcessUrlSource(query, func(cb func(string) bool) { cb(word) }, &limit, &t)
	if len(h) == 0 {
		return false, 0
	}
	verif.Assert(len(h) == 1 && h[0].Word == word, "an accepted word is listed once and unchanged")
	return true, int(h[0].Weight)
}

// VC21_sum: one or two subqueries
//
//verif:opts time=90 ttime=700
func VC21_sum() {
	maxQ, maxW := 2, 3
	if verif.Tier() > 0 {
		maxQ, maxW = 3, 4
	}
	nq := 1 + verif.Choose("queries", 2)
	var query []string
	sum := 0
	n := 1 + verif.Choose("n", maxW)
	w := verif.Str("w", n, "abcB")
	for i := 0; i < nq; i++ {
		m := 1 + verif.Choose("m", maxQ)
		q := verif.Str("q", m, "abcA")
		query = append(query, q)
		sum += vdistance(vlower(q), vlower(w))
	}
	tol := verif.Int("tol", 0, 6)
	ok, d := vaccept(query, w, tol)
	verif.Observe("ok", ok)
	verif.Observe("d", d)
	if ok {
		verif.Assert(d == sum, "the distance of an accepted word is the sum of the distances")
		verif.Reach("accepted")
	} else {
		verif.Reach("refused")
	}
	verif.Assert(ok == (sum <= tol), "a word is accepted exactly if the sum of distances is within the tolerance")
}

// VC21_long: a query much longer than the word
//
//verif:opts time=60 ttime=600
func VC21_long() {
	m := 3 + verif.Choose("m", 3)
	n := 1 + verif.Choose("n", 2)
	q := verif.Str("q", m, "abA")
	w := verif.Str("w", n, "abB")
	tol := verif.Int("tol", 0, 6)
	sum := vdistance(vlower(q), vlower(w))
	ok, d := vaccept([]string{q}, w, tol)
	verif.Assert(ok == (sum <= tol), "a word is accepted exactly if the distance is within the tolerance")
	verif.Assert(!ok || d == sum, "the distance of an accepted word is the sum of the distances")
}

// VC21_letters: characters of several bytes, letter case outside of ASCII
//
//verif:opts time=60 ttime=600
func VC21_letters() {
	word := func(l string, n int) (string, []rune) {
		s := ""
		var r []rune
		for i := 0; i < n; i++ {
			c := verif.Str(l, 1, "\xa9\x89\xa8\x96")
			s += "\xc3" + c
			k := c[0]
			if k == 0x89 || k == 0x96 {
				k += 0x20
			}
			r = append(r, rune(k))
		}
		return s, r
	}
	q, qr := word("q", 1+verif.Choose("m", 3))
	w, wr := word("w", 1+verif.Choose("n", 3))
	tol := verif.Int("tol", 0, 3)
	sum := vdistance(qr, wr)
	ok, d := vaccept([]string{q}, w, tol)
	verif.Assert(ok == (sum <= tol), "acceptance does not depend on letter case and bytes per character")
	verif.Assert(!ok || d == sum, "the distance of an accepted word is the sum of the distances")
}

// VC21_many: up to six subqueries
//
//verif:opts time=60 ttime=300
func VC21_many() {
	var query []string
	sum := 0
	w := verif.Str("w", 1+verif.Choose("n", 2), "abc")
	for i := 3 + verif.Choose("queries", 4); i > 0; i-- {
		q := verif.Str("q", 1, "abA")
		query = append(query, q)
		sum += vdistance(vlower(q), vlower(w))
	}
	tol := verif.Int("tol", 0, 6)
	ok, d := vaccept(query, w, tol)
	verif.Assert(ok == (sum <= tol), "a word is accepted exactly if the sum of distances is within the tolerance")
	verif.Assert(!ok || d == sum, "the distance of an accepted word is the sum of the distances")
}
