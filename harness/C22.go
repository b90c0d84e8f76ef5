//verif:pkg pkg/burl_fuzzy

package burl_fuzzy

import (
	"github.com/maxnikulin/burl/internal/verif"
)

type vcand struct {
	word string
	dist int
}

func (a vcand) better(b vcand) bool {
	if a.dist != b.dist {
		return a.dist < b.dist
	}
	if len(a.word) != len(b.word) {
		return len(a.word) < len(b.word)
	}
	return a.word < b.word
}

// the ranked result has to be exactly the best accepted candidates, the best last
func vcheckRanking(query []string, cands []vcand, limit, tol int) {
	t := EditorDistance(tol)
	vcheckRankingPtr(query, cands, limit, tol, &limit, &t)
}

func vcheckRankingPtr(query []string, cands []vcand, limit, tol int, lp *int, tp *EditorDistance) {
	h := ProcessUrlSource(query, func(cb func(string) bool) {
		for _, c := range cands {
			if !cb(c.word) {
				return
			}
		}
	}, lp, tp)
	accepted := 0
	for _, c := range cands {
		if c.dist <= tol {
			accepted++
		}
	}
	n := len(h)
	verif.Assert(n == vmin(accepted, limit), "as many candidates are kept as were accepted, up to the limit")
	for i, c := range cands {
		if c.dist > tol {
			continue
		}
		rank := 0
		for j, o := range cands {
			if o.dist <= tol && (o.better(c) || j < i && !c.better(o)) {
				rank++
			}
		}
		if rank < limit {
			verif.Reach("kept")
			g := h[n-1-rank]
			verif.Assert(g.Word == c.word && int(g.Weight) == c.dist, "a kept candidate is at the place of its rank")
		} else {
			verif.Reach("dropped")
		}
	}
}

// VC22_ranking: candidates of different distance and length
//
//verif:opts time=100 ttime=700
func VC22_ranking() {
	count := 4
	if verif.Tier() > 0 {
		count = 5
	}
	var cands []vcand
	for i := 0; i < count; i++ {
		w := verif.Str("w", 1+verif.Choose("len", 2), "ab")
		cands = append(cands, vcand{w, vdistance([]rune("ab"), vlower(w))})
	}
	limit := 1 + verif.Choose("limit", 3)
	vcheckRanking([]string{"ab"}, cands, limit, verif.Int("tol", 0, 2))
}

// VC22_order: more candidates, all at the same distance
//
//verif:opts time=100 ttime=700
func VC22_order() {
	count := 4
	if verif.Tier() > 0 {
		count = 5
	}
	var cands []vcand
	for i := 0; i < count; i++ {
		cands = append(cands, vcand{verif.Str("w", 1, "abcdefgh"), 0})
	}
	limit := 1 + verif.Choose("limit", 3)
	vcheckRanking(nil, cands, limit, 0)
}

// VC22_bytes: lengths are counted in bytes
//
//verif:opts time=60 ttime=300
func VC22_bytes() {
	words := []string{"é", "ab", "b", "abc", "é€", "€", "\xff", "aB", "B", "Ab", "_"}
	var cands []vcand
	for i := 0; i < 3; i++ {
		cands = append(cands, vcand{words[verif.Choose("w", len(words))], 0})
	}
	vcheckRanking(nil, cands, 1+verif.Choose("limit", 3), 0)
}

// VC22_defaults: what is not given is 10 results and a tolerance of 5
//
//verif:opts time=60 ttime=300
func VC22_defaults() {
	if verif.Choose("what", 2) == 0 {
		var cands []vcand
		n := 8 + verif.Choose("n", 6)
		from := verif.Choose("from", n)
		for i := 0; i < n; i++ {
			cands = append(cands, vcand{string(rune('a' + (from+i*5)%n)), 0})
		}
		t := EditorDistance(0)
		vcheckRankingPtr(nil, cands, 10, 0, nil, &t)
		return
	}
	q := "aaaaaaaa"[:3+verif.Choose("query", 6)]
	var cands []vcand
	for i := 0; i < 2; i++ {
		w := verif.Str("w", 1+verif.Choose("len", 2), "ab")
		cands = append(cands, vcand{w, vdistance([]rune(q), vlower(w))})
	}
	limit := 1 + verif.Choose("limit", 2)
	vcheckRankingPtr([]string{q}, cands, limit, 5, &limit, nil)
}

// VC22_many: more candidates than any limit
//
//verif:opts time=60 ttime=300
func VC22_many() {
	limits := []int{1, 5, 30, 64, 65, 99}
	limit := limits[verif.Choose("limit", len(limits))]
	n := []int{20, 64, 100, 130}[verif.Choose("n", 4)]
	step := []int{1, 7, 129}[verif.Choose("step", 3)]
	odd := verif.Choose("odd", 3)
	h := ProcessUrlSource([]string{"ab"}, func(cb func(string) bool) {
		for i := 0; i < n; i++ {
			k := i * step % n
			w := "ab" + string(rune('c'+k/24)) + string(rune('c'+k%24))
			if odd == 1 && k%2 == 1 || odd == 2 {
				w = "a" + w[2:] // at the distance of 1
			}
			if !cb(w) {
				return
			}
		}
	}, &limit, nil)
	size := vmin(n, limit)
	verif.Assert(len(h) == size, "as many candidates are kept as were accepted, up to the limit")
	at := size - 1
	for pass := 0; pass < 2; pass++ {
		for k := 0; k < n && at >= 0; k++ {
			far := odd == 1 && k%2 == 1 || odd == 2
			if far != (pass == 1) {
				continue
			}
			w := string(rune('c'+k/24)) + string(rune('c'+k%24))
			if far {
				w = "a" + w
			} else {
				w = "ab" + w
			}
			verif.Assert(h[at].Word == w, "a kept candidate is at the place of its rank")
			at--
		}
	}
}
