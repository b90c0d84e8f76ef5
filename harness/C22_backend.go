//verif:pkg cmd/burl_backend

package main

import (
	"os"

	"github.com/maxnikulin/burl/internal/verif"
	"github.com/maxnikulin/burl/pkg/burl_rpc"
)

type vSearcher interface {
	Search(*burl_rpc.SearchQuery, *[]burl_rpc.ReplyRecord) error
}

func vRefused(b vSearcher, limit, tol *int) (refused bool, reply []burl_rpc.ReplyRecord) {
	err := b.Search(&burl_rpc.SearchQuery{Query: "ab", Limit: limit, Tolerance: tol}, &reply)
	if err != nil {
		verif.Observe("err", err.Error())
	}
	return err != nil, reply
}

// VC22_arguments: any limit and tolerance
//
//verif:opts time=60 ttime=300
func VC22_arguments() {
	os.Reset()
	os.AddDir("/n")
	os.AddFile("/n/a.org", "http://h/abc\nhttp://h/acb\nhttp://h/xy\nhttp://h/ab\n", 0644)
	vServe([]string{"/n/a.org"}, func(bk vBackend) {
		b, ok := bk.(vSearcher)
		if !ok {
			verif.Unsupported("no search")
		}
		limit := int(verif.Int64("limit", -1<<63, 1<<63-1))
		tol := int(verif.Int64("tol", -1<<63, 1<<63-1))
		pl, pt := &limit, &tol
		n, some := 10, 5
		if verif.Choose("limit", 2) == 0 {
			pl = nil
		} else {
			n = limit
		}
		if verif.Choose("tol", 2) == 0 {
			pt = nil
		} else {
			some = tol
		}
		refused, reply := vRefused(b, pl, pt)
		verif.Assert(refused == (n < 1 || n > 99 || some < 0), "exactly limits outside 1 to 99 and negative tolerances are refused")
		if refused {
			verif.Reach("refused")
			return
		}
		verif.Reach("accepted")
		// the words in the order of their distances, with the distances:
		// a query of 2 characters allows for one error
		words := []string{"http://h/ab", "http://h/abc", "http://h/acb", "http://h/xy"}
		dist := []int{0, 0, 1, 2}
		want := 0
		for i := range words {
			if dist[i] <= some && (some > 0 || i < 2) && want < n {
				want++
			}
		}
		verif.Observe("reply", len(reply))
		verif.Assert(len(reply) == want, "all candidates within the tolerance are reported up to the limit")
		for i, r := range reply {
			verif.Assert(i < len(words) && r.Url == words[i], "the best candidates come first")
		}
	})
}

// VC22_reply: the best links first, whatever the order in the files
//
//verif:opts time=60 ttime=300
func VC22_reply() {
	os.Reset()
	os.AddDir("/n")
	size := 3
	if verif.Tier() > 0 {
		size = 4
	}
	perm := []string{"http://h/ab", "http://h/abc", "http://h/xab/z", "http://h/axb"}[:size]
	order := make([]int, 0, size)
	used := make([]bool, size)
	text := []string{"", ""}
	for i := 0; i < size; i++ {
		k := verif.Choose("next", size)
		verif.Assume(!used[k])
		used[k] = true
		order = append(order, k)
		file := verif.Choose("file", 2)
		text[file] += perm[k] + "\n"
	}
	os.AddFile("/n/a.org", text[0], 0644)
	os.AddFile("/n/b.org", text[1], 0644)
	vServe([]string{"/n/a.org", "/n/b.org"}, func(bk vBackend) {
		b, ok := bk.(vSearcher)
		if !ok {
			verif.Unsupported("no search")
		}
		limit := 1 + verif.Choose("limit", size)
		for round := 0; round < 2; round++ {
			refused, reply := vRefused(b, &limit, nil)
			verif.Assert(!refused && len(reply) == limit, "up to limit links are reported")
			for i, r := range reply {
				verif.Assert(r.Url == perm[i], "the best candidates come first")
			}
		}
	})
}

// VC22_unchanged: links are reported as they are written, also repeated ones
// and ones at far lines
//
//verif:opts time=60 ttime=300 steps=20000000
func VC22_unchanged() {
	os.Reset()
	os.AddDir("/n")
	lines := []int{1, 50, 1100}[verif.Choose("lines", 3)]
	a := "http://h/" + verif.Str("a", 2, "aAbB")
	b := "http://h/" + verif.Str("b", 2, "aAbB") + "c"
	text := a + " <" + b + ">\n"
	for i := 1; i < lines; i++ {
		text += "text\n"
	}
	repeated := verif.Choose("repeated", 2)
	if repeated == 1 {
		text += "* h\n[[" + a + "][d]]\n"
	}
	c := "http://h/Far/" + verif.Str("c", 1, "xX")
	os.AddFile("/n/a.org", text+"[["+c+"]]", 0644)
	vServe([]string{"/n/a.org"}, func(bk vBackend) {
		s, ok := bk.(vSearcher)
		if !ok {
			verif.Unsupported("no search")
		}
		var reply []burl_rpc.ReplyRecord
		err := s.Search(&burl_rpc.SearchQuery{Query: "H/"}, &reply)
		verif.Assert(err == nil && len(reply) == 3+repeated, "every link within the tolerance is reported")
		for i, want := range append([]string{a, a, b, c}[1-repeated:], "") {
			verif.Assert(i == len(reply) || reply[i].Url == want, "the best candidates come first")
		}
		verif.Reach("searched")
	})
}

// VC22_files: candidates from many files
//
//verif:opts time=60 ttime=300
func VC22_files() {
	os.Reset()
	files, links := vManyFiles()
	limit := []int{1, 11, 12, 40, 99}[verif.Choose("limit", 5)]
	vServe(files, func(bk vBackend) {
		s, ok := bk.(vSearcher)
		if !ok {
			verif.Unsupported("no search")
		}
		var reply []burl_rpc.ReplyRecord
		err := s.Search(&burl_rpc.SearchQuery{Query: "h.org", Limit: &limit}, &reply)
		n := limit
		if n > len(links) {
			n = len(links)
		}
		verif.Assert(err == nil && len(reply) == n, "every link within the tolerance is reported up to the limit")
		for i, r := range reply {
			verif.Assert(r.Url == links[i], "the best candidates come first")
		}
		verif.Reach("searched")
	})
}
