//verif:pkg cmd/burl_backend

package main

import (
	"encoding/json"
	"os"
	"sync"

	"github.com/maxnikulin/burl/internal/verif"
	"github.com/maxnikulin/burl/pkg/burl_links"
	"github.com/maxnikulin/burl/pkg/burl_rpc"
)

type vQuery struct {
	urls  []string
	limit int // negative: default
}

func vQueryOf(label string) *vQuery {
	q := &vQuery{[]string{"https://h.org/" + verif.Str(label, 1, "abc")}, verif.Choose("limit", 4) - 1}
	return q
}

func (q *vQuery) reply(b vBackend) string {
	r := burl_links.LimitCountNode{}
	m := &burl_rpc.UrlMentionsQuery{Variants: q.urls}
	if q.limit >= 0 {
		m.Options = &burl_rpc.UrlMentionsOptions{CountLimit: q.limit}
	}
	if err := b.UrlMentions(m, &r); err != nil {
		return "error: " + err.Error()
	}
	text, err := json.Marshal(&r)
	verif.Assert(err == nil, "a reply can be encoded")
	return string(text)
}

var vNotes = []string{
	"https://h.org/a\n* h1\n[[https://h.org/b][d]] <https://h.org/a>\n** h2\nhttps://h.org/a\n* h3\nhttps://h.org/c\n",
	"word https://h.org/a\nhttps://h.org/b\n",
}

func vNotesFiles() []string {
	os.Reset()
	os.AddDir("/n")
	os.AddFile("/n/a.org", vNotes[0], 0644)
	os.AddFile("/n/b.txt", vNotes[1], 0644)
	return []string{"/n/a.org", "/n/b.txt"}
}

func vOpenedOnce() {
	for _, p := range []string{"/n/a.org", "/n/b.txt"} {
		n := 0
		for _, o := range os.Opened {
			if o == p {
				n++
			}
		}
		verif.Assert(n == 1, "notes are loaded once")
	}
}

func vAlone(q *vQuery) (r string) {
	vServe(vNotesFiles(), func(b vBackend) { r = q.reply(b) })
	return
}

// VC11_backend: sequences of lookups
//
//verif:opts time=100 ttime=700
func VC11_backend() {
	p, q := vQueryOf("url"), vQueryOf("url")
	alone := vAlone(p)
	verif.Assert(len(alone) > 0 && alone[0] == '{', "a lookup succeeds")
	served, _ := vServe(vNotesFiles(), func(b vBackend) {
		q.reply(b)
		verif.Assert(p.reply(b) == alone, "a lookup does not depend on an earlier one")
		if verif.Tier() > 0 {
			vQueryOf("url").reply(b)
		}
		q.reply(b)
		verif.Assert(p.reply(b) == alone, "a lookup can be repeated")
		vOpenedOnce()
	})
	verif.Assert(served, "the backend starts")
	verif.Observe("reply", alone)
}

// VC11_first: first requests arriving at the same time
//
//verif:opts time=100 ttime=700 preempt=2 tpreempt=3
func VC11_first() {
	p := &vQuery{[]string{"https://h.org/" + verif.Str("url", 1, "ac")}, -1}
	q := &vQuery{[]string{"https://h.org/b"}, 1}
	wantP, wantQ := vAlone(p), vAlone(q)
	served, _ := vServe(vNotesFiles(), func(b vBackend) {
		var mu sync.Mutex
		n := 0
		run := func(q *vQuery, want string) func() {
			return func() {
				r := q.reply(b)
				verif.Assert(r == want, "a concurrent request sees the completely loaded notes")
				mu.Lock()
				n++
				mu.Unlock()
			}
		}
		fs := []func(){run(p, wantP), run(q, wantQ)}
		if verif.Tier() > 0 {
			fs = append(fs, run(q, wantQ))
		}
		verif.Parallel(fs...)
		verif.Assert(n == len(fs), "every request is answered")
		vOpenedOnce()
		verif.Assert(p.reply(b) == wantP, "a later lookup gives the same reply")
	})
	verif.Assert(served, "the backend starts")
}

// VC11_failed: first requests arriving at the same time if the notes can not be read
//
//verif:opts time=100 ttime=700 preempt=2 tpreempt=3
func VC11_failed() {
	q := &vQuery{[]string{"https://h.org/" + verif.Str("url", 1, "ab")}, -1}
	args := [][]string{{"/n/a.org", "/n/missing.org"}, {"/n/missing.txt", "/n/a.org"}, {}}[verif.Choose("args", 3)]
	vNotesFiles()
	served, _ := vServe(args, func(b vBackend) {
		run := func() {
			r := q.reply(b)
			verif.Assert(len(r) > 0 && r[0] == 'e', "every request fails if the notes can not be loaded completely")
		}
		verif.Parallel(run, run)
		run()
	})
	verif.Assert(served, "the backend starts")
}
