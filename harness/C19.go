//verif:pkg cmd/burl_backend

package main

import (
	"errors"
	"io"
	"os"
	"strings"

	"github.com/maxnikulin/burl/internal/verif"
	"github.com/maxnikulin/burl/pkg/burl_links"
	"github.com/maxnikulin/burl/pkg/burl_rpc"
)

// vFaulty is standard input that fails at some point.
type vFaulty struct {
	data []byte
	fail func() bool
}

func (r *vFaulty) Read(b []byte) (int, error) {
	if r.fail() {
		return 0, errors.New("fault")
	}
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	n := copy(b, r.data)
	if n > 16 {
		n = 16
	}
	r.data = r.data[n:]
	return n, nil
}

type vRequest struct{ set bool }

func (q vRequest) send(b vBackend) (links int, err error) {
	if q.set {
		r := burl_rpc.LinkSetResponse{}
		err = b.LinkSet(&burl_rpc.LinkSetQuery{Prefix: []string{"https"}}, &r)
		return len(r.Urls), err
	}
	r := burl_links.LimitCountNode{}
	err = b.UrlMentions(&burl_rpc.UrlMentionsQuery{Variants: []string{"https://h.xy/a"}}, &r)
	if r.Attrs != nil {
		links = r.Attrs.Count
	}
	return links, err
}

// VC19_faults: opening or reading fails at any point
//
//verif:opts time=60 ttime=800
func VC19_faults() {
	os.Reset()
	os.AddDir("/n")
	orgText := "* head\nhttps://h.xy/a some words\n** another\n[[https://h.xy/a][d]]\n"
	txtText := "https://h.xy/a x\nmore text to read\n"
	names := []string{"/n/a.org", "/n/b.txt", "-"}
	os.AddFile(names[0], orgText, 0644)
	os.AddFile(names[1], txtText, 0644)
	os.ReadChunk = func(path string, n int) int {
		if n > 16 {
			return 16
		}
		return n
	}
	var args []string
	stdin := false
	switch verif.Choose("files", 5) {
	case 0:
		args = names[:1]
	case 1:
		args = names[:2]
	case 2:
		args = []string{names[1], names[0]}
	case 3:
		args = []string{names[2], names[0]}
		stdin = true
	case 4:
		args = []string{names[1], names[2]}
		stdin = true
	}
	missing := verif.Choose("missing", 3)
	if missing > 0 && verif.Choose("kind", 2) == 1 {
		os.Find(names[missing-1]).Dir = true // cannot be read
	} else if missing > 0 {
		args = append([]string{}, args...)
		for i, a := range args {
			if a == names[missing-1] {
				args[i] = "/n/none.org"
			}
		}
	}
	at := verif.Int("fault", 0, 40)
	ops, failed := 0, false
	hit := func() bool {
		ops++
		if ops == at {
			failed = true
			return true
		}
		return false
	}
	os.Fault = func(op, path string) error {
		if op != "close" && hit() {
			return errors.New("fault")
		}
		return nil
	}
	os.Stdin.In = &vFaulty{[]byte("https://h.xy/a\n"), hit}
	bad := false
	for _, a := range args {
		if a == "/n/none.org" || missing > 0 && a == names[missing-1] {
			bad = true
		}
	}
	first := vRequest{verif.Choose("set", 2) == 1}
	served, _ := vServe(args, func(b vBackend) {
		verif.Assert(ops == 0, "notes are not needed to start")
		n, err := first.send(b)
		verif.Assert(os.OpenNow == 0, "every opened file is closed")
		if bad || failed {
			verif.Reach("failed")
			verif.Assert(err != nil, "a file that cannot be read is reported")
		} else {
			verif.Reach("succeeded")
			verif.Assert(err == nil && n > 0, "readable notes are reported")
		}
		if err == nil && stdin {
			return // standard input is read once
		}
		was := failed
		second := vRequest{verif.Choose("set", 2) == 1}
		n, err = second.send(b)
		verif.Assert(os.OpenNow == 0, "every opened file is closed after later requests")
		if bad || failed && !was || was && !first.set && !second.set {
			verif.Assert(err != nil, "a file that cannot be read is reported to later requests")
		}
		if !first.set && second.set && was && !stdin && !bad {
			verif.Assert(err == nil, "a request that reads the files again is not affected by an earlier failure")
		}
		if stdin {
			var one [1]byte
			_, e := os.Stdin.Read(one[:])
			verif.Assert(!errors.Is(e, os.ErrClosed), "standard input stays open")
		}
	})
	verif.Assert(served, "the backend starts")
}

// VC19_empty: no files, or no links
//
//verif:opts time=60 ttime=800
func VC19_empty() {
	n := 2
	if verif.Tier() > 0 {
		n = 4
	}
	os.Reset()
	os.AddDir("/n")
	var args []string
	files := verif.Choose("files", 3)
	links := 0
	for i := 0; i < files; i++ {
		name := []string{"/n/a.org", "/n/b.txt"}[i]
		text := verif.Str("text", n, "* a\n")
		if verif.Choose("linked", 2) == 1 {
			text += " https://h.xy/b\n"
			links++
		}
		os.AddFile(name, text, 0644)
		args = append(args, name)
	}
	served, _ := vServe(args, func(b vBackend) {
		for k := 0; k < 2; k++ {
			r := burl_links.LimitCountNode{}
			err := b.UrlMentions(&burl_rpc.UrlMentionsQuery{Variants: []string{"https://h.xy/a"}}, &r)
			if links == 0 {
				verif.Reach("nothing")
				verif.Assert(err != nil, "no files and no links are reported as an error")
			} else {
				verif.Assert(err == nil, "notes with links are looked up")
				verif.Assert(r.Attrs != nil && r.Attrs.Count == 0, "no link matches")
			}
		}
		verif.Assert(os.OpenNow == 0, "every opened file is closed")
	})
	verif.Assert(served, "the backend starts")
}

// VC19_long: lines too long to be read
//
//verif:opts time=100 ttime=800 steps=30000000
func VC19_long() {
	os.Reset()
	os.AddDir("/n")
	text := make([]byte, 0, 70000)
	text = append(text, "https://h.xy/a\n"...)
	for len(text) < 65600 {
		text = append(text, "0123456789abcdef"...)
	}
	text = append(text, "\nhttps://h.xy/b\n"...)
	name := []string{"/n/a.org", "/n/b.txt"}[verif.Choose("kind", 2)]
	os.AddFile(name, string(text), 0644)
	first := vRequest{verif.Choose("set", 2) == 1}
	served, _ := vServe([]string{name}, func(b vBackend) {
		n, err := first.send(b)
		verif.Assert(err != nil || n >= 1, "a result is not empty")
		verif.Assert(err != nil || !first.set || n == 2, "notes behind a long line are not ignored silently")
		if err == nil && !first.set {
			r := burl_links.LimitCountNode{}
			err = b.UrlMentions(&burl_rpc.UrlMentionsQuery{Variants: []string{"https://h.xy/a", "https://h.xy/b"}}, &r)
			verif.Assert(err == nil && r.Attrs.Count == 2, "notes behind a long line are not ignored silently")
		}
		verif.Assert(os.OpenNow == 0, "every opened file is closed")
	})
	verif.Assert(served, "the backend starts")
}

// VC19_many: one of many files is missing, or is cut by a fault
//
//verif:opts time=60 ttime=600
func VC19_many() {
	os.Reset()
	files, links := vManyFiles()
	bad := files[verif.Choose("bad", len(files))]
	fault := true
	switch verif.Choose("kind", 4) {
	case 0:
		fault = false
	case 1:
		os.Find(bad).Dir = true
	case 2:
		os.Fault = func(op, path string) error {
			if op == "open" && path == bad {
				return errors.New("fault")
			}
			return nil
		}
	case 3:
		os.Fault = func(op, path string) error {
			if op == "read" && path == bad {
				return errors.New("fault")
			}
			return nil
		}
	}
	served, _ := vServe(files, func(b vBackend) {
		for i := 0; i < 2; i++ {
			n, err := 0, error(nil)
			if verif.Choose("set", 2) == 1 {
				n, err = vRequest{true}.send(b)
			} else {
				r := burl_links.LimitCountNode{}
				err = b.UrlMentions(&burl_rpc.UrlMentionsQuery{Variants: links}, &r)
				if r.Attrs != nil {
					n = r.Attrs.Count
				}
			}
			verif.Assert(os.OpenNow == 0, "every opened file is closed")
			if fault {
				verif.Assert(err != nil, "any file that cannot be read is reported")
			} else {
				verif.Assert(err == nil && n == len(links), "links of all files are reported")
			}
		}
	})
	verif.Assert(served, "the backend starts")
}

// VC19_big: links at the end of large files
//
//verif:opts time=100 ttime=800 steps=60000000
func VC19_big() {
	os.Reset()
	os.AddDir("/n")
	size := []int{4000, 70000, 1100000}[verif.Choose("size", 3)]
	line := 100
	if size > 4000 {
		line = 65000
	}
	filler := strings.Repeat("0123456789", line/10) + "\n"
	end := "https://h.xy/" + verif.Str("end", 1, "ac") + "\n"
	text := "https://h.xy/b\n" + strings.Repeat(filler, 1+size/len(filler)) + end
	name := []string{"/n/a.org", "/n/b.txt"}[verif.Choose("kind", 2)]
	os.AddFile(name, text, 0644)
	request := vRequest{verif.Choose("set", 2) == 1}
	served, _ := vServe([]string{name}, func(b vBackend) {
		n, err := request.send(b)
		verif.Assert(err == nil, "readable files are read")
		if request.set {
			verif.Assert(n == 2, "no note is ignored")
		} else {
			verif.Assert(n == 1 == (end[13] == 'a'), "no note is ignored")
		}
		verif.Assert(os.OpenNow == 0, "every opened file is closed")
		verif.Reach("read")
	})
	verif.Assert(served, "the backend starts")
}
