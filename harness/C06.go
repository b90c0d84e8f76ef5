//verif:pkg cmd/burl_backend

package main

import (
	"os/exec"
	"strings"

	"github.com/maxnikulin/burl/internal/verif"
	"github.com/maxnikulin/burl/pkg/burl_emacs"
	"github.com/maxnikulin/burl/pkg/burl_rpc"
)

func vCapture(q *burl_rpc.CaptureQuery) {
	var results []exec.Result
	var runs *vRuns
	runs = vRecord(func(n int, args []string) exec.Result {
		r := exec.Result{Code: []int{0, 1, 9, -1}[verif.Choose("code", 4)]}
		if r.Code >= 0 {
			r.Out = []byte([]string{"org-protocol\n", "nil\n", "", "Xorg-protocol\n", "org-protoco"}[verif.Choose("out", 5)])
		}
		results = append(results, r)
		return r
	})
	served, _ := vServe(nil, func(b vBackend) {
		reply := burl_rpc.CaptureResponse{}
		err := b.Capture(q, &reply)
		verif.Observe("ok", err == nil)
		verif.Observe("runs", len(runs.cmds))
		success := err == nil && reply.Status == "success" && !reply.Preview
		if q.Format != "org-protocol" {
			verif.Reach("format")
			verif.Assert(err != nil && len(runs.cmds) == 0, "another format is refused and nothing is run")
			return
		}
		if q.Error != nil {
			verif.Reach("preview")
			verif.Assert(len(runs.cmds) == 0, "a capture with an error runs nothing")
			verif.Assert(err == nil && reply.Preview && reply.Status == "preview", "a capture with an error is answered as a preview")
			return
		}
		url := q.Data.Url
		if !strings.HasPrefix(url, "org-protocol:") {
			verif.Reach("scheme")
			verif.Assert(err != nil && len(runs.cmds) == 0, "another scheme is refused and nothing is run")
			return
		}
		verif.Assert(len(runs.cmds) > 0 && vHasSuffix(runs.cmds[0], []string{"--eval", burl_emacs.CheckOrgProtocolLisp}), "first it is checked that org-protocol is loaded")
		loaded := results[0].Code == 0 && strings.HasPrefix(string(results[0].Out), "org-protocol")
		want := 1
		if loaded {
			want = 2
			verif.Assert(len(runs.cmds) >= 2 && vHasSuffix(runs.cmds[1], []string{"--eval", burl_emacs.EnsureFrameLisp}), "then a frame is ensured")
			if results[1].Code == 0 {
				want = 3
			}
		}
		verif.Assert(len(runs.cmds) == want, "nothing is run after a failure, and nothing else is run")
		all := want == 3
		if all {
			last := runs.cmds[2]
			n := 1 + len(burl_emacs.UserArgs) + len(burl_emacs.Args)
			verif.Assert(len(last) == n+1 && last[n] == url, "the URL is the last argument, unchanged")
			all = results[2].Code == 0
		}
		if all {
			verif.Reach("captured")
			verif.Assert(success, "success is reported")
		} else {
			verif.Reach("failed")
			verif.Assert(err != nil && !success, "failures of Emacs are reported")
		}
	})
	verif.Assert(served, "the backend starts")
}

// VC06_capture: scheme and format of the request, failures of Emacs
//
//verif:opts time=80 ttime=600
func VC06_capture() {
	q := &burl_rpc.CaptureQuery{}
	q.Format = verif.Str("f0", 1, "oO ") + "rg-protoco" + verif.Str("f1", verif.Choose("nf", 3), "l")
	q.Error = []interface{}{nil, "failed", false, map[string]interface{}{}}[verif.Choose("error", 4)]
	if verif.Choose("similar", 2) == 1 {
		q.Data.Url = verif.Str("u0", 1, "oO ") + "rg-protoco" + verif.Str("u1", verif.Choose("nu", 3), "l:/") + verif.Str("rest", verif.Choose("nrest", 3), ":/&? '\"$-")
	} else {
		n := 4
		if verif.Tier() > 0 {
			n = 6
		}
		q.Data.Url = verif.Str("url", verif.Choose("nurl", n), "org-:p")
	}
	vCapture(q)
}

// VC06_prefix: the scheme has to be at the beginning
//
//verif:opts time=60 ttime=600
func VC06_prefix() {
	q := &burl_rpc.CaptureQuery{Format: "org-protocol"}
	base := "org-protocol:/capture?u=x"
	k := verif.Int("changed", 0, len(base))
	c := verif.Byte("by")
	b := []byte(base)
	for i := range b {
		if i == k {
			b[i] = c
		}
	}
	q.Data.Url = string(b)
	if verif.Choose("shifted", 2) == 1 {
		q.Data.Url = verif.Str("first", 1, " -o(+") + base
	}
	vCapture(q)
}

// VC06_long: long URLs with any characters, user arguments
//
//verif:opts time=60 ttime=300 steps=30000000
func VC06_long() {
	defer vRestoreDefaults(vSaveDefaults())
	n := []int{1, 250, 1000, 4090, 8200, 70000}[verif.Choose("n", 6)]
	piece := []string{"a", "%20", "é", " ", "'\"$", "\xff", "\n"}[verif.Choose("piece", 7)]
	url := "org-protocol:/" + strings.Repeat(piece, n/len(piece)) + verif.Str("end", 1, "a /?#&\n")
	q := &burl_rpc.CaptureQuery{Format: "org-protocol"}
	q.Data.Url = url
	var args []string
	for i := verif.Choose("args", 3); i > 0; i-- {
		args = append(args, "--emacsarg=-"+string(rune('a'+i)))
	}
	runs := vRecord(func(k int, args []string) exec.Result { return exec.Result{Out: []byte("org-protocol\n")} })
	served, _ := vServe(args, func(b vBackend) {
		reply := burl_rpc.CaptureResponse{}
		err := b.Capture(q, &reply)
		verif.Assert(err == nil && reply.Status == "success" && len(runs.cmds) > 0, "an org-protocol URL is captured")
		last := runs.cmds[len(runs.cmds)-1]
		verif.Assert(last[len(last)-1] == url, "the URL is the last argument, unchanged")
		verif.Reach("captured")
	})
	verif.Assert(served, "the backend starts")
}
