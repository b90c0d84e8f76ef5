//verif:pkg cmd/burl_backend

package main

import (
	"os"
	"os/exec"
	"sync"

	"github.com/maxnikulin/burl/internal/verif"
	"github.com/maxnikulin/burl/pkg/burl_emacs"
	"github.com/maxnikulin/burl/pkg/burl_links"
	"github.com/maxnikulin/burl/pkg/burl_rpc"
)

var _ burl_links.TextLinkSource

func vCopy(l []string) []string { return append(make([]string, 0, len(l)), l...) }

// the runs expected for one request, each list being its own arguments
type vExpect struct {
	own  [][]string
	seen []int
}

func vConcurrent(opts []string, user []string, reqs []func(b vBackend), expect []*vExpect) {
	builtin := vCopy(burl_emacs.Args)
	var mu sync.Mutex
	exec.Run = func(args []string) exec.Result {
		mu.Lock()
		defer mu.Unlock()
		head := append(append([]string{"emacsclient"}, user...), builtin...)
		ok := len(args) >= len(head) && vEqual(args[:len(head)], head)
		verif.Assert(ok, "every run starts with the configured and the built-in arguments")
		own := args[len(head):]
		found := false
		for _, e := range expect {
			for k, o := range e.own {
				if vEqual(o, own) {
					e.seen[k]++
					found = true
				}
			}
		}
		verif.Assert(found, "every run has the arguments of one request")
		return exec.Result{Out: []byte("org-protocol\n")}
	}
	args := append(vCopy(opts), "/n/a.org", "/n/b.org")
	os.AddDir("/n")
	os.AddFile("/n/a.org", "", 0644)
	os.AddFile("/n/b.org", "", 0644)
	served, _ := vServe(args, func(b vBackend) {
		verif.Assert(vEqual(burl_emacs.UserArgs, user), "the configured arguments are in force")
		var fs []func()
		for _, r := range reqs {
			fs = append(fs, func() { r(b) })
		}
		if len(fs) == 1 {
			fs[0]()
		} else {
			verif.Parallel(fs...)
		}
		for _, e := range expect {
			for k := range e.own {
				verif.Assert(e.seen[k] == 1, "each request runs with its own arguments")
			}
		}
		verif.Assert(vEqual(burl_emacs.UserArgs, user) && vEqual(burl_emacs.Args, builtin), "requests do not change the configured arguments")
	})
	verif.Assert(served, "the backend starts")
}

func vUserArgs() (opts, user []string) {
	for i := verif.Choose("emacsargs", 4); i > 0; i-- {
		a := []string{"-", "v", "--x="}[i-1] + verif.Str("arg", 1, "sabcd=- ")
		opts = append(opts, "--emacsarg="+a)
		user = append(user, a)
	}
	return
}

// VC07_visits: two visit requests at the same time
//
//verif:opts time=100 ttime=700 preempt=2 tpreempt=3
func VC07_visits() {
	opts, user := vUserArgs()
	visit := func(path string) func(vBackend) {
		return func(b vBackend) {
			ok := false
			err := b.Visit(&burl_rpc.Location{FilePath: path}, &ok)
			verif.Assert(err == nil && ok, "the request succeeds")
		}
	}
	frame := &vExpect{[][]string{{"--no-wait", "/n/a.org"}, {"--no-wait", "/n/b.org"}}, make([]int, 2)}
	ens := &vExpect{[][]string{{"--eval", burl_emacs.EnsureFrameLisp}}, []int{-1}}
	vConcurrent(opts, user, []func(vBackend){visit("/n/a.org"), visit("/n/b.org")}, []*vExpect{frame, ens})
}

// VC07_captures: two capture requests at the same time
//
//verif:opts time=100 ttime=700 preempt=2 tpreempt=3
func VC07_captures() {
	opts, user := vUserArgs()
	urls := []string{"org-protocol:/capture?url=a" + verif.Str("a", 1, "ab &"), "org-protocol:/capture?url=b" + verif.Str("b", 1, "ab &")}
	capture := func(url string) func(vBackend) {
		return func(b vBackend) {
			q := &burl_rpc.CaptureQuery{Format: "org-protocol"}
			q.Data.Url = url
			r := burl_rpc.CaptureResponse{}
			err := b.Capture(q, &r)
			verif.Assert(err == nil && r.Status == "success", "the request succeeds")
		}
	}
	own := &vExpect{[][]string{{urls[0]}, {urls[1]}}, make([]int, 2)}
	ens := &vExpect{[][]string{{"--eval", burl_emacs.EnsureFrameLisp}, {"--eval", burl_emacs.CheckOrgProtocolLisp}}, []int{-1, -1}}
	vConcurrent(opts, user, []func(vBackend){capture(urls[0]), capture(urls[1])}, []*vExpect{own, ens})
}

// VC07_many: many configured arguments
//
//verif:opts time=60 ttime=600
func VC07_many() {
	var opts, user []string
	for i := []int{5, 11, 40}[verif.Choose("emacsargs", 3)]; i > 0; i-- {
		a := verif.Str("arg", 1, "sa-") + string(rune('A'+i))
		opts = append(opts, "--emacsarg="+a)
		user = append(user, a)
	}
	own := &vExpect{[][]string{{"--no-wait", "/n/a.org"}}, make([]int, 1)}
	ens := &vExpect{[][]string{{"--eval", burl_emacs.EnsureFrameLisp}}, []int{0}}
	vConcurrent(opts, user, []func(vBackend){func(b vBackend) {
		ok := false
		err := b.Visit(&burl_rpc.Location{FilePath: "/n/a.org"}, &ok)
		verif.Assert(err == nil && ok, "the request succeeds")
	}}, []*vExpect{own, ens})
}
