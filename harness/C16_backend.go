//verif:pkg cmd/burl_backend

package main

import (
	"os"

	"github.com/maxnikulin/burl/internal/verif"
	"github.com/maxnikulin/burl/pkg/burl_links"
	"github.com/maxnikulin/burl/pkg/burl_rpc"
)

// VC16_options: schemes added and default ones dropped by options
//
//verif:opts time=60 ttime=800
func VC16_options() {
	used := verif.Str("used", 2, "xyz")
	uses := []string{"doi:zz", "http://h/", "https://g/", "mid:zz", used + "://h/"}
	os.Reset()
	os.AddDir("/n")
	text := "* h\n"
	for i, u := range uses {
		switch verif.Choose("form", 2) {
		case 0:
			text += []string{"- ", "[[", "<"}[i%3] + u + []string{"", "][d]]", ">"}[i%3] + "\n"
		case 1:
			text += "[[file:" + u + "]]\n[[" + u + "]]\n"
		}
	}
	os.AddFile("/n/a.org", text, 0644)
	var args []string
	drop := verif.Choose("drop", 2) == 1
	if drop {
		args = append(args, "--scheme=")
	}
	var added []string
	for i := verif.Choose("added", 3); i > 0; i-- {
		s := verif.Str("scheme", 2, "xyz")
		added = append(added, s)
		args = append(args, "--scheme="+s+[]string{"", ":"}[i-1])
	}
	bad := verif.Choose("bad", 4)
	if bad > 0 {
		args = append(args, "--scheme="+[]string{"(", "a[", "*"}[bad-1])
	}
	invalid := bad > 0 || drop && len(added) == 0
	served, code := vServe(append(args, "/n/a.org"), func(b vBackend) {
		verif.Assert(!invalid, "an invalid or empty list of schemes is refused")
		if invalid {
			return
		}
		for i, u := range uses {
			want := !drop && i < 4
			for _, s := range added {
				want = want || i == 4 && s == used
			}
			r := burl_links.LimitCountNode{}
			err := b.UrlMentions(&burl_rpc.UrlMentionsQuery{Variants: []string{u}}, &r)
			if err == nil {
				verif.Reach("found")
				verif.Assert(want == (r.Attrs.Count == 1) && r.Attrs.Count < 2, "exactly links with a configured scheme are extracted")
			} else {
				verif.Assert(!want, "links with a configured scheme are extracted")
			}
		}
	})
	verif.Assert(served == !invalid, "the backend starts if the schemes are valid")
	verif.Assert(served || code != 0, "a refused option is reported")
}
