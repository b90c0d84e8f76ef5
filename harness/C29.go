//verif:pkg cmd/burl_tool

package main

import (
	"os"

	"github.com/maxnikulin/burl/internal/verif"
)

// vTrim drops the redundant tail of an URL.
func vTrim(u string) string {
	drop := func(c byte, many bool) {
		for len(u) > 0 && u[len(u)-1] == c {
			u = u[:len(u)-1]
			if !many {
				return
			}
		}
	}
	drop('#', false)
	drop('&', true)
	drop('?', false)
	drop('/', true)
	return u
}

func vPrefixed(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

func vSwitch(u string) string {
	if vPrefixed(u, "http:") {
		return "https:" + u[5:]
	}
	if vPrefixed(u, "https:") {
		return "http:" + u[6:]
	}
	return u
}

// vEquivalent: the link is the query or the query with the other scheme
// up to dropped characters of the redundant tail
func vEquivalent(query, link string) bool {
	for _, q := range []string{query, vSwitch(query)} {
		if len(link) >= len(vTrim(q)) && vPrefixed(q, link) {
			return true
		}
	}
	return false
}

func vUrl(label string) string {
	return []string{"http:", "https:"}[verif.Choose("scheme", 2)] + "//h.org/" + verif.Str(label, 1, "ab")
}

// VC29_lookup: links and queries with different schemes, paths and tails
//
//verif:opts time=60 ttime=600
func VC29_lookup() {
	os.Reset()
	os.AddDir("/n")
	var links []vLinkLine
	text := "* h\n"
	add := func(file, line int) {
		u := vUrl("url") + verif.Str("tail", 1, "/c?")
		links = append(links, vLinkLine{u, line})
		text += []string{"[[" + u + "]]", "see " + u + " x"}[file] + "\n"
	}
	add(0, 2)
	text += "** g\n"
	if verif.Tier() > 0 {
		add(0, 4)
	}
	os.AddFile("/n/a.org", text, 0644)
	text = ""
	add(1, 1)
	os.AddFile("/n/b.txt", text, 0644)
	// a question mark ends no link in a text
	if l := len(links) - 1; links[l].url[len(links[l].url)-1] == '?' {
		links[l].url = links[l].url[:len(links[l].url)-1]
	}
	query := vUrl("query") + []string{"", "/", "?", "/#", "?&"}[verif.Choose("tail", 5)]
	args := []string{query, "/n/a.org", "/n/b.txt"}
	if verif.Choose("flags", 2) == 1 {
		args = []string{"-org", "/n/a.org", "-txt", "/n/b.txt", query}
	}
	out, code := vTool(args...)
	verif.Assert(code == 0, "a lookup succeeds")
	verif.Observe("out", out)
	var want []vLinkLine
	for _, l := range links {
		if vEquivalent(query, l.url) {
			want = append(want, l)
		}
	}
	if len(want) == 0 && out == "" {
		verif.Reach("nothing")
		return
	}
	v := vParse([]byte(out))
	if v == nil {
		verif.Assert(false, "the output is JSON")
		return
	}
	if v.kind != 'o' {
		verif.Assert(v.kind == 'z' && len(want) == 0, "the output is a tree")
		return
	}
	got := v.vListed()
	verif.Assert(v.number("total") == len(want), "the total is the number of equivalent links")
	verif.Assert(v.number("filtered") == len(got), "the filtered number is that of the listed links")
	verif.Assert(len(got) == len(want), "exactly the equivalent links are listed")
	for i := range got {
		if i < len(want) {
			verif.Reach("listed")
			verif.Assert(got[i] == want[i], "equivalent links are listed with their lines")
		}
	}
}

// VC29_limit: more links than are listed
//
//verif:opts time=60 ttime=600
func VC29_limit() {
	os.Reset()
	os.AddDir("/n")
	text, total := "", 0
	for h := 0; h < 3; h++ {
		text += "* h\n"
		for k := []int{0, 1, 4, 7}[verif.Choose("links", 4)]; k > 0; k-- {
			total++
			text += "** g\nhttp://h.org/a\n"
		}
	}
	os.AddFile("/n/a.org", text+"http://h.org/b\n", 0644)
	out, code := vTool("https://h.org/a", "/n/a.org")
	verif.Assert(code == 0, "a lookup succeeds")
	if total == 0 && out == "" {
		return
	}
	v := vParse([]byte(out))
	if v == nil {
		verif.Assert(false, "the output is JSON")
		return
	}
	if v.kind != 'o' {
		verif.Assert(v.kind == 'z' && total == 0, "the output is a tree")
		return
	}
	got := v.vListed()
	verif.Assert(v.number("total") == total, "the total is the number of equivalent links")
	verif.Assert(v.number("filtered") == len(got), "the filtered number is that of the listed links")
	verif.Assert(len(got) <= 8, "at most 8 links are listed")
	verif.Assert(total > 8 || len(got) == total, "all links are listed if there are few")
	verif.Assert(total == 0 || len(got) > 0, "something is listed")
}

// VC29_set: links with given prefixes
//
//verif:opts time=60 ttime=600
func VC29_set() {
	os.Reset()
	os.AddDir("/n")
	n := 3
	if verif.Tier() > 0 {
		n = 4
	}
	var links []string
	text := []string{"* h\n", ""}
	for i := 0; i < n; i++ {
		u := "mid:" + verif.Str("url", 1, "ab") + verif.Str("url", 1, "cd")
		links = append(links, u)
		text[i%2] += []string{"[[" + u + "]]", "see " + u + " x"}[i%2] + "\n"
	}
	os.AddFile("/n/a.org", text[0], 0644)
	os.AddFile("/n/b.txt", text[1], 0644)
	prefixes := []string{"mid:" + verif.Str("prefix", 1, "abx")}
	if verif.Choose("two", 2) == 1 {
		prefixes = append(prefixes, "mid:b"+verif.Str("prefix", 1, "cx"))
	}
	args := []string{}
	for _, p := range prefixes {
		args = append(args, "-set", p)
	}
	out, code := vTool(append(args, "/n/a.org", "/n/b.txt")...)
	verif.Assert(code == 0, "a lookup succeeds")
	got := vLines(out)
	for i, g := range got {
		for k := 0; k < i; k++ {
			verif.Assert(got[k] != g, "every link is printed once")
		}
		found := false
		for _, l := range links {
			found = found || l == g
		}
		verif.Assert(found, "only links of the files are printed")
	}
	for _, l := range links {
		want, has := false, false
		for _, p := range prefixes {
			want = want || vPrefixed(l, p)
		}
		for _, g := range got {
			has = has || g == l
		}
		verif.Assert(want == has, "exactly the links with a prefix are printed")
	}
}

// VC29_unreadable: files that can not be read
//
//verif:opts time=60 ttime=600
func VC29_unreadable() {
	os.Reset()
	os.AddDir("/n")
	os.AddFile("/n/a.org", "[[mid:a]]\n", 0644)
	os.AddFile("/n/b.txt", "mid:a\n", 0644)
	var args []string
	set := verif.Choose("set", 2) == 1
	if set {
		args = append(args, "-set", "mid")
	} else {
		args = append(args, "mid:a")
	}
	missing := false
	files := []string{"/n/a.org", "/n/b.txt", "/n/missing.org", "/n/missing"}
	for i := 1 + verif.Choose("files", 3); i > 0; i-- {
		k := verif.Choose("file", len(files))
		missing = missing || k >= 2
		args = append(args, files[k])
	}
	failed := false
	os.Fault = func(op, p string) error {
		if op == "read" && !failed && verif.Choose("fault", 2) == 1 {
			failed = true
			return os.ErrIO
		}
		return nil
	}
	_, code := vTool(args...)
	verif.Observe("code", code)
	verif.Assert((code != 0) == (missing || failed), "exactly files that can not be read are reported as a failure")
	verif.Assert((code != 0) == (len(os.Stderr.Out) > 0), "failures are reported on standard error")
}

// VC29_print: standard output can not be written
//
//verif:opts time=60 ttime=600
func VC29_print() {
	os.Reset()
	os.AddDir("/n")
	os.AddFile("/n/a.org", "* [[mid:a]]\n* [[mid:b]]\n", 0644)
	os.AddFile("/n/b.txt", "mid:a\nmid:c", 0644)
	args := []string{[]string{"mid:a", "mid:c", "mid:d"}[verif.Choose("url", 3)]}
	if verif.Choose("set", 2) == 1 {
		args = []string{"-set", args[0][:4+verif.Choose("length", 2)]}
	}
	if verif.Choose("files", 2) == 1 {
		args = append(args, "/n/a.org")
	}
	args = append(args, "/n/b.txt")
	failed := false
	os.Fault = func(op, path string) error {
		if op == "write" && path == "/dev/stdout" && verif.Choose("fault", 2) == 1 {
			failed = true
			return os.ErrIO
		}
		return nil
	}
	_, code := vTool(args...)
	verif.Observe("code", code)
	verif.Assert((code != 0) == failed, "exactly output that can not be written is reported as a failure")
	verif.Assert((code != 0) == (len(os.Stderr.Out) > 0), "failures are reported on standard error")
}

// VC29_many: many files and prefixes
//
//verif:opts time=60 ttime=300
func VC29_many() {
	os.Reset()
	os.AddDir("/n")
	n := []int{5, 12, 30}[verif.Choose("files", 3)]
	var files, links []string
	for i := 0; i < n; i++ {
		c := string(rune('a'+i/10)) + string(rune('a'+i%10))
		u := "http://h" + c + ".org/"
		f := "/n/f" + c + []string{".org", ".txt"}[i%2]
		os.AddFile(f, "* x\n"+u+"\n", 0644)
		files = append(files, f)
		links = append(links, u)
	}
	k := verif.Choose("which", n)
	if verif.Choose("set", 2) == 0 {
		out, code := vTool(append([]string{links[k]}, files...)...)
		verif.Assert(code == 0, "a lookup succeeds")
		v := vParse([]byte(out))
		if v == nil {
			verif.Assert(false, "the output is JSON")
			return
		}
		got := v.vListed()
		verif.Assert(len(got) == 1 && got[0] == vLinkLine{links[k], 2}, "the link of any file is listed")
		return
	}
	var args []string
	last := []int{n - 1, k}[verif.Choose("prefixes", 2)]
	for i := 0; i <= last; i++ {
		args = append(args, "-set", links[i][:10])
	}
	out, code := vTool(append(args, files...)...)
	verif.Assert(code == 0, "a lookup succeeds")
	got := vLines(out)
	verif.Assert(len(got) == last+1, "exactly the links with a prefix are printed")
	for _, u := range links[:last+1] {
		found := false
		for _, g := range got {
			found = found || g == u
		}
		verif.Assert(found, "exactly the links with a prefix are printed")
	}
}
