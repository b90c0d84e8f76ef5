//verif:pkg pkg/burl_links

package burl_links

import (
	"flag"
	"io"
	"strings"

	"github.com/maxnikulin/burl/internal/verif"
)

type vWant struct {
	name string
	org  bool
}

// is the source read as Org?
func vIsOrg(s TextLinkSource) bool {
	tree, err := s.Extract(strings.NewReader("[[http://a.b/c][d]]\n"), nil)
	verif.Assert(err == nil && tree != nil, "a readable source is extracted")
	descr := ""
	ForEachLink(tree, func(l *Link) bool {
		descr += l.Description
		return true
	})
	return descr == "d"
}

func vCheckSources(got []TextLinkSource, want []vWant) {
	verif.Assert(len(got) == len(want), "every source is present once")
	if len(got) != len(want) {
		return
	}
	for i, w := range want {
		verif.Assert(got[i].Name() == w.name, "names and order are kept")
		verif.Assert(got[i].Flag() == map[bool]string{true: "org", false: "txt"}[w.org], "the type is the declared one")
		c := got[i].Clone("/abs.txt")
		verif.Assert(c.Name() == "/abs.txt" && c.Flag() == got[i].Flag(), "a renamed source keeps its type")
		verif.Assert(got[i].Name() == w.name, "renaming a copy does not change the source")
	}
}

// VC28_names: plain arguments with any name
//
//verif:opts time=60 ttime=600
func VC28_names() {
	max := 6
	if verif.Tier() > 0 {
		max = 9
	}
	k := 1 + verif.Choose("files", 2)
	var args []string
	var want []vWant
	for i := 0; i < k; i++ {
		n := verif.Choose("n", max+1)
		if i > 0 {
			n = 5
		}
		s := verif.Str("name", n, ".orgRtx/")
		args = append(args, s)
		want = append(want, vWant{s, n >= 4 && s[n-4:] == ".org"})
	}
	got := AddSourceArgs(nil, args)
	vCheckSources(got, want)
}

// VC28_options: options and plain arguments, in the given flag set
//
//verif:opts time=60 ttime=600
func VC28_options() {
	max := 4
	if verif.Tier() > 0 {
		max = 5
	}
	flag.CommandLine = flag.NewFlagSet("global", flag.ContinueOnError)
	fs := flag.CommandLine
	if verif.Choose("flagset", 2) == 1 {
		fs = flag.NewFlagSet("own", flag.ContinueOnError)
	}
	fs.SetOutput(io.Discard)
	fs.Usage = func() {}
	list := MixedSrcTypeSlice{}
	MixedSrcNames = nil
	common := verif.Choose("common list", 2) == 1
	if common {
		AddSourceFlags(nil, fs)
	} else {
		AddSourceFlags(&list, fs)
	}
	n := verif.Choose("options", max)
	var args []string
	var want []vWant
	for i := 0; i < n; i++ {
		s := verif.Str("name", 4+verif.Choose("longer", 2), "a.orgtx=")
		org := verif.Choose("org", 2) == 1
		o := map[bool]string{true: "org", false: "txt"}[org]
		switch verif.Choose("form", 3) {
		case 0:
			args = append(args, "-"+o+"="+s)
		case 1:
			args = append(args, "--"+o+"="+s)
		case 2:
			args = append(args, "-"+o, s)
		}
		want = append(want, vWant{s, org})
	}
	m := verif.Choose("plain", 2)
	for i := 0; i < m; i++ {
		s := []string{"x.org", "y.txt"}[verif.Choose("plainname", 2)]
		args = append(args, s)
		want = append(want, vWant{s, s == "x.org"})
	}
	err := fs.Parse(args)
	verif.Assert(err == nil, "the options are available in the flag set they were added to")
	if err != nil {
		return
	}
	if common {
		verif.Assert(len(list) == 0, "a list that was not given is not changed")
		list = MixedSrcNames
	}
	list = AddSourceArgs(list, fs.Args())
	vCheckSources(list, want)
}

// VC28_reading: a source is read as its type
//
//verif:opts time=60 ttime=600
func VC28_reading() {
	fs := flag.NewFlagSet("own", flag.ContinueOnError)
	fs.SetOutput(io.Discard)
	fs.Usage = func() {}
	list := MixedSrcTypeSlice{}
	flag.CommandLine = fs
	AddSourceFlags(&list, nil)
	s := []string{"x", "x.org", "x.txt", "-"}[verif.Choose("name", 4)]
	org := verif.Choose("org", 2) == 1
	o := map[bool]string{true: "--org=", false: "--txt="}[org]
	verif.Assert(fs.Parse([]string{o + s}) == nil, "the options are available in the default flag set")
	if len(list) != 1 {
		verif.Assert(false, "every source is present once")
		return
	}
	src := list[0]
	verif.Assert(vIsOrg(src) == org, "a source is read as its type")
	if verif.Choose("renamed", 2) == 1 {
		verif.Assert(vIsOrg(src.Clone("/y.org")) == org, "a renamed source is read as its type")
	}
	p := AddSourceArgs(nil, []string{s})
	verif.Assert(vIsOrg(p[0]) == (s == "x.org"), "a plain argument is read according to its name")
}

// VC28_many: many sources
//
//verif:opts time=60 ttime=300
func VC28_many() {
	fs := flag.NewFlagSet("own", flag.ContinueOnError)
	list := MixedSrcTypeSlice{}
	AddSourceFlags(&list, fs)
	n := []int{5, 12, 40}[verif.Choose("sources", 3)]
	plain := []int{0, n / 2, n}[verif.Choose("plain", 3)]
	at := []int{0, n / 3, n - 1}[verif.Choose("at", 3)]
	var args []string
	var want []vWant
	for i := 0; i < n; i++ {
		c := []string{".", "o", "."}[i%3]
		if i == at {
			c = verif.Str("name", 1, ".o")
		}
		s := string(rune('A'+i)) + c + []string{"org", "", "txt"}[i%3]
		org := i%2 == 0
		if i >= n-plain {
			org = s[1:] == ".org"
			args = append(args, s)
		} else {
			args = append(args, map[bool]string{true: "--org=", false: "--txt="}[org]+s)
		}
		want = append(want, vWant{s, org})
	}
	verif.Assert(fs.Parse(args) == nil, "the options are available in the flag set they were added to")
	vCheckSources(AddSourceArgs(list, fs.Args()), want)
}
