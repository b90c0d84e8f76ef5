//verif:pkg pkg/burl_util

package burl_util

import (
	"flag"
	"io"

	"github.com/maxnikulin/burl/internal/verif"
)

func vSame(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func vCopy(a []string) []string { return append([]string{}, a...) }

// defaults with or without spare capacity behind them
func vDefaults() []string {
	n := verif.Choose("defaults", 3)
	spare := verif.Choose("spare", 2) * 3
	d := make([]string, 0, n+spare)
	for i := 0; i < n; i++ {
		d = append(d, verif.Str("default", 1, "dea"))
	}
	return d
}

// VC27_history: any sequence of settings, then the reported modifications are
// given to a fresh option having the same defaults
//
//verif:opts time=60 ttime=600
func VC27_history() {
	max := 4
	if verif.Tier() > 0 {
		max = 6
	}
	slice := vDefaults()
	defaults := vCopy(slice)
	f := NewMultiStringFlag(&slice)
	verif.Assert(!f.IsModified() && len(f.ModifiedValues()) == 0, "an unused option reports no modification")
	want := vCopy(defaults)
	appended, reset, used := false, false, false
	n := verif.Choose("settings", max+1)
	for i := 0; i < n; i++ {
		v := ""
		if verif.Choose("value", 2) == 1 {
			v = verif.Str("v", 1+verif.Choose("len", 2), "ab-=")
		}
		before := vCopy(f.Values())
		mods := vCopy(f.ModifiedValues())
		err := f.Set(v)
		if v == "" && appended && !reset {
			verif.Reach("refused")
			verif.Assert(err != nil, "an empty value after appending to the defaults is refused")
			verif.Assert(vSame(f.Values(), before) && vSame(slice, before), "a refused value changes nothing")
			verif.Assert(vSame(f.ModifiedValues(), mods), "a refused value changes no modification")
			continue
		}
		verif.Assert(err == nil, "other settings are accepted")
		used = true
		if v == "" {
			reset = true
			want = nil
		} else {
			appended = true
			want = append(want, v)
		}
		verif.Assert(vSame(f.Values(), want), "values are appended, an empty one drops all")
		verif.Assert(vSame(slice, want), "the target of the option has the values")
	}
	verif.Assert(f.IsModified() == used, "the option knows whether it was used")
	mods := vCopy(f.ModifiedValues())
	verif.Observe("mods", len(mods))
	verif.Assert(used || len(mods) == 0, "an unused option reports no modification")
	fresh := vCopy(defaults)
	g := NewMultiStringFlag(&fresh)
	for _, m := range mods {
		verif.Assert(g.Set(m) == nil, "reported modifications are accepted by a fresh option")
	}
	verif.Assert(vSame(g.Values(), want) && vSame(fresh, want), "reported modifications give the same values")
	verif.Assert(vSame(f.Values(), want), "reading the modifications changes nothing")
	verif.Assert(g.IsModified() == used, "the fresh option is used if the first one was")
}

// VC27_flagset: the same through command line parsing, two options side by side
//
//verif:opts time=60 ttime=600
func VC27_flagset() {
	max := 3
	if verif.Tier() > 0 {
		max = 4
	}
	a, b := vDefaults(), []string{"x"}
	wa, wb := vCopy(a), vCopy(b)
	fs := flag.NewFlagSet("t", flag.ContinueOnError)
	fs.SetOutput(io.Discard)
	fs.Usage = func() {}
	fa, fb := NewMultiStringFlag(&a), NewMultiStringFlag(&b)
	fs.Var(fa, "a", "usage")
	fs.Var(fb, "b", "usage")
	n := verif.Choose("args", max+1)
	var args []string
	ra, rb := 0, 0 // 0 unused, 1 appended, 2 reset
	failed := false
	set := func(state *int, want *[]string, v string) {
		if failed {
			return
		}
		if v == "" {
			if *state == 1 {
				failed = true
				return
			}
			*state = 2
			*want = nil
			return
		}
		if *state == 0 {
			*state = 1
		}
		*want = append(*want, v)
	}
	for i := 0; i < n; i++ {
		v := ""
		if verif.Choose("value", 2) == 1 {
			v = verif.Str("v", 2, "p-=")
		}
		switch verif.Choose("form", 4) {
		case 0:
			args = append(args, "-a="+v)
			set(&ra, &wa, v)
		case 1:
			args = append(args, "--b="+v)
			set(&rb, &wb, v)
		case 2:
			args = append(args, "--a", v)
			set(&ra, &wa, v)
		case 3:
			args = append(args, "-b", v)
			set(&rb, &wb, v)
		}
	}
	err := fs.Parse(args)
	verif.Assert((err != nil) == failed, "parsing fails exactly if a value is refused")
	verif.Assert(vSame(a, wa) && vSame(fa.Values(), wa), "values of the first option")
	verif.Assert(vSame(b, wb) && vSame(fb.Values(), wb), "values of the second option")
	if failed {
		verif.Reach("failed")
	}
}

// VC27_many: many settings, defaults and values set before and after a reset
//
//verif:opts time=60 ttime=300
func VC27_many() {
	counts := []int{0, 3, 9, 40}
	var slice []string
	for i := counts[verif.Choose("defaults", 4)]; i > 0; i-- {
		slice = append(slice, "d"+string(rune('A'+i)))
	}
	defaults := vCopy(slice)
	want := vCopy(slice)
	f := NewMultiStringFlag(&slice)
	set := func(v string) { verif.Assert(f.Set(v) == nil, "a setting is accepted") }
	add := func(n int) {
		for i := 0; i < n; i++ {
			v := verif.Str("v", 1, "a-=") + string(rune('A'+i))
			set(v)
			want = append(want, v)
		}
	}
	for i := verif.Choose("resets", 4); i > 0; i-- {
		set("")
		want = nil
		if i == 1 && verif.Choose("again", 2) == 1 {
			add(counts[verif.Choose("dropped", 4)])
			set("")
			want = nil
		}
	}
	n := counts[verif.Choose("values", 4)]
	add(n)
	verif.Assert(vSame(f.Values(), want) && vSame(slice, want), "values are appended, an empty one drops all")
	fresh := vCopy(defaults)
	g := NewMultiStringFlag(&fresh)
	for _, m := range vCopy(f.ModifiedValues()) {
		verif.Assert(g.Set(m) == nil, "reported modifications are accepted by a fresh option")
	}
	verif.Assert(vSame(g.Values(), want) && vSame(fresh, want), "reported modifications give the same values")
}
