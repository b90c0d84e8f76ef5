//verif:pkg cmd/burl_backend

package main

import (
	"os"

	"github.com/maxnikulin/burl/internal/verif"
	"github.com/maxnikulin/burl/pkg/version"
)

type vDest struct {
	arg  string // value of the option, "" for none
	path string // file that is written, "-" for standard output
	name string // name of the application inside
}

// vSnapshot of all files
func vSnapshot() []string {
	var out []string
	for _, e := range os.Files {
		out = append(out, e.Path+"\x00"+string(e.Node.Data)+"\x00"+string(rune(e.Node.Mode)))
	}
	return out
}

func vManifest(text []byte, d vDest, exe *os.Node, exePath string, firefox bool, ids []string) {
	v := vParse(text)
	if v == nil || v.kind != 'o' {
		verif.Assert(false, "a manifest is well-formed JSON")
		return
	}
	verif.Assert(v.text("type") == "stdio", "the type of a manifest is stdio")
	verif.Assert(v.text("name") == d.name && d.name != "", "the name in a manifest is the base name of its file")
	p := v.text("path")
	verif.Assert(len(p) > 0 && p[0] == '/', "the path of the program is absolute")
	_, n, err := os.Resolve(p)
	verif.Assert(err == nil && n == exe, "a manifest names the wrapper if there is one, otherwise the backend")
	verif.Assert(exePath == "" || p == exePath, "a manifest names the wrapper")
	verif.Assert(v.text("description") != "", "a manifest has a description")
	if firefox {
		verif.Assert(vEqual(v.texts("allowed_extensions"), ids), "a Firefox manifest lists the extensions")
		verif.Assert(v.get("allowed_origins") == nil, "a Firefox manifest has no origins")
	} else {
		verif.Assert(vEqual(v.texts("allowed_origins"), ids), "a Chrome manifest lists the origins")
		verif.Assert(v.get("allowed_extensions") == nil, "a Chrome manifest has no extensions")
	}
}

// vFailed tells whether something failed that may prevent from writing.
var vFailed = func() bool { return false }

// vFlow runs the program with the destinations and checks everything that is written.
func vFlow(args []string, wrapper, firefox, chrome vDest, custom bool, firefoxIds, chromeIds []string) {
	stdouts, any := 0, false
	for _, d := range []vDest{wrapper, firefox, chrome} {
		if d.arg != "" {
			any = true
		}
		if d.path == "-" {
			stdouts++
		}
	}
	manifest := firefox.arg != "" || chrome.arg != ""
	inconsistent := stdouts > 1 || wrapper.path == "-" && manifest ||
		any && wrapper.arg == "" && custom || wrapper.path == "/bin/burl_backend" && custom
	if wrapper.arg != "" {
		args = append([]string{"--wrapper=" + wrapper.arg}, args...)
	}
	if firefox.arg != "" {
		args = append([]string{"--manifest-firefox", firefox.arg}, args...)
	}
	if chrome.arg != "" {
		args = append([]string{"--manifest-chrome=" + chrome.arg}, args...)
	}
	before := vSnapshot()
	backend := os.Find("/bin/burl_backend")
	started, code := vInstall(args)
	verif.Observe("code", code)
	verif.Observe("started", started)
	if !any {
		verif.Reach("start")
		verif.Assert(started && code == 0, "without a destination the backend starts")
		verif.Assert(vEqual(vSnapshot(), before) && len(os.Stdout.Out) == 0, "without a destination nothing is written")
		return
	}
	verif.Assert(!started, "the backend does not start when files are generated")
	if inconsistent {
		verif.Reach("inconsistent")
		verif.Assert(code != 0, "an inconsistent request is refused")
		verif.Assert(vEqual(vSnapshot(), before) && len(os.Stdout.Out) == 0, "nothing is written for an inconsistent request")
		return
	}
	verif.Reach("consistent")
	if code != 0 && vFailed() {
		verif.Reach("failed")
		return
	}
	verif.Assert(code == 0, "a consistent request is served")
	if code != 0 {
		return
	}
	verif.Assert(os.Find("/bin/burl_backend") == backend && string(backend.Data) == "ELF", "the backend is not overwritten")
	written := 0
	get := func(d vDest) []byte {
		if d.path == "-" {
			return os.Stdout.Out
		}
		n := os.Find(d.path)
		if n == nil {
			verif.Assert(false, "a requested file is written")
			return nil
		}
		written++
		return n.Data
	}
	exe, exePath := backend, ""
	if wrapper.arg != "" {
		if wrapper.path == "/bin/burl_backend" {
			written--
		}
		w := get(wrapper)
		if wrapper.path != "/bin/burl_backend" {
			prog, _ := vWrapper(string(w))
			_, n, _ := os.Resolve(prog)
			verif.Assert(n == backend && prog[0] == '/', "the wrapper runs the backend")
			exe, exePath = os.Find(wrapper.path), wrapper.path
		}
	}
	if firefox.arg != "" {
		vManifest(get(firefox), firefox, exe, exePath, true, firefoxIds)
	}
	if chrome.arg != "" {
		vManifest(get(chrome), chrome, exe, exePath, false, chromeIds)
	}
	verif.Assert(stdouts == 1 || len(os.Stdout.Out) == 0, "the standard output gets only what was requested")
	verif.Assert(len(os.Files) == len(before)+written, "only the requested files are written")
}

var vWrappers = []vDest{{}, {arg: "-", path: "-"}, {arg: "/w/run", path: "/w/run"}, {arg: "sub/../run", path: "/cwd/run"},
	{arg: "/bin/burl_backend", path: "/bin/burl_backend"}, {arg: "../bin/burl_backend", path: "/bin/burl_backend"}}

func vFirefox(name string) []vDest {
	file := vDest{arg: "/m/x.json", path: "/m/x.json", name: "x"}
	app := version.AppName
	if name != "" {
		app = name
	}
	return []vDest{{}, {arg: "-", path: "-", name: app}, file, {arg: "/m", path: "/m/" + app + ".json", name: app}}
}

func vChrome(name string) []vDest {
	file := vDest{arg: "../c/yy.json", path: "/c/yy.json", name: "yy"}
	app := version.AppName
	if name != "" {
		app = name
	}
	return []vDest{{}, {arg: "-", path: "-", name: app}, file, {arg: "/c/", path: "/c/" + app + ".json", name: app}}
}

// VC26_destinations: all combinations of destinations and custom options
//
//verif:opts time=100 ttime=600
func VC26_destinations() {
	vSystem()
	os.AddFile("/n/a.org", "* A\n", 0644)
	w := vWrappers[verif.Choose("wrapper", len(vWrappers))]
	f := vFirefox("")[verif.Choose("firefox", 4)]
	c := vChrome("")[verif.Choose("chrome", 4)]
	customs := []string{"", "--log=", "--log=-", "--disable-link-set", "--disable-link-set=false", "--scheme=ftp", "--emacsarg=-c",
		"--emacsclient=ec", "--emacsclient=emacsclient", "--txt=/n/a.org", "/n/a.org", "--emacsclient=/usr/bin/emacsclient"}
	k := verif.Choose("custom", len(customs))
	var args []string
	if k > 0 {
		args = append(args, customs[k])
	}
	if verif.Choose("force", 2) == 1 {
		args = append([]string{"--force"}, args...)
	}
	custom := k != 0 && k != 2 && k != 4 && k != 8
	vFlow(args, w, f, c, custom, []string{version.FirefoxExtension}, []string{"chrome-extension://" + version.ChromeExtension + "/"})
}

// VC26_extensions: identifiers of extensions are added to the default ones
//
//verif:opts time=100 ttime=600
func VC26_extensions() {
	vSystem()
	k := 1 + verif.Choose("browsers", 3)
	f, c := vDest{}, vDest{}
	if k&1 != 0 {
		f = vFirefox("")[2]
	}
	if k&2 != 0 {
		c = vChrome("")[3]
	}
	w := vDest{}
	if verif.Choose("wrapper", 2) == 1 {
		w = vWrappers[2]
	}
	var args []string
	fi := []string{version.FirefoxExtension}
	ci := []string{"chrome-extension://" + version.ChromeExtension + "/"}
	if verif.Choose("drop", 2) == 1 {
		fi, ci = nil, nil
		args = append(args, "--mozilla-extension=", "--chrome-extension=")
		// something has to be left
		args = append(args, "--mozilla-extension=m@m", "--chrome-extension=cc")
		fi = append(fi, "m@m")
		ci = append(ci, "chrome-extension://cc/")
	}
	max, longer, alpha := 3, 1, "ab@\""
	if verif.Tier() > 0 {
		longer, alpha = 2, "ab@.\"<-"
	}
	for i := verif.Choose("ids", max); i > 0; i-- {
		id := verif.Str("id", 2+verif.Choose("longer", longer), alpha)
		switch verif.Choose("kind", 4) {
		case 0:
			args = append(args, "--mozilla-extension="+id)
			fi = append(fi, id)
		case 1:
			args = append(args, "--chrome-extension", id)
			ci = append(ci, "chrome-extension://"+id+"/")
		case 2:
			args = append(args, "--chrome-extension=chrome-extension://"+id+"/")
			ci = append(ci, "chrome-extension://"+id+"/")
		case 3:
			// not an origin of the required form
			args = append(args, "--chrome-extension=x://"+id)
			ci = append(ci, "chrome-extension://x://"+id+"/")
		}
	}
	vFlow(args, w, f, c, false, fi, ci)
}

// VC26_exe: the backend is started through a link, a wrapper exists already
//
//verif:opts time=60 ttime=300
func VC26_exe() {
	vSystem()
	os.Add("/cwd/link", &os.Node{Link: "../bin/burl_backend"})
	os.Exe = []string{"/cwd/link", "/bin/burl_backend"}[verif.Choose("exe", 2)]
	var args []string
	if verif.Choose("custom", 2) == 1 {
		args = append(args, "--emacsarg=x")
	}
	w := vWrappers[[]int{0, 2, 4}[verif.Choose("wrapper", 3)]]
	f := vFirefox("")[verif.Choose("firefox", 2)*2]
	c := vChrome("")[verif.Choose("chrome", 2)*2]
	vFlow(args, w, f, c, len(args) > 0, []string{version.FirefoxExtension}, []string{"chrome-extension://" + version.ChromeExtension + "/"})
}

// VC26_many: many identifiers of extensions
//
//verif:opts time=60 ttime=300
func VC26_many() {
	vSystem()
	var args []string
	fi := []string{version.FirefoxExtension}
	ci := []string{"chrome-extension://" + version.ChromeExtension + "/"}
	n := []int{4, 9, 30}[verif.Choose("ids", 3)]
	at := []int{0, n / 2, n - 1}[verif.Choose("at", 3)]
	for i := 0; i < n; i++ {
		id := "id" + string(rune('A'+i))
		if i == at {
			id += verif.Str("id", 1, "ab@\"")
		}
		if i%3 == 1 {
			args = append(args, "--chrome-extension=chrome-extension://"+id+"/", "--mozilla-extension="+id)
		} else {
			args = append(args, "--mozilla-extension="+id, "--chrome-extension="+id)
		}
		fi = append(fi, id)
		ci = append(ci, "chrome-extension://"+id+"/")
	}
	vFlow(args, vDest{}, vFirefox("")[2], vChrome("")[3], false, fi, ci)
}

// VC26_faults: any operation of the system fails; success is reported only if
// everything has been written nevertheless
//
//verif:opts time=60 ttime=600
func VC26_faults() {
	vSystem()
	os.AddFile("/n/a.org", "* A\n", 0644)
	var args []string
	w := vWrappers[[]int{0, 2, 3, 4}[verif.Choose("wrapper", 4)]]
	f := vFirefox("")[[]int{0, 1, 2, 3}[verif.Choose("firefox", 4)]]
	c := vChrome("")[verif.Choose("chrome", 2)*2]
	verif.Assume(w.arg != "" || f.arg != "" || c.arg != "")
	custom := verif.Choose("custom", 2) == 1
	ops, failed := 0, false
	if custom {
		name := "/n/a.org"
		if verif.Choose("missing", 2) == 1 {
			name = []string{"/n/b.org", "none.txt", "/n/a.org/b"}[verif.Choose("name", 3)]
			failed = true
		}
		args = append(args, "--org="+name, "--log=log")
	}
	if verif.Choose("force", 2) == 1 {
		args = append([]string{"--force"}, args...)
	}
	at := verif.Int("fault", 0, 40)
	os.Fault = func(op, path string) error {
		ops++
		if ops == at {
			failed = true
			return os.ErrIO
		}
		return nil
	}
	vFailed = func() bool { return failed }
	vFlow(args, w, f, c, custom, []string{version.FirefoxExtension}, []string{"chrome-extension://" + version.ChromeExtension + "/"})
}

// VC26_bytes: any characters in paths and identifiers; what a manifest can not
// contain is refused
//
//verif:opts time=60 ttime=300
func VC26_bytes() {
	vSystem()
	pieces := []string{"é", "\xe9", "\xe2\x82", "a\nb", "\"q\"", "\\", "<&>", "\u2028", "\x7f", "\x1f", "\ufffd", "a b"}
	piece := func(l string) string { return pieces[verif.Choose(l, len(pieces))] }
	bad := func(s string) bool {
		for _, r := range []rune(s + "\ufffd")[:len([]rune(s))] {
			if r == '\ufffd' && s != "\ufffd" {
				return true
			}
		}
		return false
	}
	var args []string
	w, f, c := vDest{}, vDest{}, vDest{}
	fi := []string{version.FirefoxExtension}
	ci := []string{"chrome-extension://" + version.ChromeExtension + "/"}
	browser := verif.Choose("browser", 2)
	if browser == 0 {
		f = vFirefox("")[2]
	} else {
		c = vChrome("")[2]
	}
	invalid := false
	switch verif.Choose("what", 3) {
	case 0: // the program
		p := piece("piece")
		w = vDest{arg: "/w/" + p, path: "/w/" + p}
		invalid = bad(p)
	case 1: // an identifier
		p := piece("piece")
		if browser == 0 {
			args = append(args, "--mozilla-extension="+p)
			fi = append(fi, p)
		} else {
			args = append(args, "--chrome-extension="+p)
			ci = append(ci, "chrome-extension://"+p+"/")
		}
		invalid = bad(p)
	case 2: // the name
		p := piece("piece")
		d := vDest{arg: "/m/" + p + ".json", path: "/m/" + p + ".json", name: p}
		if browser == 0 {
			f = d
		} else {
			c = d
		}
		invalid = bad(p)
	}
	vFailed = func() bool { return invalid }
	vFlow(args, w, f, c, false, fi, ci)
	vFailed = func() bool { return false }
}
