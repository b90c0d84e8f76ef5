//verif:pkg cmd/burl_backend

package main

import (
	"os"

	"github.com/maxnikulin/burl/internal/verif"
)

// VC24_flow: manifests written by the program for any requested names and lists
//
//verif:opts time=100 ttime=700
func VC24_flow() {
	max := 3
	if verif.Tier() > 0 {
		max = 5
	}
	vSystem()
	os.AddFile("/m/old.json", "{}", 0644)
	os.AddDir("/m/dir.json")
	firefox := verif.Choose("firefox", 2) == 1
	opt := "--manifest-chrome="
	if firefox {
		opt = "--manifest-firefox="
	}
	base := ""
	file := ""
	switch verif.Choose("file", 6) {
	case 0:
		base = verif.Str("base", verif.Choose("nbase", max+1), "ab.") + ".json"
		file = "/m/" + base
	case 1:
		base = "ab" + verif.Str("ext", 5, ".jJson")
		file = "/m/" + base
	case 2:
		file = "/m"
	case 3:
		file = "/m/dir.json"
	case 4:
		file = "-"
	case 5:
		base = "old.json"
		file = "/m/old.json"
	}
	args := []string{opt + file}
	if base == "old.json" {
		args = append(args, "--force")
	}
	backend := ""
	if verif.Choose("named", 2) == 1 {
		backend = verif.Str("backend", verif.Choose("nbackend", max+1), "ab./")
		args = append(args, "--backend="+backend)
	}
	lists := verif.Choose("lists", 3)
	switch lists {
	case 0:
	case 1:
		args = append(args, "--mozilla-extension=", "--chrome-extension=")
	case 2:
		args = append(args, "--mozilla-extension=", "--chrome-extension=", "--mozilla-extension=i", "--chrome-extension=i")
	}
	wrapped := verif.Choose("wrapper", 2) == 1
	if wrapped {
		args = append(args, "--wrapper=/w/run")
	}
	before := len(os.Files)
	started, code := vInstall(args)
	verif.Observe("code", code)
	verif.Assert(!started, "the backend does not start when a manifest is requested")
	// find what was written
	path, text := "", []byte(nil)
	for i, e := range os.Files {
		if e.Path == "/w/run" {
			verif.Assert(wrapped, "only requested files are written")
			continue
		}
		if i >= before || e.Path == "/m/old.json" && string(e.Node.Data) != "{}" {
			verif.Assert(path == "", "a single manifest is written")
			path, text = e.Path, e.Node.Data
		}
	}
	if file == "-" && len(os.Stdout.Out) > 0 {
		path, text = "-", os.Stdout.Out
	}
	if path == "" {
		verif.Reach("refused")
		verif.Assert(code != 0, "an error is reported if the manifest is not written")
		return
	}
	verif.Reach("written")
	verif.Assert(code == 0, "the manifest is written without an error")
	v := vParse(text)
	if v == nil {
		verif.Assert(false, "a manifest is well-formed JSON")
		return
	}
	name := v.text("name")
	verif.Assert(name != "", "the name in a manifest is not empty")
	verif.Assert(backend == "" || name == backend, "a requested name is enforced")
	if path != "-" {
		k := len(path) - 5
		verif.Assert(k > 0 && path[k] == '.' && path[k+1]|32 == 'j' && path[k+2]|32 == 's' && path[k+3]|32 == 'o' && path[k+4]|32 == 'n', "the file of a manifest is a .json one")
		verif.Assert(len(path) == len(name)+8 || len(path) > len(name)+8, "the name fits")
		verif.Assert(path[k-len(name):k] == name && path[k-len(name)-1] == '/', "the name in a manifest is the base name of its file")
		if base != "" {
			verif.Assert(path == "/m/"+base, "a requested file is written")
		} else {
			verif.Assert(path == file+"/"+name+".json", "the manifest is placed in a given directory")
		}
	}
	p := v.text("path")
	verif.Assert(len(p) > 0 && p[0] == '/', "the path of the program is absolute")
	verif.Assert(v.text("type") == "stdio", "the type of a manifest is stdio")
	o, e := v.get("allowed_origins"), v.get("allowed_extensions")
	verif.Assert((o != nil && len(o.vals) > 0) != (e != nil && len(e.vals) > 0), "exactly one list is not empty")
	verif.Assert(lists != 1, "a manifest without allowed extensions is refused")
	verif.Assert(firefox == (e != nil && len(e.vals) > 0), "the list is that of the browser")
}
