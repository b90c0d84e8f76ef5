//verif:pkg cmd/burl_backend

package main

import (
	"os"

	"github.com/maxnikulin/burl/internal/verif"
)

// VC23_flow: files that exist before installation
//
//verif:opts time=60 ttime=600
func VC23_flow() {
	vSystem()
	paths := []string{"/w/run", "/m/x.json", "/c/yy.json"}
	opts := []string{"--wrapper=", "--manifest-firefox=", "--manifest-chrome="}
	requested := 1 + verif.Choose("requested", 7)
	args := []string{}
	for i, o := range opts {
		if requested>>i&1 == 1 {
			args = append(args, o+paths[i])
		}
	}
	if verif.Choose("before", 2) == 1 {
		// the same has been written earlier
		d := vSaveDefaults()
		_, code := vInstall(args)
		verif.Assert(code == 0, "files are written")
		vRestoreDefaults(d)
	}
	var nodes []*os.Node
	var texts []string
	different := false
	for i, p := range paths {
		if requested>>i&1 == 0 || verif.Choose("other", 2) == 1 {
			// shell scripts look like earlier wrappers
			os.AddFile(p, []string{"#!/bin/" + verif.Str("text", 1, "ab"), "{\"a\":" + verif.Str("text", 1, "12") + "}"}[(i+1)/2], 0755)
			different = different || requested>>i&1 == 1
		}
		n := os.Find(p)
		nodes = append(nodes, n)
		text := ""
		if n != nil {
			text = string(n.Data)
		}
		texts = append(texts, text)
	}
	force := verif.Choose("force", 2) == 1
	if force {
		args = append(args, []string{"--force", "-force=true"}[requested%2])
	}
	started, code := vInstall(args)
	verif.Assert(!started, "the backend is not started")
	verif.Assert((code == 0) == (force || !different), "exactly other files without force are refused")
	for i, p := range paths {
		n := os.Find(p)
		if requested>>i&1 == 0 {
			verif.Assert(n == nodes[i] && (n == nil || string(n.Data) == texts[i]), "other files are not touched")
		} else if !force && nodes[i] != nil {
			verif.Assert(n == nodes[i] && string(n.Data) == texts[i], "without force an existing file is not changed")
		} else if code == 0 {
			verif.Assert(n != nil && len(n.Data) > 20, "the files are written")
		}
	}
}
