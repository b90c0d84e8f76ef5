//verif:pkg pkg/burl_fileutil

package burl_fileutil

import (
	"os"

	"github.com/maxnikulin/burl/internal/verif"
)

type vCrash struct{}

// vWrite runs WriteFile on /d/f and checks the target after every change of
// the file system, and the outcome.
func vWrite(old *os.Node, content []byte, mode os.FileMode, force bool, path string, faults int, crash bool) {
	os.AddDir("/d")
	os.AddFile("/d/other", "other", 0644)
	existed := old != nil
	var oldData []byte
	var oldMode os.FileMode
	if existed {
		os.Add("/d/f", old)
		oldData = append(oldData, old.Data...)
		oldMode = old.Mode
	}
	os.Cwd = "/d"
	same := existed && string(oldData) == string(content)
	intact := func() bool {
		n := os.Find("/d/f")
		if n == nil {
			return !existed
		}
		return existed && n == old && string(n.Data) == string(oldData) && n.Mode == oldMode
	}
	valid := func(where string) {
		if intact() {
			return
		}
		n := os.Find("/d/f")
		if n == nil {
			verif.Assert(!existed, "an existing file never disappears")
			return
		}
		if existed && !same && !force {
			verif.Assert(false, "without force a different file is not changed")
		}
		verif.Assert(string(n.Data) == string(content), "the target is never partial")
		if same && n == old {
			verif.Assert(n.Mode|mode == oldMode|mode && n.Mode&oldMode == oldMode, "the mode is only extended by requested bits")
		} else {
			verif.Assert(n.Mode == mode, "the target appears with its complete mode")
		}
	}
	failed := 0
	removeFailed := false
	bad := func() bool {
		if failed >= faults || verif.Choose("fault", 2) == 0 {
			return false
		}
		failed++
		return true
	}
	os.Fault = func(op, p string) error {
		if !bad() {
			return nil
		}
		if op == "remove" {
			removeFailed = true
		}
		return []error{os.ErrIO, os.ErrPermission}[verif.Choose("error", 2)]
	}
	os.WriteFault = func(p string, n int) (int, error) {
		if !bad() {
			return n, nil
		}
		return verif.Choose("written", 3) * (n + 1) / 3, os.ErrNoSpace
	}
	crashed := false
	os.Step = func(op, p string) {
		valid("step")
		if crashed || crash && verif.Choose("crash", 2) == 1 {
			crashed = true
			panic(vCrash{})
		}
	}
	err := func() (err error) {
		defer func() {
			if crashed {
				recover()
			}
		}()
		return WriteFile(path, content, mode, force)
	}()
	os.Fault, os.WriteFault, os.Step = nil, nil, nil
	valid("end")
	if crashed {
		verif.Reach("crash")
		return
	}
	verif.Observe("failed", err != nil)
	if err != nil {
		verif.Reach("error")
		verif.Assert(intact(), "after a reported failure the target is as it was")
		files := 2
		if existed {
			files++
		}
		verif.Assert(len(os.Files) == files || removeFailed, "no temporary file remains after a failure")
		verif.Assert(failed > 0 || existed && !force && !same, "writing succeeds if nothing fails and the file may be written")
	} else {
		n := os.Find("/d/f")
		verif.Reach("success")
		if n == nil {
			verif.Assert(false, "success means that the target exists")
			return
		}
		verif.Assert(string(n.Data) == string(content), "success means that the target has the content")
		verif.Assert(n.Mode&0400 != 0, "success means that the target is readable")
		verif.Assert(mode&0100 == 0 || n.Mode&0100 != 0, "success means that a program is executable")
		files := 3
		verif.Assert(len(os.Files) == files, "no other file is left behind")
	}
	verif.Assert(os.OpenNow == 0, "files are closed")
	other := os.Find("/d/other")
	verif.Assert(other != nil && string(other.Data) == "other", "other files are not touched")
}

func vMode() os.FileMode {
	return []os.FileMode{0644, 0755}[verif.Choose("mode", 2)]
}

func vPerm() os.FileMode { return os.FileMode(verif.Uint32("perm") & 0777) }

// VC23_contents: any contents and modes, no faults
//
//verif:opts time=60 ttime=600
func VC23_contents() {
	max := 4
	if verif.Tier() > 0 {
		max = 6
	}
	prefix := []string{"", "#!/"}[verif.Choose("shebang", 2)]
	content := []byte(prefix + verif.Str("new", verif.Choose("n", max), "#!/a\n"))
	var old *os.Node
	if verif.Choose("exists", 2) == 1 {
		old = &os.Node{Data: []byte(verif.Str("old", verif.Choose("m", max+3), "#!/a\n")), Mode: vPerm()}
	}
	path := []string{"/d/f", "f", "./f", "/d//f"}[verif.Choose("path", 4)]
	vWrite(old, content, vMode(), verif.Bool("force"), path, 0, false)
}

// VC23_faults: every file system call may fail, the program may be interrupted
//
//verif:opts time=90 ttime=800
func VC23_faults() {
	faults := 3
	if verif.Tier() > 0 {
		faults = 5
	}
	content := []byte("#!/" + verif.Str("new", 2, "ab"))
	var old *os.Node
	if k := verif.Choose("exists", 5); k > 0 {
		old = &os.Node{Mode: vPerm()}
		switch k {
		case 1:
			old.Data = []byte("#!/" + verif.Str("old", 2, "ab"))
		case 2:
			old.Data = []byte("#!/ab" + verif.Str("old", 1, "ab"))
		case 3:
			old.Data = []byte(verif.Str("old", 3, "#!/a"))
		}
	}
	vWrite(old, content, vMode(), verif.Choose("force", 2) == 1, "/d/f", faults, verif.Choose("interrupted", 2) == 1)
}

// VC23_long: contents around the sizes at which the comparison changes
//
//verif:opts time=90 ttime=600
func VC23_long() {
	sizes := []int{0, 1, 2, 3, 4}
	big := func(n int, last string) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = 'x'
		}
		copy(b, "#!/bin/sh\n")
		if n > 20 {
			copy(b[n-len(last):], last)
		}
		return b
	}
	base := []int{4096, 8192, 512}
	if verif.Tier() > 0 {
		base = []int{4096, 8192, 512, 1024, 2048, 16384, 32768, 65536}
	}
	n := base[verif.Choose("size", len(base))] + verif.Choose("delta", 3) - 1
	content := big(n, verif.Str("newtail", 1, "xy"))
	more := sizes[verif.Choose("more", 5)]
	old := &os.Node{Mode: vPerm()}
	switch verif.Choose("relation", 3) {
	case 0: // the old file continues after the new content
		old.Data = append(append([]byte{}, content...), big(more*2048, "z")...)
	case 1: // slightly longer or shorter
		old.Data = append([]byte{}, content...)
		for i := 0; i < more; i++ {
			old.Data = append(old.Data, 'x')
		}
		if more == 4 {
			old.Data = old.Data[:n-1]
		}
	case 2: // differs in a byte
		old.Data = append([]byte{}, content...)
		old.Data[n-1-more*(n/5)] = verif.Str("diff", 1, "xyz")[0]
	}
	vWrite(old, content, vMode(), verif.Choose("force", 2) == 1, "/d/f", 0, false)
}

// VC23_stdout: writing to the standard output
//
//verif:opts time=30 ttime=100
func VC23_stdout() {
	content := verif.Str("content", verif.Choose("n", 5), "ab\n")
	fail := verif.Choose("fail", 2) == 1
	os.AddDir("/cwd")
	os.Fault = func(op, p string) error {
		if fail {
			return os.ErrIO
		}
		return nil
	}
	err := WriteFile("-", []byte(content), vMode(), verif.Choose("force", 2) == 1)
	verif.Assert((err != nil) == fail, "a failed write to the standard output is reported")
	verif.Assert(fail || string(os.Stdout.Out) == content, "the standard output gets the content")
	verif.Assert(len(os.Files) == 1, "no file is created for the standard output")
}

// VC23_link: the target is a symbolic link
//
//verif:opts time=60 ttime=600
func VC23_link() {
	os.AddDir("/d")
	os.AddDir("/e")
	mode := vMode()
	content := "#!/" + verif.Str("new", 2, "ab")
	force := verif.Choose("force", 2) == 1
	var target *os.Node
	old := ""
	var perm os.FileMode
	if verif.Choose("dangling", 2) == 0 {
		old = "#!/" + verif.Str("old", 2, "ab")
		perm = vPerm()
		target = os.Add("/e/g", &os.Node{Data: []byte(old), Mode: perm})
	}
	os.Add("/d/f", &os.Node{Link: []string{"/e/g", "../e/g"}[verif.Choose("relative", 2)]})
	intact := func() bool {
		_, n, err := os.Resolve("/d/f")
		if target == nil {
			return err != nil
		}
		return err == nil && n == target && string(n.Data) == old && n.Mode == perm
	}
	same := target != nil && old == content
	valid := func() {
		if intact() {
			return
		}
		_, n, err := os.Resolve("/d/f")
		if err != nil {
			verif.Assert(false, "an existing file never disappears")
			return
		}
		verif.Assert(target == nil || same || force, "without force a different file is not changed")
		verif.Assert(string(n.Data) == content, "the target is never partial")
	}
	faults := 0
	os.Fault = func(op, p string) error {
		if faults > 0 || verif.Choose("fault", 2) == 0 {
			return nil
		}
		faults++
		return os.ErrIO
	}
	os.Step = func(op, p string) { valid() }
	err := WriteFile("/d/f", []byte(content), mode, force)
	os.Fault, os.Step = nil, nil
	valid()
	if err != nil {
		verif.Reach("error")
		verif.Assert(faults > 0 || target != nil && !force && !same, "writing succeeds if nothing fails and the file may be written")
		verif.Assert(intact(), "after a reported failure the target is as it was")
		return
	}
	verif.Reach("success")
	_, n, err := os.Resolve("/d/f")
	verif.Assert(err == nil && string(n.Data) == content, "success means that the target has the content")
	verif.Assert(n.Mode&0400 != 0, "success means that the target is readable")
	verif.Assert(mode&0100 == 0 || n.Mode&0100 != 0, "success means that a program is executable")
}

// VC23_modes: any requested mode that lets the owner read the file
//
//verif:opts time=60 ttime=600
func VC23_modes() {
	mode := os.FileMode(verif.Uint32("mode")&0777 | 0400)
	content := []byte("#!/" + verif.Str("new", 1, "ab"))
	var old *os.Node
	if verif.Choose("exists", 2) == 1 {
		old = &os.Node{Mode: vPerm(), Data: []byte("#!/" + verif.Str("old", 1, "ab"))}
	}
	vWrite(old, content, mode, verif.Choose("force", 2) == 1, "/d/f", 1, verif.Choose("interrupted", 2) == 1)
}

// VC23_places: targets that can not be files
//
//verif:opts time=30 ttime=100
func VC23_places() {
	os.AddDir("/d")
	os.AddDir("/d/sub")
	os.AddFile("/d/sub/kept", "kept", 0644)
	os.AddFile("/d/file", "file", 0644)
	path := []string{"/d/sub", "/d/missing/f", "/d/file/f", "/d/sub/"}[verif.Choose("path", 4)]
	content := "#!/" + verif.Str("new", 1, "ab")
	err := WriteFile(path, []byte(content), vMode(), verif.Choose("force", 2) == 1)
	verif.Assert(err != nil, "success means that the target has the content")
	sub, kept, file := os.Find("/d/sub"), os.Find("/d/sub/kept"), os.Find("/d/file")
	verif.Assert(sub != nil && kept != nil && string(kept.Data) == "kept" && file != nil && string(file.Data) == "file", "other files are not touched")
	verif.Assert(len(os.Files) == 4 && os.OpenNow == 0, "no temporary file remains after a failure")
	verif.Reach("refused")
}
