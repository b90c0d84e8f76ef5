//verif:pkg pkg/burl_fileutil

package burl_fileutil

import (
	"os"

	"github.com/maxnikulin/burl/internal/verif"
)

func vClean(p string) string {
	if len(p) == 0 || p[0] != '/' {
		p = os.Cwd + "/" + p
	}
	var out []string
	start := 0
	for i := 0; i <= len(p); i++ {
		if i < len(p) && p[i] != '/' {
			continue
		}
		c := p[start:i]
		start = i + 1
		switch c {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, c)
		}
	}
	r := ""
	for _, c := range out {
		r += "/" + c
	}
	if r == "" {
		return "/"
	}
	return r
}

func vBase(p string) (dir, base string) {
	for i := len(p); i > 0; i-- {
		if p[i-1] == '/' {
			return p[:i-1], p[i:]
		}
	}
	return "", p
}

func vLower(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'A' && c <= 'Z' {
			c += 32
		}
		b = append(b, c)
	}
	return string(b)
}

// VC24_filename: the file of a manifest or wrapper for any destination
//
//verif:opts time=80 ttime=700
func VC24_filename() {
	max := 5
	if verif.Tier() > 0 {
		max = 8
	}
	os.AddDir("/d")
	os.AddDir("/cwd")
	os.AddDir("/cwd/a")
	os.AddDir("/cwd/a.x")
	os.AddFile("/cwd/b", "", 0644)
	os.AddFile("/cwd/b.x", "", 0644)
	os.Add("/cwd/l", &os.Node{Link: "a"})
	options := AbsFileNameOptions{
		Name:        []string{"", "b", "b.x"}[verif.Choose("name", 3)],
		DefaultName: []string{"", "def"}[verif.Choose("default", 2)],
		Ext:         []string{"", ".x"}[verif.Choose("ext", 2)],
	}
	file := ""
	switch verif.Choose("form", 4) {
	case 0:
		file = verif.Str("file", 1+verif.Choose("n", max), "abl.x/-")
	case 1:
		file = "a/" + verif.Str("sub", verif.Choose("nsub", 4), "b.xX/")
	case 2:
		file = "b" + verif.Str("end", verif.Choose("nend", 4), ".xXb")
	case 3:
		file = "/" + verif.Str("abs", verif.Choose("nabs", 4), "d/.xb")
	}
	failing := verif.Choose("failing", 3)
	calls := 0
	os.Fault = func(op, p string) error {
		calls++
		if calls == failing {
			return os.ErrPermission
		}
		return nil
	}
	path, name, err := AsAbsFileName(file, options)
	os.Fault = nil
	verif.Observe("ok", err == nil)
	wantName := options.Name
	if wantName == "" {
		wantName = options.DefaultName
	}
	if file == "-" {
		verif.Assert(err == nil && path == "-" && name == wantName, "- is kept and gets the requested or default name")
		return
	}
	if err != nil {
		verif.Reach("refused")
	} else {
		verif.Reach("accepted")
		verif.Observe("path", path)
	}
	abs := vClean(file)
	_, n, serr := os.Resolve(abs)
	if serr == nil && n.Dir {
		verif.Reach("directory")
		if wantName == "" {
			verif.Assert(err != nil, "a directory needs a name")
			return
		}
		_, b := vBase(wantName)
		if b != wantName {
			return
		}
		verif.Assert(failing > 0 || err == nil, "a directory is accepted if there is a name")
		if err != nil {
			return
		}
		if abs == "/" {
			abs = ""
		}
		verif.Assert(path == abs+"/"+wantName+options.Ext && name == wantName, "the file is placed in the directory under the requested or default name")
		return
	}
	// a file
	dir, base := vBase(abs)
	valid := true
	if serr != nil {
		if dir == "" {
			dir = "/"
		}
		_, dn, derr := os.Resolve(dir)
		valid = serr == os.ErrNotExist && derr == nil && dn.Dir
	}
	stem := base
	if options.Ext != "" {
		k := len(base) - len(options.Ext)
		if k < 0 || vLower(base[k:]) != options.Ext {
			valid = false
		} else {
			stem = base[:k]
		}
	}
	if options.Name != "" && base != options.Name+options.Ext {
		valid = false
	}
	verif.Assert(valid || err != nil, "a file that is not in a directory, or has another name or extension, is refused")
	verif.Assert(!valid || failing > 0 || err == nil, "a suitable file is accepted")
	if err == nil {
		verif.Assert(path == abs, "the path of the file is made absolute")
		verif.Assert(name == stem, "the name is the base name of the file")
	}
}
