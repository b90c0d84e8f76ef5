//verif:pkg pkg/webextensions

package webextensions

import (
	"github.com/maxnikulin/burl/internal/verif"
)

func vList(kind int, id string) []string {
	switch kind {
	case 0:
		return nil
	case 1:
		return []string{}
	}
	return []string{id}
}

// VC24_init: validation of the fields of a manifest
//
//verif:opts time=80 ttime=600
func VC24_init() {
	max := 4
	if verif.Tier() > 0 {
		max = 6
	}
	m := Manifest{}
	m.Name = verif.Str("name", verif.Choose("nname", max), "ab./")
	switch verif.Choose("manifest", 5) {
	case 0:
		m.ManifestPath = "-"
	case 1:
		m.ManifestPath = "/m/" + verif.Str("base", verif.Choose("nbase", max), "ab.") + ".json"
	case 2:
		m.ManifestPath = "/m/ab" + verif.Str("ext", 5, ".jJsoOn")
	case 3:
		m.ManifestPath = verif.Str("any", verif.Choose("nany", max+1), "ab./-")
	case 4:
		m.ManifestPath = verif.Str("dir", 1, "ab./") + verif.Str("file", 2, "ab./") + ".json"
	}
	m.Path = verif.Str("path", verif.Choose("npath", 3), "a/.-")
	origins, extensions := verif.Choose("origins", 3), verif.Choose("extensions", 3)
	m.AllowedOrigins = vList(origins, "o")
	m.AllowedExtensions = vList(extensions, "e")
	mp := m.ManifestPath
	if n := len(mp); n > 0 {
		verif.Assume(mp[n-1] != '/')
	}
	want := m
	err := m.Init()
	ok := m.Name != "" && len(m.Path) > 0 && m.Path[0] == '/' && mp != "" && (origins == 2) != (extensions == 2)
	if ok && mp != "-" {
		n := len(mp) - 5
		ok = n >= 0 && mp[n] == '.' && mp[n+1]|32 == 'j' && mp[n+2]|32 == 's' && mp[n+3]|32 == 'o' && mp[n+4]|32 == 'n'
		if ok {
			base := mp[:n]
			for i := len(base); i > 0; i-- {
				if base[i-1] == '/' {
					base = base[i:]
					break
				}
			}
			ok = base == m.Name
		}
	}
	verif.Observe("ok", err == nil)
	verif.Assert((err == nil) == ok, "a manifest is accepted exactly if it is valid for the browser")
	if err == nil {
		verif.Reach("accepted")
		verif.Assert(m.Type == "stdio", "the type of an accepted manifest is stdio")
	}
	verif.Assert(m.Name == want.Name && m.Path == want.Path && m.ManifestPath == mp &&
		len(m.AllowedOrigins) == len(want.AllowedOrigins) && len(m.AllowedExtensions) == len(want.AllowedExtensions), "validation changes nothing else")
}
