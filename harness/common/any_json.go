package any

import (
	"github.com/maxnikulin/burl/internal/verif"
)

// vJSON is a parsed JSON value.
type vJSON struct {
	kind byte // o a s n t f z
	str  string
	num  int
	keys []string
	vals []*vJSON
}

type vParser struct {
	s   []byte
	i   int
	bad bool
}

func (p *vParser) space() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\n' || p.s[p.i] == '\t' || p.s[p.i] == '\r') {
		p.i++
	}
}

func (p *vParser) eat(c byte) bool {
	p.space()
	if p.i < len(p.s) && p.s[p.i] == c {
		p.i++
		return true
	}
	return false
}

func (p *vParser) word(w string) bool {
	if len(p.s)-p.i >= len(w) && string(p.s[p.i:p.i+len(w)]) == w {
		p.i += len(w)
		return true
	}
	p.bad = true
	return false
}

func vHex(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func (p *vParser) text() string {
	var out []byte
	for p.i < len(p.s) {
		c := p.s[p.i]
		p.i++
		if c == '"' {
			return string(out)
		}
		if c < ' ' {
			break
		}
		if c != '\\' {
			out = append(out, c)
			continue
		}
		if p.i >= len(p.s) {
			break
		}
		c = p.s[p.i]
		p.i++
		switch c {
		case '"', '\\', '/':
			out = append(out, c)
		case 'n':
			out = append(out, '\n')
		case 't':
			out = append(out, '\t')
		case 'r':
			out = append(out, '\r')
		case 'b':
			out = append(out, '\b')
		case 'f':
			out = append(out, '\f')
		case 'u':
			if p.i+4 > len(p.s) {
				p.bad = true
				return ""
			}
			r := 0
			for k := 0; k < 4; k++ {
				h := vHex(p.s[p.i])
				if h < 0 {
					p.bad = true
				}
				r = r*16 + h
				p.i++
			}
			out = append(out, string(rune(r))...)
		default:
			p.bad = true
			return ""
		}
	}
	p.bad = true
	return ""
}

func (p *vParser) value() *vJSON {
	p.space()
	if p.bad || p.i >= len(p.s) {
		p.bad = true
		return &vJSON{}
	}
	c := p.s[p.i]
	switch {
	case c == '{':
		p.i++
		v := &vJSON{kind: 'o'}
		if p.eat('}') {
			return v
		}
		for !p.bad {
			if !p.eat('"') {
				break
			}
			k := p.text()
			if !p.eat(':') {
				break
			}
			for _, have := range v.keys {
				if have == k {
					p.bad = true
				}
			}
			v.keys = append(v.keys, k)
			v.vals = append(v.vals, p.value())
			if p.eat('}') {
				return v
			}
			if !p.eat(',') {
				break
			}
		}
	case c == '[':
		p.i++
		v := &vJSON{kind: 'a'}
		if p.eat(']') {
			return v
		}
		for !p.bad {
			v.vals = append(v.vals, p.value())
			if p.eat(']') {
				return v
			}
			if !p.eat(',') {
				break
			}
		}
	case c == '"':
		p.i++
		return &vJSON{kind: 's', str: p.text()}
	case c == 't':
		p.word("true")
		return &vJSON{kind: 't'}
	case c == 'f':
		p.word("false")
		return &vJSON{kind: 'f'}
	case c == 'n':
		p.word("null")
		return &vJSON{kind: 'z'}
	case c == '-' || c >= '0' && c <= '9':
		v := &vJSON{kind: 'n'}
		neg := false
		if c == '-' {
			neg = true
			p.i++
		}
		digits := 0
		for p.i < len(p.s) && p.s[p.i] >= '0' && p.s[p.i] <= '9' {
			v.num = v.num*10 + int(p.s[p.i]-'0')
			p.i++
			digits++
		}
		if neg {
			v.num = -v.num
		}
		if digits == 0 {
			p.bad = true
		}
		return v
	}
	p.bad = true
	return &vJSON{}
}

// vParse parses a complete JSON text, nil if it is not well-formed.
func vParse(s []byte) *vJSON {
	p := &vParser{s: s}
	v := p.value()
	p.space()
	if p.bad || p.i != len(s) {
		return nil
	}
	return v
}

func (v *vJSON) get(key string) *vJSON {
	if v != nil {
		for i, k := range v.keys {
			if k == key {
				return v.vals[i]
			}
		}
	}
	return nil
}

func (v *vJSON) text(key string) string {
	m := v.get(key)
	if m == nil || m.kind != 's' {
		verif.Assert(false, "a text field is missing: "+key)
		return ""
	}
	return m.str
}

func (v *vJSON) number(key string) int {
	m := v.get(key)
	if m == nil || m.kind != 'n' {
		verif.Assert(false, "a number field is missing: "+key)
		return -1
	}
	return m.num
}

func (v *vJSON) list(key string) []*vJSON {
	m := v.get(key)
	if m == nil || m.kind != 'a' {
		verif.Assert(false, "a list field is missing: "+key)
		return nil
	}
	return m.vals
}

func (v *vJSON) texts(key string) []string {
	var out []string
	for _, e := range v.list(key) {
		if e.kind != 's' {
			verif.Assert(false, "a list of texts has something else: "+key)
		}
		out = append(out, e.str)
	}
	return out
}
