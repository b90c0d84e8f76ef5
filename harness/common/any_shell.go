package any

import "github.com/maxnikulin/burl/internal/verif"

// vSh interprets the part of the POSIX shell language that wrappers use,
// the way dash does where shells differ. Anything else makes the check
// inconclusive, not a violation, except values that are not quoted.
type vSh struct {
	vars     map[string]string
	src      string
	pos      int
	out      []byte
	in       string
	chars    bool // ${#x} counts characters unless the locale is C
	errexit  bool
	cond     int
	status   int
	exited   bool
	skipped  bool
	nested   bool
	executed []string                        // the program that replaced the shell
	unquoted bool                            // special characters outside of quotes
	test     func(op byte, name string) bool // tests of files like -x
}

func vShell(src string) *vSh { return &vSh{src: src, vars: map[string]string{}} }

func (s *vSh) bad(what string) { verif.Unsupported("shell: " + what) }

func (s *vSh) peek(t string) bool {
	return len(s.src)-s.pos >= len(t) && s.src[s.pos:s.pos+len(t)] == t
}

func (s *vSh) blank() {
	for s.pos < len(s.src) {
		switch {
		case s.src[s.pos] == ' ' || s.src[s.pos] == '\t':
			s.pos++
		case s.peek("\\\n"):
			s.pos += 2
		case s.src[s.pos] == '#':
			for s.pos < len(s.src) && s.src[s.pos] != '\n' {
				s.pos++
			}
		default:
			return
		}
	}
}

func (s *vSh) newlines() {
	for {
		s.blank()
		if s.pos >= len(s.src) || s.src[s.pos] != '\n' {
			return
		}
		s.pos++
	}
}

func (s *vSh) keyword(k string) bool {
	if !s.peek(k) {
		return false
	}
	if e := s.pos + len(k); e < len(s.src) {
		switch s.src[e] {
		case ' ', '\t', '\n', ';', ')':
		default:
			return false
		}
	}
	return true
}

// list runs commands up to a closing parenthesis or keyword.
func (s *vSh) list(skip bool, stop ...string) {
	for {
		s.newlines()
		if s.pos >= len(s.src) || s.exited && !s.nested {
			return
		}
		if s.src[s.pos] == ')' {
			return
		}
		for _, k := range stop {
			if s.keyword(k) {
				return
			}
		}
		s.andOr(skip)
		s.blank()
		if s.pos < len(s.src) && s.src[s.pos] == ';' {
			s.pos++
		}
	}
}

func (s *vSh) andOr(skip bool) {
	last := !s.keyword("!")
	s.pipeline(skip)
	for {
		s.blank()
		and := s.peek("&&")
		if !and && !s.peek("||") {
			break
		}
		s.pos += 2
		s.newlines()
		if skip || s.exited || and == (s.status != 0) {
			s.pipeline(true)
			last = false
		} else {
			last = !s.keyword("!")
			s.pipeline(false)
		}
	}
	if !skip && last && s.errexit && s.cond == 0 && s.status != 0 {
		s.exited = true
	}
}

func (s *vSh) pipeline(skip bool) {
	not := false
	if s.keyword("!") {
		s.pos++
		s.blank()
		not = true
		s.cond++
	}
	in, out, exited := s.in, s.out, s.exited
	s.out = nil
	s.command(skip)
	for {
		s.blank()
		if !s.peek("|") || s.peek("||") {
			break
		}
		s.pos++
		s.newlines()
		s.in = string(s.out)
		s.out = nil
		s.exited = exited
		s.command(skip)
		s.exited = exited
	}
	s.in = in
	s.out = append(out, s.out...)
	if not {
		s.cond--
		if s.status == 0 {
			s.status = 1
		} else {
			s.status = 0
		}
	}
}

func (s *vSh) command(skip bool) {
	skip = skip || s.exited
	switch {
	case s.keyword("if"):
		s.pos += 2
		done := skip
		for {
			s.cond++
			s.list(done, "then")
			s.cond--
			if !s.keyword("then") {
				s.bad("if without then")
			}
			s.pos += 4
			yes := !done && s.status == 0
			s.list(!yes, "elif", "else", "fi")
			if !done && !yes {
				s.status = 0
			}
			done = done || yes
			if s.keyword("elif") {
				s.pos += 4
				continue
			}
			break
		}
		if s.keyword("else") {
			s.pos += 4
			s.list(done, "fi")
		}
		if !s.keyword("fi") {
			s.bad("if without fi")
		}
		s.pos += 2
		return
	case s.keyword("{"):
		s.pos++
		s.list(skip, "}")
		if !s.keyword("}") {
			s.bad("unfinished group")
		}
		s.pos++
		return
	case s.keyword("for"), s.keyword("while"), s.keyword("case"), s.keyword("until"), s.peek("("):
		s.bad("compound command")
	}
	s.simple(skip)
}

func vName(c byte, first bool) bool {
	return c == '_' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || !first && c >= '0' && c <= '9'
}

func (s *vSh) simple(skip bool) {
	var words []string
	stderr := false
	var assigned []string
	start := s.pos
	for {
		s.blank()
		if s.pos >= len(s.src) || s.unquoted {
			break
		}
		c := s.src[s.pos]
		if c == '\n' || c == ';' || c == '|' || c == '&' && s.peek("&&") || c == ')' {
			break
		}
		if s.peek(">&2") {
			s.pos += 3
			stderr = true
			continue
		}
		if s.peek("2>/dev/null") {
			s.pos += len("2>/dev/null")
			continue
		}
		if c == '&' || c == '>' || c == '<' || c == '(' {
			// not a separator in any expected script
			s.unquoted = true
			s.pos = len(s.src)
			s.exited = true
			return
		}
		if len(words) == 0 {
			e := s.pos
			for e < len(s.src) && vName(s.src[e], e == s.pos) {
				e++
			}
			if e > s.pos && e < len(s.src) && s.src[e] == '=' {
				name := s.src[s.pos:e]
				s.pos = e + 1
				v := s.word(skip, false)
				t := ""
				if len(v) > 0 {
					t = v[0]
				}
				assigned = append(assigned, name, t)
				continue
			}
		}
		words = append(words, s.word(skip, true)...)
	}
	if s.unquoted {
		s.exited = true
		s.pos = len(s.src)
		return
	}
	if s.pos == start {
		s.bad("syntax")
	}
	if skip || s.exited {
		return
	}
	if len(words) == 0 {
		for i := 0; i < len(assigned); i += 2 {
			s.vars[assigned[i]] = assigned[i+1]
			s.status = 0
		}
		return
	}
	out := s.out
	s.run(words)
	if stderr {
		s.out = out
	}
}

// kinds of characters outside of quotes
var vShClass = [256]byte{
	' ': 1, '\t': 1, '\n': 1, ';': 1, '|': 1, '&': 1, ')': 1, '(': 1, '<': 1, '>': 1,
	'\'': 2, '"': 3, '\\': 4, '$': 5, '`': 6, '*': 6, '?': 6, '{': 6, '[': 7, '~': 8,
}

// word expands one word; fields tells whether unquoted values are split.
func (s *vSh) word(skip, fields bool) (words []string) {
	var cur []byte
	in := false
	first := s.pos
	expand := func(v string, quoted bool) {
		if quoted || !fields {
			cur = append(cur, v...)
			in = true
			return
		}
		for i := 0; i < len(v); i++ {
			switch v[i] {
			case ' ', '\t', '\n':
				if in {
					words = append(words, string(cur))
					cur, in = nil, false
				}
			case '*', '?', '[':
				s.unquoted = true
				fallthrough
			default:
				cur = append(cur, v[i])
				in = true
			}
		}
	}
loop:
	for s.pos < len(s.src) {
		c := s.src[s.pos]
		switch vShClass[c] {
		case 1:
			break loop
		case 2:
			in = true
			s.pos++
			for {
				if s.pos >= len(s.src) {
					s.unquoted = true
					break loop
				}
				c = s.src[s.pos]
				s.pos++
				if c == '\'' {
					break
				}
				cur = append(cur, c)
			}
		case 3:
			in = true
			s.pos++
			for {
				if s.pos >= len(s.src) {
					s.unquoted = true
					break loop
				}
				c = s.src[s.pos]
				if c == '"' {
					s.pos++
					break
				}
				switch c {
				case '$':
					if v, ok := s.dollar(skip); ok {
						expand(v, true)
					} else {
						cur = append(cur, '$')
					}
					continue
				case '`':
					s.bad("`")
				case '\\':
					if s.pos+1 < len(s.src) {
						switch s.src[s.pos+1] {
						case '"', '\\', '$', '`':
							s.pos++
							c = s.src[s.pos]
						case '\n':
							s.pos += 2
							continue
						}
					}
				}
				cur = append(cur, c)
				s.pos++
			}
		case 4:
			s.pos++
			if s.pos >= len(s.src) {
				break loop
			}
			if s.src[s.pos] != '\n' {
				in = true
				cur = append(cur, s.src[s.pos])
			}
			s.pos++
		case 5:
			if v, ok := s.dollar(skip); ok {
				expand(v, false)
			} else {
				in = true
				cur = append(cur, '$')
			}
		default:
			bad := vShClass[c] == 6
			if vShClass[c] == 7 && (s.pos != first || s.pos+1 >= len(s.src) || s.src[s.pos+1] != ' ') {
				bad = true
			}
			if vShClass[c] == 8 && (s.pos == first || s.src[s.pos-1] == '=' || s.src[s.pos-1] == ':') {
				bad = true
			}
			if bad {
				s.unquoted = true
				break loop
			}
			in = true
			cur = append(cur, c)
			s.pos++
		}
	}
	if in {
		words = append(words, string(cur))
	}
	return
}

// dollar expands the parameter, command or arithmetic expression at $.
func (s *vSh) dollar(skip bool) (string, bool) {
	s.pos++
	switch {
	case s.peek("(("):
		s.pos += 2
		s.skipped = skip || s.exited
		n := s.arith(0)
		s.space()
		if !s.peek("))") {
			s.bad("arithmetic")
		}
		s.pos += 2
		return vItoa(n), true
	case s.peek("("):
		s.pos++
		out, exited, errexit, nested := s.out, s.exited, s.errexit, s.nested
		s.out, s.nested = nil, true
		s.list(skip)
		v := s.out
		s.out, s.exited, s.errexit, s.nested = out, exited, errexit, nested
		if !s.peek(")") {
			s.bad("unfinished $(")
		}
		s.pos++
		for len(v) > 0 && v[len(v)-1] == '\n' {
			v = v[:len(v)-1]
		}
		return string(v), true
	case s.peek("{"):
		s.pos++
		count := s.peek("#")
		if count {
			s.pos++
		}
		v := s.variable(skip)
		if !s.peek("}") {
			s.bad("${")
		}
		s.pos++
		if count {
			return vItoa(s.length(v)), true
		}
		return v, true
	}
	if s.pos < len(s.src) && vName(s.src[s.pos], true) {
		return s.variable(skip), true
	}
	if s.pos < len(s.src) {
		switch c := s.src[s.pos]; {
		case c >= '0' && c <= '9', c == '@', c == '*', c == '?', c == '#', c == '$', c == '!', c == '-':
			s.unquoted = true
		}
	}
	return "", false
}

func (s *vSh) variable(skip bool) string {
	e := s.pos
	for e < len(s.src) && vName(s.src[e], e == s.pos) {
		e++
	}
	name := s.src[s.pos:e]
	s.pos = e
	v, ok := s.vars[name]
	if !ok && !skip && !s.exited {
		s.unquoted = true
	}
	return v
}

func (s *vSh) length(v string) int {
	if !s.chars || s.vars["LC_ALL"] == "C" || s.vars["LC_ALL"] == "POSIX" {
		return len(v)
	}
	n := 0
	for i := 0; i < len(v); i++ {
		if v[i]&0xc0 != 0x80 {
			n++
		}
	}
	return n
}

func vItoa(n int) string {
	if n < 0 {
		return "-" + vItoa(-n)
	}
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return vItoa(n/10) + string([]byte{byte('0' + n%10)})
}

func vAtoi(t string) (n int, ok bool) {
	neg := len(t) > 0 && t[0] == '-'
	if neg {
		t = t[1:]
	}
	if len(t) == 0 {
		return 0, false
	}
	for i := 0; i < len(t); i++ {
		if t[i] < '0' || t[i] > '9' {
			return 0, false
		}
		n = n*10 + int(t[i]-'0')
	}
	if neg {
		n = -n
	}
	return n, true
}

func (s *vSh) space() {
	for s.pos < len(s.src) && (s.src[s.pos] == ' ' || s.src[s.pos] == '\n' || s.src[s.pos] == '\t') {
		s.pos++
	}
}

var vShOps = [][]string{{"|"}, {"^"}, {"&"}, {"<<", ">>"}, {"+", "-"}, {"*", "/", "%"}}

func (s *vSh) arith(level int) int {
	if level == len(vShOps) {
		s.space()
		if s.peek("(") {
			s.pos++
			n := s.arith(0)
			s.space()
			if !s.peek(")") {
				s.bad("arithmetic")
			}
			s.pos++
			return n
		}
		t := ""
		if s.peek("$") {
			v, ok := s.dollar(false)
			if !ok {
				s.bad("arithmetic")
			}
			t = v
		} else if s.pos < len(s.src) && vName(s.src[s.pos], true) {
			t = s.variable(false)
		} else {
			e := s.pos
			for e < len(s.src) && s.src[e] >= '0' && s.src[e] <= '9' {
				e++
			}
			t = s.src[s.pos:e]
			s.pos = e
		}
		n, ok := vAtoi(t)
		if !ok && !s.skipped {
			s.bad("arithmetic")
		}
		return n
	}
	a := s.arith(level + 1)
next:
	for {
		s.space()
		for _, op := range vShOps[level] {
			if s.peek(op) {
				s.pos += len(op)
				b := s.arith(level + 1)
				switch op {
				case "|":
					a |= b
				case "^":
					a ^= b
				case "&":
					a &= b
				case "<<":
					a <<= uint(b)
				case ">>":
					a >>= uint(b)
				case "+":
					a += b
				case "-":
					a -= b
				case "*":
					a *= b
				default:
					if b == 0 {
						if !s.skipped {
							s.bad("division by zero")
						}
						b = 1
					}
					if op == "/" {
						a /= b
					} else {
						a %= b
					}
				}
				continue next
			}
		}
		return a
	}
}

func (s *vSh) run(w []string) {
	s.status = 0
	switch w[0] {
	case "exec":
		if len(w) == 1 {
			return
		}
		s.executed = w[1:]
		s.exited = true
	case "set":
		for _, o := range w[1:] {
			if o == "-e" || o == "-eu" || o == "-ue" {
				s.errexit = true
			} else if o != "-u" {
				s.bad("set")
			}
		}
	case "export":
		if len(w) != 2 {
			s.bad("export")
		}
		for i := 0; i < len(w[1]); i++ {
			if w[1][i] == '=' {
				s.vars[w[1][:i]] = w[1][i+1:]
				break
			}
		}
	case "fi", "then", "else", "elif", "!", "}":
		s.unquoted = true
	case ":", "true":
	case "false":
		s.status = 1
	case "exit":
		s.exited = true
		if len(w) > 1 {
			n, ok := vAtoi(w[1])
			s.status = n
			s.unquoted = s.unquoted || !ok
		}
	case "[", "test":
		a := w[1:]
		if w[0] == "[" {
			if len(a) == 0 || a[len(a)-1] != "]" {
				s.bad("[")
			}
			a = a[:len(a)-1]
		}
		not := len(a) > 1 && a[0] == "!"
		if not {
			a = a[1:]
		}
		yes := false
		switch {
		case len(a) == 2 && (a[0] == "-x" || a[0] == "-e" || a[0] == "-f" || a[0] == "-r" || a[0] == "-s" || a[0] == "-d"):
			yes = s.test(a[0][1], a[1])
		case len(a) == 2 && a[0] == "-n":
			yes = a[1] != ""
		case len(a) == 2 && a[0] == "-z":
			yes = a[1] == ""
		case len(a) == 3 && a[1] == "=":
			yes = a[0] == a[2]
		case len(a) == 3 && a[1] == "!=":
			yes = a[0] != a[2]
		default:
			s.bad("test")
		}
		if yes == not {
			s.status = 1
		}
	case "printf", "/usr/bin/printf":
		if len(w) < 2 {
			s.bad("printf")
		}
		s.printf(w[1], w[2:], w[0] != "printf")
	case "echo":
		newline := true
		a := w[1:]
		if len(a) > 0 && a[0] == "-n" {
			newline = false
			a = a[1:]
		}
		for i, t := range a {
			if i > 0 {
				s.out = append(s.out, ' ')
			}
			for j := 0; j < len(t); j++ {
				if t[j] == '\\' {
					s.bad("echo")
				}
			}
			s.out = append(s.out, t...)
		}
		if newline {
			s.out = append(s.out, '\n')
		}
	case "tr", "/usr/bin/tr":
		if len(w) != 3 {
			s.bad("tr")
		}
		from, to := s.set(w[1]), s.set(w[2])
		var table [256]byte
		for i := range table {
			table[i] = byte(i)
		}
		for i, c := range from {
			if i < len(to) {
				table[c] = to[i]
			} else {
				table[c] = to[len(to)-1]
			}
		}
		for i := 0; i < len(s.in); i++ {
			s.out = append(s.out, table[s.in[i]])
		}
	case "wc", "/usr/bin/wc":
		if len(w) != 2 || w[1] != "-c" {
			s.bad("wc")
		}
		s.out = append(s.out, vItoa(len(s.in))...)
		s.out = append(s.out, '\n')
	case "cat":
		if len(w) != 1 {
			s.bad("cat")
		}
		s.out = append(s.out, s.in...)
	default:
		s.bad("another command")
	}
}

// set lists the bytes of an operand of tr.
func (s *vSh) set(t string) (out []byte) {
	for i := 0; i < len(t); {
		if t[i] == '[' && i+1 < len(t) && t[i+1] == ':' {
			e := i + 2
			for e < len(t) && t[e] != ':' {
				e++
			}
			if e+1 >= len(t) || t[i+2:e] != "cntrl" {
				s.bad("class of tr")
			}
			for c := 0; c < 32; c++ {
				out = append(out, byte(c))
			}
			out = append(out, 127)
			i = e + 2
			continue
		}
		c := t[i]
		i++
		if c == '\\' && i < len(t) {
			c, i = s.escape(t, i, false)
		}
		if i+1 < len(t) && t[i] == '-' {
			d := t[i+1]
			i += 2
			if d == '\\' && i < len(t) {
				d, i = s.escape(t, i, false)
			}
			for ; c < d; c++ {
				out = append(out, c)
			}
		}
		out = append(out, c)
	}
	return
}

// escape decodes the escape sequence after a backslash.
func (s *vSh) escape(t string, i int, hex bool) (byte, int) {
	c := t[i]
	i++
	switch c {
	case 'n':
		return '\n', i
	case 't':
		return '\t', i
	case 'r':
		return '\r', i
	case '\\', '"', '\'':
		return c, i
	case 'x':
		if !hex {
			s.bad("\\x")
		}
		v, k := 0, 0
		for ; k < 2 && i < len(t); k++ {
			d := t[i]
			switch {
			case d >= '0' && d <= '9':
				v = v*16 + int(d-'0')
			case d >= 'a' && d <= 'f':
				v = v*16 + int(d-'a') + 10
			case d >= 'A' && d <= 'F':
				v = v*16 + int(d-'A') + 10
			default:
				d = 0
			}
			if d == 0 {
				break
			}
			i++
		}
		if k == 0 {
			s.bad("\\x")
		}
		return byte(v), i
	}
	if c < '0' || c > '7' {
		s.bad("escape")
	}
	v := int(c - '0')
	for k := 1; k < 3 && i < len(t) && t[i] >= '0' && t[i] <= '7'; k++ {
		v = v*8 + int(t[i]-'0')
		i++
	}
	return byte(v), i
}

func (s *vSh) printf(f string, args []string, hex bool) {
	for {
		used := false
		for i := 0; i < len(f); {
			c := f[i]
			i++
			if c == '\\' && i < len(f) {
				c, i = s.escape(f, i, hex)
				s.out = append(s.out, c)
				continue
			}
			if c != '%' || i >= len(f) {
				s.out = append(s.out, c)
				continue
			}
			zero := f[i] == '0'
			width := 0
			for i < len(f) && f[i] >= '0' && f[i] <= '9' {
				width = width*10 + int(f[i]-'0')
				i++
			}
			if i >= len(f) {
				s.bad("printf format")
			}
			c = f[i]
			i++
			if c == '%' {
				s.out = append(s.out, '%')
				continue
			}
			a := ""
			if len(args) > 0 {
				a = args[0]
				args = args[1:]
				used = true
			}
			switch c {
			case 's':
			case 'd', 'x', 'o':
				n := 0
				if a != "" {
					v, ok := vAtoi(a)
					if !ok || v < 0 {
						s.bad("printf number")
					}
					n = v
				}
				base := 10
				if c == 'x' {
					base = 16
				} else if c == 'o' {
					base = 8
				}
				a = ""
				for {
					a = "0123456789abcdef"[n%base:n%base+1] + a
					n /= base
					if n == 0 {
						break
					}
				}
			default:
				s.bad("printf format")
			}
			for k := len(a); k < width; k++ {
				if zero && c != 's' {
					s.out = append(s.out, '0')
				} else {
					s.out = append(s.out, ' ')
				}
			}
			s.out = append(s.out, a...)
		}
		if !used || len(args) == 0 {
			return
		}
	}
}

// vScript runs a complete script.
func vScript(text string, test func(byte, string) bool) *vSh {
	return vScriptIn(text, false, test)
}

func vScriptIn(text string, chars bool, test func(byte, string) bool) *vSh {
	const sh = "#!/bin/sh"
	verif.Assert(len(text) > len(sh) && text[:len(sh)] == sh, "the wrapper is a shell script")
	s := vShell(text)
	s.test = test
	s.chars = chars
	i := len(sh)
	for i < len(text) && text[i] != '\n' {
		if text[i] == 'e' {
			s.errexit = true
		}
		i++
	}
	s.pos = i
	for s.pos < len(s.src) && !s.exited && !s.unquoted {
		// nothing after an exit is read
		at := s.pos
		s.list(false)
		if s.pos == at {
			s.unquoted = true
		}
	}
	if s.pos < len(s.src) && !s.exited {
		s.unquoted = true
	}
	return s
}
