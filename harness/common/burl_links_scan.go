// reference for the links of a line
package burl_links

// vScheme: length of a configured scheme and colon s begins with, or 0
func vScheme(s string, schemes []string) int {
	for _, c := range schemes {
		n := len(c)
		if len(s) > n && s[:n] == c && s[n] == ':' {
			return n + 1
		}
	}
	return 0
}

// vDelim ends a plain link, vPunct does not belong to its end.
func vDelim(c byte) bool {
	return c == ' ' || c == '\t' || c == '(' || c == ')' || c == '<' || c == '>' || c == '[' || c == ']'
}

func vPunct(c byte) bool {
	return c > ' ' && c < 0x7f && c != '/' && !vWordChar(c) || c == '_'
}

func vWordChar(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_'
}

// vScan is the reference for the links of a line without backslashes and
// parentheses in links.
func vScan(s string, schemes []string) (out []Link) {
	for i := 0; i < len(s); {
		if j, l := vScanBracket(s, i); j > 0 {
			if vScheme(l.URL, schemes) > 0 {
				out = append(out, l)
			}
			i = j
			continue
		}
		if s[i] == '<' {
			if n := vScheme(s[i+1:], schemes); n > 0 {
				j := i + 1 + n
				for j < len(s) && s[j] != '>' {
					j++
				}
				if j < len(s) {
					out = append(out, Link{s[i+1 : j], "", 1})
					i = j + 1
					continue
				}
			}
		}
		if i == 0 || !vWordChar(s[i-1]) {
			if n := vScheme(s[i:], schemes); n > 0 {
				j := i + n
				for j < len(s) && !vDelim(s[j]) {
					j++
				}
				for j > i+n && vPunct(s[j-1]) {
					j--
				}
				if j >= i+n+2 {
					out = append(out, Link{s[i:j], "", 1})
					i = j
					continue
				}
			}
		}
		i++
	}
	return
}

func vScanBracket(s string, i int) (int, Link) {
	if i+1 >= len(s) || s[i] != '[' || s[i+1] != '[' {
		return 0, Link{}
	}
	j := i + 2
	for j < len(s) && s[j] != '[' && s[j] != ']' {
		j++
	}
	if j == i+2 || j+1 >= len(s) || s[j] != ']' {
		return 0, Link{}
	}
	l := Link{s[i+2 : j], "", 1}
	if s[j+1] == '[' {
		for k := j + 3; k+1 < len(s); k++ {
			if s[k] == ']' && s[k+1] == ']' {
				l.Description = s[j+2 : k]
				return k + 2, l
			}
		}
		return 0, Link{}
	}
	if s[j+1] == ']' {
		return j + 2, l
	}
	return 0, Link{}
}

// vScanPlain is the reference for the links of a line of plain text.
func vScanPlain(s string, schemes []string) (out []Link) {
	for i := 0; i < len(s); {
		if i == 0 || !vWordChar(s[i-1]) {
			if n := vScheme(s[i:], schemes); n > 0 {
				j := i + n
				for j < len(s) && !vDelim(s[j]) {
					j++
				}
				for j > i+n && vPunct(s[j-1]) {
					j--
				}
				if j >= i+n+2 {
					out = append(out, Link{s[i:j], "", 1})
					i = j
					continue
				}
			}
		}
		i++
	}
	return
}
