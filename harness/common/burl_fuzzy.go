// helpers shared by the harnesses of this package
package burl_fuzzy

func vmin(a, b int) int {
	if b < a {
		return b
	}
	return a
}

func vne(c bool) int {
	if c {
		return 0
	}
	return 1
}

// minimal number of edits turning p into some substring of w; every
// substring is compared with the full matrix of the textbook recurrence
func vdistance(p, w []rune) int { return vdistanceFrom(p, w, len(w)) }

// only for substrings that begin among the first characters
func vdistanceFrom(p, w []rune, last int) int {
	best := len(p)
	for s := 0; s <= last; s++ {
		d := make([][]int, len(p)+1)
		for i := range d {
			d[i] = make([]int, len(w)-s+1)
			for j := range d[i] {
				switch {
				case i == 0:
					d[i][j] = j
				case j == 0:
					d[i][j] = i
				default:
					a, b := p[i-1], w[s+j-1]
					m := vmin(d[i-1][j]+1, d[i][j-1]+1)
					m = vmin(m, d[i-1][j-1]+vne(a == b))
					if i > 1 && j > 1 {
						if a == w[s+j-2] && p[i-2] == b {
							m = vmin(m, d[i-2][j-2]+1)
						}
					}
					d[i][j] = m
				}
			}
		}
		for j := range d[len(p)] {
			best = vmin(best, d[len(p)][j])
		}
	}
	return best
}

func vlower(s string) []rune {
	var r []rune
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'A' && c <= 'Z' {
			c += 32
		}
		r = append(r, rune(c))
	}
	return r
}
