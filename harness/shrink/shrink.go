// Package shrink minimises failing texts.
package shrink

// Text removes pieces of s as long as fails stays true, within a budget of
// calls.
func Text(s string, budget int, fails func(string) bool) string {
	for {
		before := len(s)
		for n := len(s) / 2; n > 0; n /= 2 {
			for i := 0; i+n <= len(s); {
				if budget--; budget < 0 {
					return s
				}
				t := s[:i] + s[i+n:]
				if fails(t) {
					s = t
				} else {
					i += (n + 1) / 2
				}
			}
		}
		if len(s) == before {
			return s
		}
	}
}
