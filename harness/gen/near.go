package gen

import (
	"math/rand"
	"strings"
	"unicode"
)

// Near draws a text which differs little from s: in the case of letters, in
// blanks at an end, in one character, in how a character is written. Code which
// compares texts must tell them apart (or find them equal, for Near may give s
// itself).
func Near(r *rand.Rand, s string) string {
	rs := []rune(s)
	at := func() int { return r.Intn(len(rs)) }
	if len(rs) == 0 {
		return []string{"", " ", "\t", "x", "0", "-", "\u200b"}[r.Intn(7)]
	}
	switch r.Intn(20) {
	case 0, 1:
		return s
	case 2:
		return strings.ToUpper(s)
	case 3:
		return strings.ToLower(s)
	case 4:
		i := at()
		if c := unicode.ToUpper(rs[i]); c != rs[i] {
			rs[i] = c
		} else {
			rs[i] = unicode.ToLower(rs[i])
		}
	case 5:
		return s + []string{" ", "  ", "\t", "\n", "\u00a0", "\u200b"}[r.Intn(6)]
	case 6:
		return []string{" ", "\t", "\n", "\ufeff"}[r.Intn(4)] + s
	case 7:
		return string(rs[:len(rs)-1])
	case 8:
		return string(rs[1:])
	case 9:
		i := at()
		return string(rs[:i]) + string(rs[i]) + string(rs[i:])
	case 10:
		return s + []string{"0", "1", "x", "-", "_", ".", "-1", "_copy", ".0", "\\"}[r.Intn(10)]
	case 11:
		return strings.NewReplacer("-", "_", "_", "-").Replace(s)
	case 12:
		return strings.NewReplacer("e", "\u00e9", "a", "\u0430", "o", "\u03bf").Replace(s)
	case 13:
		return strings.NewReplacer("\u00e9", "e\u0301", "e", "e\u0301").Replace(s)
	case 14:
		return strings.TrimSpace(s)
	case 15:
		if strings.Contains(s, " ") {
			return strings.Replace(s, " ", "  ", 1)
		}
		i := at()
		return string(rs[:i]) + " " + string(rs[i:])
	case 16:
		if strings.ContainsAny(s, "\n\t\\") {
			return strings.NewReplacer("\n", `\n`, "\t", `\t`, `\n`, "\n", `\\`, `\`).Replace(s)
		}
		return "0" + s
	case 17:
		i, j := at(), at()
		rs[i], rs[j] = rs[j], rs[i]
	case 18:
		return s + s
	default:
		i := at()
		rs[i]++
		if rs[i] >= 0xd800 && rs[i] < 0xe000 || rs[i] > unicode.MaxRune || rs[i] < 0x20 {
			rs[i] = 'x'
		}
	}
	return string(rs)
}

// again draws a text near one drawn before for the same purpose, if legal.
func (g *G) again(kind byte, odds int, legal func(string) bool, fresh func() string) string {
	if g.seen == nil {
		g.seen = map[byte][]string{}
	}
	l := g.seen[kind]
	if len(l) > 0 && g.R.Intn(odds) == 0 {
		for i := 0; i < 3; i++ {
			if s := Near(g.R, l[g.R.Intn(len(l))]); legal(s) {
				return s
			}
		}
	}
	s := fresh()
	if len(s) > 200 {
		return s
	}
	if len(l) < 40 {
		g.seen[kind] = append(l, s)
	} else {
		l[g.R.Intn(len(l))] = s
	}
	return s
}

func legalWord(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c == '_' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || i > 0 && '0' <= c && c <= '9') {
			return false
		}
	}
	return len(s) > 1
}

// legalContent reports whether s can stand between delimiters q.
func legalContent(s string, q byte) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == q && (i == 0 || s[i-1] != '\\') {
			return false
		}
	}
	return !strings.HasSuffix(s, `\`)
}
