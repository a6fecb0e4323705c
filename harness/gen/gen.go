// Package gen produces Logstash configuration texts for the monitors: random
// derivations of the grammar with hostile tokens and layouts, and damaged
// variants of them. Everything is a function of the PRNG it is given.
package gen

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
)

// Style is a profile drawn per text, so that each run concentrates on some
// features ("swarm" generation).
type Style struct {
	WS          int     // 0 none, 1 single blank, 2 pretty, 3 wild
	PComment    float64 // a regular comment in a regular gap
	PExc        float64 // a comment in an exceptional gap
	CRLF        bool
	Depth       int
	Fan         int
	NastyStr    float64
	NastyRe     float64
	NastySel    float64
	QuotedNames float64
	OddNames    float64
	BigNums     float64
	PIf         float64
	PHash       float64
	PArray      float64
	PPluginAttr float64
	Sections    int
	IDs         float64 // probability of an id attribute
	IDPool      int     // ids are drawn from this many values: collisions
	Heavy       float64 // probability that a list is long
	LongLit     float64 // probability that a literal or comment is long
	Giant       string  // one construct of this kind is of size GiantN
	GiantN      int
}

// G is a text under construction.
type G struct {
	R *rand.Rand
	S Style
	b strings.Builder
	n int // counter for unique tokens
	// plugins holds the names of the plugins so far, without quotes.
	plugins []string
	// seen holds the texts drawn so far, by purpose.
	seen map[byte][]string
	// Max is the size beyond which the generator only closes what is open.
	Max int
}

// RandomStyle draws a profile.
func RandomStyle(r *rand.Rand) Style {
	p := func(hi float64) float64 {
		if r.Intn(2) == 0 {
			return 0
		}
		return r.Float64() * hi
	}
	return Style{
		WS:          r.Intn(4),
		PComment:    p(0.6),
		PExc:        p(0.4),
		CRLF:        r.Intn(6) == 0,
		Depth:       depth(r),
		Fan:         1 + r.Intn(4),
		NastyStr:    p(1),
		NastyRe:     p(1),
		NastySel:    p(0.8),
		QuotedNames: p(0.5),
		OddNames:    p(0.5),
		BigNums:     p(1),
		PIf:         r.Float64() * 0.6,
		PHash:       p(0.5),
		PArray:      p(0.5),
		PPluginAttr: p(0.3),
		Sections:    r.Intn(5),
		IDs:         p(1),
		IDPool:      1 + r.Intn(12),
		Heavy:       p(0.08),
		LongLit:     p(0.08),
	}
}

// count draws a list length up to n, seldom a long one.
func (g *G) count(n int) int {
	if g.full() {
		return 0
	}
	if g.chance(g.S.Heavy) {
		if g.R.Intn(4) == 0 {
			return DictInt(g.R, 120)
		}
		return n + g.R.Intn(40)
	}
	return g.R.Intn(n + 1)
}

// Config produces one text with a random profile.
func Config(r *rand.Rand) string {
	s := RandomStyle(r)
	if r.Intn(120) == 0 {
		s.makeGiant(r)
	}
	return ConfigStyle(r, s)
}

// makeGiant turns a style into one for a text in which one list, literal or
// nesting is far larger than usual and everything else is small.
func (s *Style) makeGiant(r *rand.Rand) {
	kinds := []string{"sections", "body", "attrs", "array", "hash", "cond", "elseif", "selector", "comments", "literal", "comment", "blank", "branches", "parens", "arrays", "blank"}
	s.Giant = kinds[r.Intn(len(kinds))]
	s.GiantN = 30 << uint(r.Intn(7))
	s.GiantN += r.Intn(s.GiantN)
	dict := r.Intn(2) == 0
	switch s.Giant {
	case "literal", "comment", "blank":
		s.GiantN *= 40 // characters
		switch {
		case r.Intn(4) == 0: // sizes at which small integers overflow
			s.GiantN = []int{1 << 15, 1 << 16, 1 << 16, 1 << 17}[r.Intn(4)] + r.Intn(9) - 4
		case dict:
			s.GiantN = DictInt(r, 100000)
		}
	case "branches", "parens", "arrays":
		s.GiantN = 20 + r.Intn(230) // levels
		if dict {
			s.GiantN = DictInt(r, 250)
		}
	default:
		if dict {
			s.GiantN = DictInt(r, 3000)
		}
	}
	s.Heavy, s.LongLit = 0, 0
	s.Depth, s.Fan = 1+r.Intn(2), 1+r.Intn(2)
	s.PIf, s.PHash, s.PArray = 0.6, 0.5, 0.5
	s.PComment, s.PExc = s.PComment*0.4, s.PExc*0.2
	if s.Sections == 0 {
		s.Sections = 1
	}
}

// giant gives n, or the size of the giant if this is the place for it.
func (g *G) giant(kind string, n int) int {
	if g.S.Giant != kind || g.R.Intn(3) == 0 {
		return n
	}
	g.S.Giant = ""
	return g.S.GiantN
}

// ConfigStyle produces one text.
func ConfigStyle(r *rand.Rand, s Style) string {
	g := &G{R: r, S: s, Max: 150 << uint(r.Intn(6))}
	if s.Giant != "" {
		g.Max = 100000
	}
	g.config()
	return g.b.String()
}

// depth is mostly small, seldom large.
func depth(r *rand.Rand) int {
	if r.Intn(12) == 0 {
		return 5 + r.Intn(20)
	}
	return 1 + r.Intn(4)
}

func (g *G) full() bool { return g.Max > 0 && g.b.Len() > g.Max }

func (g *G) chance(p float64) bool { return p > 0 && g.R.Float64() < p }
func (g *G) w(s string)            { g.b.WriteString(s) }
func (g *G) pick(l ...string) string {
	return l[g.R.Intn(len(l))]
}

func (g *G) nl() string {
	if g.S.CRLF {
		return "\r\n"
	}
	return "\n"
}

// blank emits white space; must: at least one character.
func (g *G) blank(must bool) {
	if g.S.WS > 1 && g.chance(g.S.LongLit) {
		g.w(strings.Repeat(g.pick(" ", "\n", "\t", "\r\n", " \n"), 1+g.R.Intn(300)))
	}
	if n := g.giant("blank", 0); n > 0 {
		g.w(strings.Repeat(g.pick(" ", "\n", "\n", "\t", "\r\n"), n))
	}
	switch g.S.WS {
	case 0:
		if must {
			g.w(g.pick(" ", " ", "\n", "\t"))
		}
	case 1:
		g.w(" ")
	case 2:
		g.w(g.pick(" ", g.nl()+"  ", g.nl(), g.nl()+g.nl()+"    "))
	default:
		k := g.R.Intn(4)
		if must && k == 0 {
			k = 1
		}
		for ; k > 0; k-- {
			g.w(g.pick(" ", "\t", "\n", "\r\n", "  ", "\n \n", "\n\t\n", "\r", "\n\n\n"))
		}
	}
}

// CommentText draws the text of a comment line.
func (g *G) CommentText() string {
	return g.again('#', 14, func(s string) bool { return !strings.ContainsAny(s, "\r\n") }, g.freshComment)
}

func (g *G) freshComment() string {
	g.n++
	if n := g.giant("comment", 0); n > 0 {
		return strings.Repeat(g.pick("l", "#", `"`, "é"), n)
	}
	if g.chance(g.S.LongLit) {
		if g.R.Intn(3) == 0 {
			return strings.Repeat("x", DictInt(g.R, 3000))
		}
		return strings.Repeat(g.pick("long ", "# ", "x", `"`, "é"), 10+g.R.Intn(200))
	}
	switch g.R.Intn(16) {
	case 2:
		return Runs(g.R, "")
	case 1:
		return g.pick("", " ", " x ") + DictString(g.R, "\r\n") + g.pick("", "", " ", " y")
	case 0:
		return g.pick("", " ", "x") + OddRune(g.R) + g.pick("", " ", "y") + OddRune(g.R)
	}
	if g.R.Intn(6) == 0 {
		b := make([]rune, 1+g.R.Intn(12))
		for i := range b {
			b[i] = rune(0x20 + g.R.Intn(0x90))
			if b[i] >= 0x7f && b[i] < 0xa0 {
				b[i] = 'z'
			}
		}
		return string(b)
	}
	return g.pick(
		fmt.Sprintf("c%d", g.n),
		fmt.Sprintf(" note %d", g.n),
		"", " ", "#", "## double",
		` it's "quoted" # twice`,
		` unbalanced " quote`,
		` don't`,
		` { [ ( => ) ] }`,
		" filter { mutate { } }",
		"\ttab\t",
		" trailing blanks   ",
		" ünï☃ 𝄞",
		` back\slash\`,
		" / regex /x",
		" %s %d %!v",
		"!", " id => \"x\"",
	)
}

func (g *G) comments() {
	k := 1
	for g.R.Intn(3) == 0 && k < 5 {
		k++
	}
	if g.chance(g.S.Heavy) {
		k += g.R.Intn(10)
	}
	for k = g.giant("comments", k); k > 0; k-- {
		g.w("#" + g.CommentText() + g.nl())
		if g.R.Intn(4) == 0 {
			g.w(g.pick("\n", "  \n", "\n\n", "\t", "  "))
		}
	}
}

// gap is a place where comments are regular.
func (g *G) gap(must bool) {
	g.blank(must)
	if g.chance(g.S.PComment) {
		g.comments()
		if g.R.Intn(2) == 0 {
			g.blank(false)
		}
	}
}

// gapX is a place where comments are exceptional.
func (g *G) gapX() {
	g.blank(false)
	if g.chance(g.S.PExc) {
		g.comments()
		if g.R.Intn(2) == 0 {
			g.blank(false)
		}
	}
}

func (g *G) config() {
	k := g.S.Sections
	if g.chance(g.S.Heavy) {
		k += g.R.Intn(8)
	}
	if k == 0 && g.R.Intn(4) != 0 {
		k = 1
	}
	g.gap(false)
	for k = g.giant("sections", k); k > 0 && !g.full(); k-- {
		g.w(g.pick("input", "filter", "output"))
		g.gapX()
		g.w("{")
		g.body(g.S.Depth)
		g.gap(false)
		g.w("}")
		g.gap(false)
	}
	if g.R.Intn(6) == 0 {
		g.w("#" + g.CommentText()) // ends at end of file
	}
}

func (g *G) body(d int) {
	k := g.giant("body", g.count(g.S.Fan))
	for ; k > 0 && !g.full(); k-- {
		g.gap(g.S.WS != 0 || g.R.Intn(2) == 0)
		if n := g.giant("branches", 0); n > 0 {
			for i := 0; i < n; i++ {
				g.w(g.pick("if [a] {", "if [a] == 1 {", "if [a] {} else {", "if [a] { x {} } else if [b] {"))
				g.gap(false)
			}
			g.plugin(0)
			for i := 0; i < n; i++ {
				g.gap(false)
				g.w("}")
			}
			continue
		}
		if d > 0 && g.chance(g.S.PIf) {
			g.branch(d - 1)
		} else {
			g.plugin(d)
		}
	}
}

const wordBytes = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"

// randWord draws a bareword of random characters.
func (g *G) randWord() string {
	n := 2 + g.R.Intn(8)
	if g.chance(g.S.LongLit) {
		n += g.R.Intn(200)
	}
	b := make([]byte, n)
	for i := range b {
		k := len(wordBytes)
		if i == 0 {
			k -= 10
		}
		b[i] = wordBytes[g.R.Intn(k)]
	}
	return string(b)
}

// Word draws a plain name.
func (g *G) Word() string { return g.again('w', 12, legalWord, g.freshWord) }

func (g *G) freshWord() string {
	g.n++
	switch g.R.Intn(16) {
	case 0, 1:
		return g.randWord()
	case 2:
		return DictWord(g.R)
	}
	return g.pick("mutate", "grok", "stdin", "add_field", "type", "match", "tags", "codec", "aa", "Zz_9",
		"x1", "__", "field"+strconv.Itoa(g.n), "message", "tag_on_failure", "plain", "add_tag", "rename", "replace", "host", "path", "target")
}

func (g *G) name(plugin bool) string {
	switch {
	case g.chance(g.S.QuotedNames):
		if g.R.Intn(2) == 0 {
			return g.Str()
		}
		return g.pick(`"`, `'`) + "q" // closed below
	case g.R.Intn(40) == 0:
		return g.dictStr(g.pick(`"`, `'`))
	case g.chance(g.S.OddNames):
		n := g.pick("a", "0", "42", "-", "_", "a-b", "5x", "-5", "if", "in", "and", "not", "input", "filter", "output",
			"or", "iffy", "inner", "elsewhere", "9-9", "_-_", "nand", "xor", "notin", "id", "ID", "i")
		return n
	}
	return g.Word()
}

func (g *G) writeName(plugin bool) {
	n := g.name(plugin)
	if n == `"q` || n == `'q` {
		n = n[:1] + g.pick("quoted", "a b", "x y z", "id", "", "[f][g]", "é") + n[:1]
	}
	g.w(n)
}

func (g *G) plugin(d int) {
	from := g.b.Len()
	g.writeName(true)
	// Ids are made of names.
	if n := strings.Trim(g.b.String()[from:], `"'`); len(n) < 100 && !strings.ContainsAny(n, `"'`) {
		g.plugins = append(g.plugins, n)
	}
	g.gapX()
	g.w("{")
	k := g.giant("attrs", g.count(g.S.Fan+1))
	for i := 0; i < k; i++ {
		g.gap(i > 0)
		if g.chance(g.S.IDs) && g.R.Intn(2) == 0 {
			g.id()
		} else {
			g.attr(g.edge(d, i, k))
		}
	}
	g.gap(false)
	g.w("}")
}

func (g *G) id() {
	g.w(g.pick("id", "id", "id", `"id"`, `'id'`))
	g.gapX()
	g.w("=>")
	g.gapX()
	v := g.again('i', 6, func(s string) bool { return legalContent(s, '"') && legalContent(s, '\'') }, func() string {
		if g.R.Intn(4) == 0 && len(g.plugins) > 0 {
			id := g.plugins[g.R.Intn(len(g.plugins))] + "-" + strconv.Itoa(1+g.R.Intn(len(g.plugins)+2))
			if g.R.Intn(4) == 0 {
				id += "-1"
			}
			return id
		} else if g.R.Intn(3) == 0 {
			return g.pick("mutate-1", "mutate-2", "grok-1", "stdin-1", "aa-3", "type-2")
		} else if g.R.Intn(20) == 0 {
			return strings.TrimRight(DictString(g.R, `"'`), `\`)
		}
		return g.pick("ident", "mutate-1", "mutate-2", "grok-1", "stdin-1", "aa-1", "aa-2", "id", "x") + strconv.Itoa(g.R.Intn(g.S.IDPool))
	})
	switch g.R.Intn(6) {
	case 0:
		g.w("'" + v + "'")
	case 1:
		g.w(g.again('b', 6, legalWord, func() string { return "bare" + strconv.Itoa(g.R.Intn(g.S.IDPool)) }))
	case 2:
		if g.R.Intn(3) == 0 {
			g.w(strconv.Itoa(g.R.Intn(5)))
		} else {
			g.w(`"` + v + `"`)
		}
	default:
		g.w(`"` + v + `"`)
	}
}

func (g *G) attr(d int) {
	g.writeName(false)
	g.gapX()
	g.w("=>")
	g.gapX()
	if d > 0 && g.chance(g.S.PPluginAttr) {
		g.plugin(d - 1)
		return
	}
	g.value(d)
}

func (g *G) value(d int) {
	if n := g.giant("arrays", 0); n > 0 {
		var end []string
		for i := 0; i < n; i++ {
			if g.R.Intn(2) == 0 {
				g.w("[")
				end = append(end, "]")
			} else {
				g.w("{ k => ")
				end = append(end, "}")
			}
			g.gap(false)
		}
		g.value(0)
		for i := n - 1; i >= 0; i-- {
			g.gap(false)
			g.w(end[i])
		}
		return
	}
	if d > 0 {
		if g.chance(g.S.PArray) {
			g.array(d - 1)
			return
		}
		if g.chance(g.S.PHash) {
			g.hash(d - 1)
			return
		}
	}
	switch g.R.Intn(6) {
	case 0:
		g.w(g.pick(g.randWord(), DictWord(g.R), "true", "false", "bareword", "AB", "_x", "a_", "Zz99", "if", "in", "not", "else", "nil"))
	case 1:
		g.w(g.Num())
	case 2:
		if d > 0 {
			if g.R.Intn(2) == 0 {
				g.array(0)
			} else {
				g.hash(0)
			}
			return
		}
		fallthrough
	default:
		g.w(g.Str())
	}
}

func (g *G) array(d int) {
	g.w("[")
	k := g.giant("array", g.count(g.S.Fan+1))
	for i := 0; i < k; i++ {
		g.gap(false)
		g.value(g.edge(d, i, k))
		if i < k-1 {
			g.gapX()
			g.w(",")
		}
	}
	g.gap(false)
	g.w("]")
}

func (g *G) hash(d int) {
	g.w("{")
	k := g.giant("hash", g.count(g.S.Fan+1))
	for i := 0; i < k; i++ {
		g.gap(i > 0)
		switch g.R.Intn(4) {
		case 0:
			g.w(g.Num())
		case 1:
			if g.R.Intn(6) == 0 {
				g.w(DictWord(g.R))
			} else {
				g.w(g.pick("key", "k2", "__x", "Zz", "in", "if", "id"))
			}
		default:
			g.w(g.Str())
		}
		g.gapX()
		g.w("=>")
		g.gapX()
		g.value(g.edge(d, i, k))
	}
	g.gap(false)
	g.w("}")
}

// edge gives the depth for an element of a list; the first and the last
// elements of large lists are of all kinds.
func (g *G) edge(d, i, k int) int {
	if k > 20 && d == 0 && (i == 0 || i == k-1) {
		return 1
	}
	return d
}

// Runs draws a text of a few runs of equal characters.
func Runs(r *rand.Rand, without string) string {
	const all = "#-=*~_.+/<>!@$%^&|:;,?(){}[] \t\\\"'`ax0"
	var b strings.Builder
	for n := []int{1, 1, 1, 2, 2, 3, 4}[r.Intn(7)]; n > 0; n-- {
		c := all[r.Intn(len(all))]
		if r.Intn(4) == 0 {
			c = "#- ="[r.Intn(4)]
		}
		if strings.IndexByte(without, c) < 0 {
			b.WriteString(strings.Repeat(string(rune(c)), 1+r.Intn([]int{3, 12, 40, 90}[r.Intn(4)])))
		}
	}
	return b.String()
}

// OddRune draws a character from the remote parts of Unicode: invisible,
// combining, wide, right-to-left ones, ones with unusual case, and any other.
func OddRune(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0:
		l := []rune("\u0085\u00a0\u00ad\u0130\u0131\u017f\u0300\u0345\u034f\u05d0\u0600\u061c\u0663\u0e33\u115f\u1680\u180e\u200b\u200c\u200d\u200e\u200f\u2028\u2029\u202e\u2060\u2066\u212a\u212b\u3000\u3099\ufe0e\ufe0f\ufdd0\ufeff\uff02\uff03\uff07\uff0f\uff11\uff3b\uff5b\ufff9\ufffc\ufffd\ufffe\uffff\U0001f1e9\U0001f3fd\U0001f468\U000e0001\U0010ffff\U0010fffe\U00010000\ud7ff\ue000\x7f\x01\x1a\x1b\x08")
		return string(l[r.Intn(len(l))])
	case 1:
		return string(rune(0x2000 + r.Intn(0x100)))
	}
	for {
		if c := rune(1 + r.Intn(0x10ffff)); c < 0xd800 || c > 0xdfff {
			if c != '\n' && c != '\r' && c != '"' && c != '\'' && c != '\\' && c != '#' {
				return string(c)
			}
		}
	}
}

// Num draws a number literal.
func (g *G) Num() string {
	if !g.chance(g.S.BigNums) {
		return g.pick("0", "1", "5", "-1", "10", "3.1415", "42", "100", "0.5", "1e"[:1], "-0.25")
	}
	sign := g.pick("", "", "-")
	digits := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + g.R.Intn(10))
		}
		return string(b)
	}
	switch g.R.Intn(11) {
	case 0:
		return sign + digits(1+g.R.Intn(25))
	case 1:
		return sign + "0." + strings.Repeat("0", g.R.Intn(25)) + digits(1+g.R.Intn(18))
	case 2:
		return sign + digits(1+g.R.Intn(10)) + "." + digits(g.R.Intn(20))
	case 3:
		return sign + "1" + strings.Repeat("0", g.R.Intn(60))
	case 4:
		return sign + digits(1+g.R.Intn(5)) + "."
	case 5:
		return sign + g.pick("9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551616",
			"4611686018427387904", "2147483648", "1000000", "999999", "100000", "1000001", "21000000", "123456789", "0.000001", "0.0001", "0.00001234", "1234567.125", "12345678.9", "0.1", "0.30000000000000004",
			"1048576.5", "8388608.0000001", "1e5"[:1])
	case 6:
		return sign + "00" + digits(3)
	case 10:
		return sign + strconv.Itoa(DictInt(g.R, 1<<20)) + g.pick("", "", ".5")
	case 7:
		return sign + digits(280+g.R.Intn(20))
	case 8:
		return sign + "0." + strings.Repeat("0", 290+g.R.Intn(40)) + digits(5)
	default:
		return sign + strconv.Itoa(g.R.Intn(2000))
	}
}

// dictStr draws a literal with a string of the dictionary.
func (g *G) dictStr(q string) string {
	return q + strings.TrimRight(DictString(g.R, q), `\`) + q
}

// content draws the inside of a literal with delimiter q.
func (g *G) content(q byte, nasty float64) string {
	return g.again('c', 14, func(s string) bool { return legalContent(s, q) }, func() string { return g.freshContent(q, nasty) })
}

func (g *G) freshContent(q byte, nasty float64) string {
	if g.R.Intn(12) == 0 {
		s := strings.TrimRight(DictString(g.R, string(q)), `\`)
		switch g.R.Intn(10) {
		case 0:
			s = "a " + s + " b"
		case 1:
			s += "x"
		case 2, 5, 6:
			s += g.content(q, 1)
		case 3:
			s = strings.TrimRight(g.content(q, 1), `\\`) + s
		case 4:
			s += g.content(q, 1)
			s += strings.TrimRight(DictString(g.R, string(q)), `\\`)
		}
		return s
	}
	if g.chance(g.S.LongLit) && g.R.Intn(4) == 0 {
		return strings.Repeat("y", DictInt(g.R, 3000))
	}
	if !g.chance(nasty) {
		return g.pick("value", "a b c", "%{[host][name]}", "2021", "x", "", "tag_1", "/var/log/*.log", "lorem ipsum", "-")
	}
	var b strings.Builder
	k := 1 + g.R.Intn(7)
	if g.chance(g.S.LongLit) {
		k += g.R.Intn(300)
	}
	k = g.giant("literal", k*8) / 8
	for ; k > 0; k-- {
		switch g.R.Intn(31) {
		case 30:
			b.WriteString(Runs(g.R, string(q)+`\`))
		case 28:
			b.WriteString(OddRune(g.R))
		case 29:
			b.WriteString(g.pick("a", "b", " ") + OddRune(g.R) + OddRune(g.R))
		case 26:
			b.WriteRune(rune(0x20 + g.R.Intn(0x300)))
		case 27:
			b.WriteByte(byte(0x20 + g.R.Intn(0x5f)))
		case 0:
			b.WriteString(`\` + string(q))
		case 1:
			b.WriteString(`"`)
		case 2:
			b.WriteString(`'`)
		case 3:
			b.WriteString("#")
		case 4:
			b.WriteString("\n")
		case 5:
			b.WriteString("\n  # not a comment\n")
		case 6:
			b.WriteString("\r\n")
		case 7:
			b.WriteString("{ ")
		case 8:
			b.WriteString(" }")
		case 9:
			b.WriteString("=>")
		case 10:
			b.WriteString("[a]")
		case 11:
			b.WriteString("]")
		case 12:
			b.WriteString("/")
		case 13:
			b.WriteString(`\n`)
		case 14:
			b.WriteString(`\\`)
		case 15:
			b.WriteString("%{[x]}")
		case 16:
			b.WriteString("é☃𝄞")
		case 17:
			b.WriteString("\t")
		case 18:
			b.WriteString("\n\n\n")
		case 19:
			b.WriteString("   \n   ")
		case 20:
			b.WriteString(`\`)
		case 21:
			b.WriteString(" ")
		case 22:
			b.WriteString("\x00\x7f\u00a0\ufeff\u2028\ufffd")
		case 23:
			b.WriteString("if [a] == 1 { x {} }")
		case 24:
			b.WriteString(",")
		default:
			b.WriteString(g.Word())
		}
	}
	// Make it a legal inside: no bare delimiter, no trailing backslash.
	in := b.String()
	var o strings.Builder
	for i := 0; i < len(in); i++ {
		c := in[i]
		if c == q && !strings.HasSuffix(o.String(), `\`) {
			o.WriteByte('\\')
		}
		o.WriteByte(c)
	}
	return strings.TrimRight(o.String(), `\`)
}

// Str draws a quoted string literal.
func (g *G) Str() string {
	q := g.pick(`"`, `"`, `'`)
	return q + g.content(q[0], g.S.NastyStr) + q
}

// Regexp draws a regular expression literal.
func (g *G) Regexp() string {
	if !g.chance(g.S.NastyRe) {
		return g.pick(`/.*/`, `/^foo$/`, `/[0-9]+/`, `/a\/b/`, `/(?i)err|warn/`, `//`)
	}
	if g.R.Intn(3) == 0 { // a prefix or suffix that the code may know
		a, b := strings.TrimRight(DictString(g.R, "/"), `\`), g.content('/', 1)
		if g.R.Intn(4) == 0 {
			a, b = b, a
		}
		return "/" + a + b + "/"
	}
	return "/" + g.content('/', 1) + "/"
}

// Selector draws a field reference.
func (g *G) Selector() string {
	var b strings.Builder
	k := 1
	for k < 5 && g.R.Intn(3) == 0 {
		k++
	}
	for k = g.giant("selector", k); k > 0; k-- {
		e := g.pick("field", "message", "@metadata", "host", "a", "0", "tags", "-1", "log.level", "x_y")
		switch g.R.Intn(16) {
		case 0, 1:
			e = g.randWord()
		case 3:
			if e = Runs(g.R, "[],"); e == "" {
				e = "e"
			}
		case 2:
			if e = DictString(g.R, "[],"); e == "" {
				e = "e"
			}
		}
		if g.chance(g.S.NastySel) {
			e = g.pick("it's", `say "hi"`, `"`, `'`, "a#b", "a/b", " ", "with space", "a=>b", "{", "}", "é☃", "#", "/", `\`, "(", "!", "$%&", "line\nbreak", "x\r\ny", "\ttab", `a'b"c`, "in", "1 == 1")
		}
		b.WriteString("[" + g.again('s', 14, func(s string) bool { return s != "" && !strings.ContainsAny(s, "[],") }, func() string { return e }) + "]")
	}
	return b.String()
}

func (g *G) branch(d int) {
	g.w("if")
	g.condGap()
	g.cond(d)
	g.gapX()
	g.w("{")
	g.body(d)
	g.gap(false)
	g.w("}")
	elseifs := 0
	for g.R.Intn(3) == 0 && elseifs < 6 {
		elseifs++
	}
	if g.chance(g.S.Heavy) {
		elseifs += g.R.Intn(15)
	}
	elseifs = g.giant("elseif", elseifs)
	for ; !g.full() && elseifs > 0; elseifs-- {
		g.gap(false)
		g.w("else")
		g.gapX()
		g.w("if")
		g.condGap()
		g.cond(d)
		g.gapX()
		g.w("{")
		g.body(d)
		g.gap(false)
		g.w("}")
	}
	if g.R.Intn(2) == 0 {
		g.gap(false)
		g.w("else")
		g.gapX()
		g.w("{")
		g.body(d)
		g.gap(false)
		g.w("}")
	}
}

func (g *G) condGap() {
	g.gapX()
	// "if5 {" without a blank is a plugin name for some readers; keep apart.
	g.w(" ")
}

func (g *G) cond(d int) {
	k := 1
	for k < 6 && g.R.Intn(3) == 0 {
		k++
	}
	if g.chance(g.S.Heavy) {
		k += g.R.Intn(12)
	}
	k = g.giant("cond", k)
	for i := 0; i < k && (i == 0 || !g.full()); i++ {
		if i > 0 {
			g.gapX()
			g.w(g.pick("and", "or", "xor", "nand"))
			g.gapX()
		}
		g.expr(d)
	}
}

func (g *G) expr(d int) {
	if n := g.giant("parens", 0); n > 0 {
		for i := 0; i < n; i++ {
			g.w(g.pick("(", "( ", "!(", "[x] and ("))
			g.gapX()
		}
		g.expr(0)
		for i := 0; i < n; i++ {
			g.gapX()
			g.w(")")
		}
		return
	}
	c := g.R.Intn(12)
	if d <= 0 && (c == 0 || c == 1) {
		c = 4
	}
	switch c {
	case 0:
		g.w("(")
		g.gapX()
		g.cond(d - 1)
		g.gapX()
		g.w(")")
	case 1:
		g.w("!")
		g.gapX()
		g.w("(")
		g.gapX()
		g.cond(d - 1)
		g.gapX()
		g.w(")")
	case 2:
		g.w("!")
		g.gapX()
		g.w(g.Selector())
	case 3, 4:
		g.rvalue(d)
		g.gapX()
		g.w("in")
		g.gapX()
		g.rvalue(d)
	case 5:
		g.rvalue(d)
		g.gapX()
		g.w("not ")
		g.gapX()
		g.w("in")
		g.gapX()
		g.rvalue(d)
	case 6, 7:
		g.rvalue(d)
		g.gapX()
		g.w(g.pick("==", "!=", "<=", ">=", "<", ">"))
		g.gapX()
		g.rvalue(d)
	case 8, 9:
		g.rvalue(d)
		g.gapX()
		g.w(g.pick("=~", "!~"))
		g.gapX()
		if g.R.Intn(3) == 0 {
			g.w(g.Str())
		} else {
			g.w(g.Regexp())
		}
	default:
		g.rvalue(d)
	}
}

func (g *G) rvalue(d int) {
	switch g.R.Intn(8) {
	case 0, 1:
		g.w(g.Str())
	case 2:
		g.w(g.Num())
	case 3:
		g.array(d)
	case 4:
		g.w(g.Regexp())
	default:
		g.w(g.Selector())
	}
}

// Mutate damages a text.
func Mutate(r *rand.Rand, s string) string {
	b := []byte(s)
	for k := 1 + r.Intn(3); k > 0; k-- {
		if len(b) == 0 {
			return string(b)
		}
		i := r.Intn(len(b))
		switch r.Intn(9) {
		case 0: // drop a byte
			b = append(b[:i:i], b[i+1:]...)
		case 1: // drop a piece
			j := i + r.Intn(len(b)-i+1)
			if j-i > 20 {
				j = i + 20
			}
			b = append(b[:i:i], b[j:]...)
		case 2: // insert a token
			t := tokens[r.Intn(len(tokens))]
			if r.Intn(6) == 0 {
				t = DictString(r, "")
			}
			b = append(b[:i:i], append([]byte(t), b[i:]...)...)
		case 3: // replace a byte with a special one
			b[i] = special[r.Intn(len(special))]
		case 4: // truncate
			b = b[:i]
		case 5: // duplicate a piece
			j := i + r.Intn(len(b)-i+1)
			if j-i > 30 {
				j = i + 30
			}
			b = append(b[:j:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
		case 6: // swap two bytes
			j := r.Intn(len(b))
			b[i], b[j] = b[j], b[i]
		case 7: // cut the front
			b = b[i:]
		case 8: // random byte
			b[i] = byte(r.Intn(256))
		}
	}
	return string(b)
}

var special = []byte("{}[]()\"'/#\\=><!~, \n\r\t-.ai5")

var tokens = []string{"{", "}", "[", "]", "(", ")", `"`, "'", "/", "#", "# c\n", "=>", ",", "==", "!=", "=~", "!~", "<", ">", "in", "not in", "not ", "and", "or", "xor", "nand",
	"if", "else", "else if", "input", "filter", "output", "!", "\\", "\n", "\r", " ", "5", "-", "1.5", "word", "[f]", `"s"`, "/r/", "id => 1", "x {}", "input {}", "filter {", "if 1 == 1 { }", "\xff", "\u00e9", "\x00"}

// RandomBytes draws short texts over a hostile alphabet.
func RandomBytes(r *rand.Rand) string {
	var b strings.Builder
	for k := r.Intn(40); k > 0; k-- {
		if r.Intn(3) == 0 {
			b.WriteByte(special[r.Intn(len(special))])
		} else if r.Intn(8) == 0 {
			b.WriteString(DictString(r, ""))
		} else {
			b.WriteString(tokens[r.Intn(len(tokens))])
		}
	}
	return b.String()
}

// RandomValue draws a short string over characters that matter to quoting and
// escaping.
func RandomValue(r *rand.Rand) string {
	parts := []string{`\`, `\\`, `"`, `'`, "\n", "\r", "\t", "n", "r", "t", "a", "B", "_", "7", "é", "☃", "𝄞", "\x00", "\x7f",
		"#", "{", "}", "[", "]", "=>", " ", ",", "\u2028", "\ufeff", "\ufffd", "if", "/", "%{x}", `\"`, `\'`, `\n`, "-", "\v", "\f", "\u0085", "\u00a0",
		"\u017f", "\u212a", "\u0130", "\u0663", "\uff11", "\uff21", "\u00df", "\u203f", "K", "s", "0"}
	var b strings.Builder
	for k := r.Intn(12); k > 0; k-- {
		if r.Intn(12) == 0 {
			b.WriteRune(rune(1 + r.Intn(0xd7fe)))
		} else if r.Intn(10) == 0 {
			b.WriteString(DictString(r, ""))
		} else {
			b.WriteString(parts[r.Intn(len(parts))])
		}
	}
	return b.String()
}
