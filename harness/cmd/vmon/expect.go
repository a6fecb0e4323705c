package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	config "github.com/breml/logstash-config"

	"verif/harness/gen"
	"verif/harness/ref"
)

// ---- C34: the list of expected items in an error

const noMatch = "no match found, expected: "

// An item of the list.
type item struct {
	show  string
	lit   string
	class *regexp.Regexp
	eof   bool
}

// starts says whether s starts with something that the item stands for.
func (i item) starts(s string) bool {
	switch {
	case i.eof:
		return s == ""
	case i.class != nil:
		return i.class.MatchString(s)
	}
	return strings.HasPrefix(s, i.lit)
}

// items reads the list at the end of an error message.
func items(list string) (l []item, ok bool) {
	for list != "" {
		var x item
		switch {
		case strings.HasPrefix(list, "EOF"):
			x = item{show: "EOF", eof: true}
		case list[0] == '"':
			q, err := strconv.QuotedPrefix(list)
			if err != nil {
				return l, false
			}
			x.show = q
			x.lit, _ = strconv.Unquote(q)
		case list[0] == '[':
			j := 1
			if j < len(list) && list[j] == '^' {
				j++
			}
			if j < len(list) && list[j] == ']' {
				j++
			}
			for j < len(list) && list[j] != ']' {
				if list[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(list) {
				return l, false
			}
			x.show = list[:j+1]
			re, err := regexp.Compile(`^(?s:` + x.show + `)`)
			if err != nil { // single characters come before the ranges
				re, err = regexp.Compile(`^(?s:` + strings.Replace(x.show, "-", `\-`, 1) + `)`)
			}
			if err != nil {
				return l, false
			}
			x.class = re
		case strings.HasPrefix(list, "."):
			x.show, x.class = ".", anyChar
		default:
			return l, false
		}
		l = append(l, x)
		list = list[len(x.show):]
		switch {
		case strings.HasPrefix(list, ", "):
			list = list[2:]
		case strings.HasPrefix(list, " or "):
			list = list[4:]
		case list != "":
			return l, false
		}
	}
	return l, len(l) > 0
}

var anyChar = regexp.MustCompile(`^(?s:.)`)

var probes = []string{"{", "}", "[", "]", "(", ")", ",", "=>", "==", "!=", "=~", "!~", "<=", ">=", "<", ">", "=", "!", "~",
	"and", "or", "xor", "nand", "in", "not ", "not", "if", "else", "input", "filter", "output", "\"", "'", "/", "#", ".", "-", "0", "5", "9",
	"a", "z", "A", "Z", "_", " ", "\t", "\n", "\r", "\\", "\\\"", "é", "\u00a0", "\u2028", "@", "$", "%", "&", "*", "+", ":", ";", "?", "^", "`", "|", "\x00", "\x7f", "𝄞", "plugin", "fi", "el", "els", "no", "\v", "\f", "\u0085"}

func c34(t *T, s string) {
	if !utf8.ValidString(s) || strings.Contains(s, "no match found") {
		return // the message would be ambiguous
	}
	r := caseRand(34, s, 1)
	var opts []config.Option
	if r.Intn(4) == 0 {
		opts = append(opts, config.IgnoreComments(true))
	}
	o := t.parse("", s, opts...)
	if o.err == nil {
		t.Count("accepted", 1)
		return
	}
	text := o.err.Error()
	e := t.errorPos(s, "", o)
	k := strings.Index(text, noMatch)
	if k < 0 {
		t.Count("given_up", 1)
		return
	}
	list, ok := items(text[k+len(noMatch):])
	if !ok {
		t.FailText(s, "the list of expected items cannot be read: %q", text)
	}
	t.missing(s, o)
	if strings.Contains(s[strings.LastIndexByte(s[:e], '\n')+1:e], "#") {
		t.Count("ends_in_a_comment", 1) // which a continuation would belong to
		return
	}
	t.Count("lists", 1)
	for a := range list {
		for b := range list[:a] {
			if list[a].show == list[b].show {
				t.FailText(s, "the error lists %s twice: %q", list[a].show, text)
			}
		}
	}
	from := e - 6
	if from < 0 {
		from = 0
	}
	t.Distinct(text[k:], s[from:e])
	t.Count(fmt.Sprintf("lists_of_%02d", len(list)), 1)
	// A reader of the text up to the error knows as much as the parser.
	try := func(tok string) {
		x := s[:e] + tok
		if e > 0 && (s[e-1] == '<' || s[e-1] == '>') && strings.HasPrefix(tok, "=") {
			return // another operator
		}
		want := ""
		for _, i := range list {
			if i.starts(tok) {
				want = i.show
			}
		}
		p := t.parse("", x, opts...)
		t.Eval()
		how := ""
		progress := true
		if p.err == nil {
			how = "is accepted"
			t.Count("continuations_accepted", 1)
		} else {
			f := t.errorPos(x, "", p)
			progress = f > e
			how = "is rejected with " + strconv.Quote(p.err.Error())
			if !strings.Contains(p.err.Error(), noMatch) && !progress {
				t.Count("continuations_given_up", 1)
				return
			}
		}
		t.Count("continuations", 1)
		switch {
		case want != "" && !progress:
			t.FailText(s, "at offset %d %s is expected, but with %q there the text %s", e, want, tok, how)
		case want == "" && progress:
			t.FailText(s, "at offset %d there is %q expected, but with %q there the text %s", e, text[k+len(noMatch):], tok, how)
		}
	}
	try("")
	for _, i := range list {
		switch {
		case i.eof:
		case i.class != nil:
			for n := 0; n < 3; n++ {
				try(probes[r.Intn(len(probes))])
			}
		default:
			try(i.lit)
			if n := len(i.lit); n > 1 {
				try(i.lit[:n-1])
			}
		}
	}
	for n := 0; n < 12; n++ {
		tok := probes[r.Intn(len(probes))]
		switch r.Intn(10) {
		case 0:
			tok = string(rune(0x20 + r.Intn(0x5f)))
		case 1:
			tok = gen.DictWord(r)
		case 2:
			tok = gen.DictString(r, "\x00")
		case 3:
			tok = strings.ToUpper(tok)
		}
		try(tok)
	}
	if len(s) < 60 {
		t.Sample("%q: %q", s, text)
	}
}

// remedies says what is missing according to a failure of the report.
var remedies = map[string][]string{
	"expect closing curly bracket":                   {"}"},
	"expect plugin type (input, filter, output)":     {"input", "filter", "output"},
	"invalid value":                                  {"5", `"x"`, "bare", "[ 1 ]"},
	"expect in operator (in)":                        {" in "},
	"expect not in operator (not in)":                {" not in "},
	"invalid value for expression":                   {" 5", "[a]", ` "x"`},
	"expect compare operator (==, !=, <=, >=, <, >)": {"==", "!=", "<=", " >="},
	"expect regexp comparison operator (=~, !~)":     {"=~", "!~"},
	"expect boolean operator (and, or, xor, nand)":   {" and ", " or ", " xor ", " nand "},
	"expect closing square bracket":                  {"]"},
}

// missing checks the failures of the report: with what each of them asks for
// at the reported place, the parser gets further.
func (t *T) missing(s string, o outcome) {
	if !o.hasRep {
		return
	}
	m := repLine.FindStringSubmatch(o.report)
	if m == nil {
		t.FailText(s, "the failure report has an unknown form: %q", o.report)
	}
	p := atoi(m[4])
	for _, l := range strings.Split(m[6], "\n") {
		if l == "" {
			continue
		}
		toks := remedies[strings.TrimPrefix(l, "-> ")]
		if toks == nil {
			t.Count("other_failures", 1)
			continue
		}
		for _, tok := range toks {
			ok, how := false, ""
			for _, sep := range []string{"", "\n"} { // the place may be in a comment
				x := s[:p] + sep + tok
				q := t.parse("", x)
				t.Eval()
				if q.err == nil || !strings.Contains(q.err.Error(), noMatch) || t.errorPos(x, "", q) > p {
					ok = true
				} else if m := repLine.FindStringSubmatch(q.report); q.hasRep && m != nil && atoi(m[4]) > p {
					ok = true
				}
				if ok {
					break
				}
				how += fmt.Sprintf(" %q", q.err)
			}
			if !ok {
				t.FailText(s, "the report says %q at offset %d, but %q there does not help:%s", l, p, tok, how)
			}
			t.Count("remedies", 1)
			t.Count("remedies_for_"+strings.TrimPrefix(l, "-> "), 1)
		}
	}
}

func c34Case(t *T, i int, r *rand.Rand) {
	if s, ok := t.systematic(i); ok {
		c34(t, s)
		return
	}
	switch r.Intn(3) {
	case 0:
		s := gen.Mutate(r, gen.Config(r))
		c34(t, s)
		return
	case 1:
		c34(t, textCase(t, 1<<40, r))
		return
	}
	// A place between two parts of a valid text.
	s := validText(r)
	m := ref.Parse(s)
	if !m.OK || len(m.Gaps) == 0 {
		return
	}
	g := m.Gaps[r.Intn(len(m.Gaps))]
	p := g.From + r.Intn(g.To-g.From+1)
	c34(t, s[:p]+"\x01"+s[p:])
}

func init() {
	n := gen.NumSystematic()
	register(&Monitor{ID: "C34", Stride: 16, Quick: n/16 + 30000, Thorough: n + 1500000, Case: c34Case, Text: c34,
		Need: []string{"lists", "continuations", "continuations_accepted"},
		Rule: "systematic texts, damaged texts, valid texts with a character inserted; each rejected text is cut off at the error and continued with listed and other items; evaluations: continuations; distinct: lists of expected items with the six bytes before"})
}
