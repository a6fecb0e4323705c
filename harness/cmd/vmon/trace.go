package main

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"unicode/utf8"

	config "github.com/breml/logstash-config"

	"verif/harness/gen"
	"verif/harness/ref"
)

// ---- C33: statistics and debug output describe the parse

// tracer checks the debug output of one parse line by line.
type tracer struct {
	s     string
	pos   []string // offset -> how the trace shows it
	tail  []string
	stack []frame
	// exprs is the number of expressions entered, choices the number of ordered
	// choices per rule and outcome.
	exprs   int
	choices map[string]map[string]int
	rules   int
	matches int
	depth   int
	max     int
	far     int
}

type frame struct {
	name  string
	start int
	kids  int // expressions directly below
	back  int // alternatives given up
}

func newTracer(s string) *tracer {
	tr := &tracer{s: s, choices: map[string]map[string]int{}}
	line, col := 1, 0
	for i := 0; ; {
		r, w := rune(utf8.RuneError), 0
		if i < len(s) {
			r, w = utf8.DecodeRuneInString(s[i:])
		}
		// A line break counts as column 0 of the line it starts.
		if col++; r == '\n' {
			line, col = line+1, 0
		}
		for len(tr.pos) < i {
			tr.pos = append(tr.pos, "")
		}
		tr.pos = append(tr.pos, fmt.Sprintf("%d:%d:%d: ", line, col, i))
		tr.tail = append(tr.tail, make([]string, i-len(tr.tail))...)
		tr.tail = append(tr.tail, fmt.Sprintf(" [%#U]\n", r))
		if w == 0 {
			return tr
		}
		i += w
	}
}

// isExpr says whether a frame is the evaluation of one expression.
func isExpr(name string) bool {
	return strings.HasPrefix(name, "parse") && !strings.HasPrefix(name, "parseRule ")
}

// run reads the whole output; memo: results may come from the memory.
func (tr *tracer) run(out string) error {
	for len(out) > 0 {
		d := 0
		for d < len(out) && out[d] == ' ' {
			d++
		}
		kind := ""
		switch {
		case strings.HasPrefix(out[d:], "> "):
			kind = ">"
		case strings.HasPrefix(out[d:], "< "):
			kind = "<"
		case strings.HasPrefix(out[d:], "MATCH "):
			kind = "MATCH"
		default:
			return fmt.Errorf("unknown line %q", cut(out))
		}
		rest := out[d+len(kind)+1:]
		f := strings.SplitN(rest, ":", 4)
		if len(f) < 4 {
			return fmt.Errorf("incomplete line %q", cut(out))
		}
		off, err := strconv.Atoi(f[2])
		if err != nil || off < 0 || off >= len(tr.pos) || tr.pos[off] == "" {
			return fmt.Errorf("line %q names an impossible place", cut(out))
		}
		if off > tr.far {
			tr.far = off
		}
		what := ""
		if kind == "MATCH" {
			if len(tr.stack) == 0 {
				return fmt.Errorf("a match outside of any rule")
			}
			fr := tr.stack[len(tr.stack)-1]
			if !strings.HasPrefix(fr.name, "parse") || off < fr.start {
				return fmt.Errorf("a match in %s at offset %d, begun at %d", fr.name, off, fr.start)
			}
			what = tr.s[fr.start:off]
			tr.matches++
		} else {
			what = strings.TrimPrefix(f[3], " ")
			if k := strings.Index(what, " ["); k >= 0 {
				what = what[:k]
			}
		}
		want := strings.Repeat(" ", d) + kind + " " + tr.pos[off] + what + tr.tail[off]
		if !strings.HasPrefix(out, want) {
			return fmt.Errorf("line %q, expected %q", cut(out[:min(len(out), len(want))]), want)
		}
		out = out[len(want):]
		if err := tr.step(kind, what, d, off); err != nil {
			return err
		}
	}
	if len(tr.stack) > 0 {
		return fmt.Errorf("%s is never left", tr.stack[len(tr.stack)-1].name)
	}
	return nil
}

func (tr *tracer) step(kind, what string, d, off int) error {
	switch kind {
	case ">":
		tr.depth++
		if tr.depth > tr.max {
			tr.max = tr.depth
		}
		if d != tr.depth {
			return fmt.Errorf("%s entered at depth %d, expected %d", what, d, tr.depth)
		}
		if n := len(tr.stack); n > 0 {
			top := &tr.stack[n-1]
			if isExpr(what) {
				top.kids++
			}
			if what == "restoreState" {
				top.back++
			}
		}
		if isExpr(what) {
			tr.exprs++
		}
		if strings.HasPrefix(what, "parseRule ") {
			tr.rules++
		}
		tr.stack = append(tr.stack, frame{name: what, start: off})
	case "<":
		n := len(tr.stack)
		if n == 0 {
			return fmt.Errorf("%s is left but was never entered", what)
		}
		fr := tr.stack[n-1]
		tr.stack = tr.stack[:n-1]
		tr.depth--
		if fr.name != what || d != tr.depth {
			return fmt.Errorf("%s is left at depth %d, expected %s at %d", what, d, fr.name, tr.depth)
		}
		if what == "parseChoiceExpr" {
			rule := ""
			for k := n - 2; k >= 0 && rule == ""; k-- {
				if r := tr.stack[k].name; strings.HasPrefix(r, "parseRule ") {
					rule = strings.TrimPrefix(r, "parseRule ")
				}
			}
			res := "none"
			if fr.kids > fr.back {
				res = strconv.Itoa(fr.kids)
			}
			m := tr.choices[rule]
			if m == nil {
				m = map[string]int{}
				tr.choices[rule] = m
			}
			m[res]++
		}
	}
	return nil
}

// traced parses with debug output and returns that output.
func (t *T) traced(f func()) string {
	name := filepath.Join(t.Dir, "trace")
	out, err := os.Create(name)
	if err != nil {
		panic(err)
	}
	defer os.Remove(name)
	defer out.Close()
	old := os.Stdout
	os.Stdout = out
	defer func() { os.Stdout = old }()
	t.sut("Parse", f)
	out.Seek(0, io.SeekStart)
	b, _ := io.ReadAll(out)
	return string(b)
}

func c33(t *T, s string) {
	if len(s) > 40000 || !utf8.ValidString(s) {
		t.Count("texts_outside_domain", 1)
		return
	}
	r := caseRand(t.Seed, "trace"+s, 0)
	bits := r.Intn(16)
	memo := bits&optMemo != 0
	var st, st2 config.Stats
	const none = "nothing fits"
	var err, err2 error
	limited := r.Intn(8) == 0 && !strings.Contains(s, "max number of exp")
	var opts []config.Option
	opts = append(opts, optList(bits)...)
	opts = append(opts, config.Statistics(&st, none), config.Debug(true))
	if r.Intn(2) == 0 {
		opts[0], opts[len(opts)-1] = opts[len(opts)-1], opts[0]
	}
	t.Eval()
	var limit uint64
	if limited {
		limit = uint64(1 + r.Intn(1+len(s)*20))
		opts = append(opts, config.MaxExpressions(limit))
	}
	out := t.traced(func() { _, err = config.Parse("f", []byte(s), opts...) })
	tr := newTracer(s)
	if e := tr.run(out); e != nil {
		t.FailText(s, "the debug output: %v", e)
	}
	stopped := limited && err != nil && strings.Contains(err.Error(), "max number of expresssions parsed")
	want := uint64(tr.exprs)
	if stopped {
		want++ // the one that was too many
	}
	if st.ExprCnt != want {
		t.FailText(s, "the statistics count %d expressions, the debug output shows %d", st.ExprCnt, want)
	}
	// Choices that were left early are in the debug output only.
	aborted := stopped || strings.Contains(out, "> panic handler") || strings.Contains(out, "panic handler")
	sums := map[string]map[string]int{}
	total := 0
	for id, m := range st.ChoiceAltCnt {
		f := strings.Split(id, " ")
		if len(f) != 2 || len(strings.Split(f[1], ":")) != 2 {
			t.FailText(s, "the statistics have a choice %q", id)
		}
		if tr.choices[f[0]] == nil {
			t.FailText(s, "the statistics have a choice %q of a rule without choices", id)
		}
		if sums[f[0]] == nil {
			sums[f[0]] = map[string]int{}
		}
		for alt, n := range m {
			if alt == none {
				alt = "none"
			} else if k, err := strconv.Atoi(alt); err != nil || k < 1 {
				t.FailText(s, "the statistics have an alternative %q of %q", alt, id)
			}
			if n <= 0 {
				t.FailText(s, "the statistics count alternative %q of %q %d times", alt, id, n)
			}
			sums[f[0]][alt] += n
			total += n
		}
	}
	shown := 0
	for rule, m := range tr.choices {
		a, b := 0, 0
		for alt, n := range m {
			shown += n
			a += n
			b += sums[rule][alt]
			if !memo && !aborted && sums[rule][alt] != n {
				t.FailText(s, "rule %s: alternative %s is taken %d times in the debug output, %d times in the statistics", rule, alt, n, sums[rule][alt])
			}
		}
		c := 0
		for _, n := range sums[rule] {
			c += n
		}
		if c > a || !aborted && c != a {
			t.FailText(s, "rule %s: %d choices in the debug output, %d in the statistics", rule, a, c)
		}
		_ = b
	}
	// Without debug output, everything is the same.
	opts2 := append([]config.Option{config.Statistics(&st2, none)}, optList(bits)...)
	if limited {
		opts2 = append(opts2, config.MaxExpressions(limit))
	}
	quiet := t.traced(func() { _, err2 = config.Parse("f", []byte(s), opts2...) })
	if quiet != "" {
		t.FailText(s, "output without the debug option: %q", cut(quiet))
	}
	if fmt.Sprint(err) != fmt.Sprint(err2) {
		t.FailText(s, "with debug output the error is %v, without %v", err, err2)
	}
	if a, b := fmt.Sprint(st), fmt.Sprint(st2); a != b {
		t.FailText(s, "with debug output the statistics are %s, without %s", a, b)
	}
	if err == nil && tr.far != len(s) {
		t.FailText(s, "accepted, but the debug output ends at offset %d of %d", tr.far, len(s))
	}
	t.Count("trace_lines", strings.Count(out, "\n"))
	t.Count("expressions", tr.exprs)
	t.Count("choices", shown)
	t.Count("matches", tr.matches)
	switch {
	case stopped:
		t.Count("stopped_by_limit", 1)
	case err == nil:
		t.Count("accepted", 1)
	case aborted:
		t.Count("aborted", 1)
	default:
		t.Count("rejected", 1)
	}
	if memo {
		t.Count("memoized", 1)
	}
	t.Distinct(s, fmt.Sprint(bits, limit))
	if len(s) > 10 && len(s) < 60 {
		t.Sample("%q: %d expressions, %d choices, depth %d", s, tr.exprs, shown, tr.max)
	}
}

func c33Case(t *T, i int, r *rand.Rand) {
	s, ok := t.systematic(i)
	if !ok {
		s = poolText(r)
		if r.Intn(3) == 0 {
			s = validText(r)
		}
	}
	if len(s) > 1500 {
		s = s[:r.Intn(200)]
	}
	if i%100 == 37 { // one long literal, comment, name or white space
		n := gen.DictInt(r, 3000)
		if r.Intn(3) == 0 {
			n = 256<<r.Intn(7) + r.Intn(9) - 4
		}
		l := []string{"\"%s\"", "'%s'", "#%s\n 1", "%s", "[%s]", "%s 1"}
		k := r.Intn(len(l))
		pad := strings.Repeat([]string{"x", "é", "#", "\n"}[r.Intn(4)], n)
		switch k {
		case 3, 4:
			pad = strings.Repeat("x", n)
		case 2:
			pad = strings.Repeat("#", n)
		case 5:
			pad = strings.Repeat(" ", n)
		}
		s = "input { a { b => " + fmt.Sprintf(l[k], pad) + " } }"
		t.Count("long_matches", 1)
	}
	if i%1000 == 41 { // deep nesting
		n := 20 + r.Intn(150)
		switch r.Intn(4) {
		case 0:
			s = "input { a { b => " + strings.Repeat("[", n) + strings.Repeat("]", n) + " } }"
		case 1:
			s = "input { a { b => " + strings.Repeat("{ cc => ", n) + "1" + strings.Repeat("}", n) + " } }"
		case 2:
			s = "input { " + strings.Repeat("if [a] { ", n) + "p {}" + strings.Repeat("}", n) + " }"
		case 3:
			s = "filter { if " + strings.Repeat("!(", n/4) + "[a]" + strings.Repeat(")", n/4) + " {} }"
		}
		if r.Intn(4) == 0 {
			s = s[:len(s)-3]
		}
		t.Count("deep_texts", 1)
	}
	c33(t, s)
}

func init() {
	n := gen.NumSystematic()
	_ = ref.Parse
	register(&Monitor{ID: "C33", Stride: 64, Quick: n/64 + 1500, Thorough: n/4 + 60000, Case: c33Case, Text: c33,
		Need: []string{"accepted", "rejected", "aborted", "stopped_by_limit", "memoized", "long_matches", "deep_texts", "choices", "matches"},
		Rule: "parses with debug output, each line checked by a push-down monitor and counted against the statistics; distinct: texts with options"})
}
