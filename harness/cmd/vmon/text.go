package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"

	"verif/harness/gen"
	"verif/harness/obs"
	"verif/harness/ref"
)

// ---- workload

// systematic returns the i-th systematic text of this run: in the quick tier
// every Stride-th one, starting at a place that depends on the seed.
func (t *T) systematic(i int) (string, bool) {
	stride := 1
	if t.Tier == "quick" && t.Mon.Stride > 1 {
		stride = t.Mon.Stride
	}
	off := int(t.Seed%int64(stride)+int64(stride)) % stride
	if i = i*stride + off; i < gen.NumSystematic() {
		return gen.Systematic(i), true
	}
	return "", false
}

// textCase is the workload mix for properties about all texts.
func textCase(t *T, i int, r *rand.Rand) string {
	if s, ok := t.systematic(i); ok {
		return s
	}
	switch r.Intn(8) {
	case 0, 1, 2:
		if r.Intn(12) == 0 {
			return framed(r, gen.Config(r))
		}
		return gen.Config(r)
	case 3, 4, 5:
		return gen.Mutate(r, gen.Config(r))
	case 6:
		return gen.RandomBytes(r)
	default:
		return validText(r)
	}
}

// framed adds something at the start or the end that other programs may treat
// specially.
func framed(r *rand.Rand, s string) string {
	x := []string{"\ufeff", "\x00", "\x1a", "\xff\xfe", "\xfe\xff", "#!/usr/bin/logstash\n", "# -*- coding: utf-8 -*-\n", "\x1f\x8b\x08", "%YAML 1.1\n---\n", "\\\n", "\u2028", "\f", "\v", "\u00a0", "\xef\xbb", "\n\n\n", "\r", "__END__\n", "//c\n", "/*c*/", ";"}[r.Intn(21)]
	switch r.Intn(4) {
	case 0:
		return s + x
	case 1:
		return x + s + x
	}
	return x + s
}

// validText draws a text that is nearly always valid.
func validText(r *rand.Rand) string {
	s := gen.Config(r)
	switch r.Intn(6) {
	case 0: // comments in any gaps
		m := ref.Parse(s)
		if m.OK {
			var g [][2]int
			for _, x := range m.Gaps {
				g = append(g, [2]int{x.From, x.To})
			}
			return gen.InsertComments(r, s, g)
		}
	case 1:
		k := r.Intn(gen.NumDeep()/4) * 4
		s, _ = gen.Deep(k, 1+r.Intn(30))
	}
	return s
}

// validCase is the workload mix for properties about valid texts.
func validCase(t *T, i int, r *rand.Rand) {
	s, ok := t.systematic(i)
	switch {
	case ok:
	case r.Intn(12) == 0:
		s = gen.Mutate(r, gen.Config(r))
	default:
		s = validText(r)
	}
	t.Mon.Text(t, s)
}

// ---- running the code under test

type outcome struct {
	v      interface{}
	cfg    ast.Config
	err    error
	report string
	hasRep bool
}

// parse runs config.Parse and checks the shape of the outcome, which every
// property takes for granted.
func (t *T) parse(name, s string, opts ...config.Option) outcome {
	var o outcome
	t.sut("Parse", func() {
		o.v, o.err = config.Parse(name, []byte(s), opts...)
		o.report, o.hasRep = config.GetFarthestFailure()
	})
	if o.err == nil {
		c, ok := o.v.(ast.Config)
		if !ok {
			t.FailText(s, "Parse returns %T without an error", o.v)
		}
		o.cfg = c
	}
	return o
}

func (t *T) render(s string, c ast.Config) string {
	var out string
	t.sut("String", func() { out = c.String() })
	return out
}

// accepted parses a text the model accepts; ok is false if the text is outside
// the domain of the properties about valid texts.
func (t *T) accepted(s string, opts ...config.Option) (m ref.Result, o outcome, ok bool) {
	m = ref.Parse(s)
	if !m.OK || m.Disputed != "" {
		t.Count("texts_outside_domain", 1)
		return m, o, false
	}
	o = t.parse("", s, opts...)
	if o.err != nil {
		t.FailText(s, "a valid text is rejected: %v", o.err)
	}
	t.Count("valid_texts", 1)
	return m, o, true
}

// features counts what a valid text contains, for the evidence.
func (t *T) features(root *ref.Node) {
	if t.quiet {
		return
	}
	comments := 0
	ref.Walk(root, func(n *ref.Node) {
		t.counts["node_"+n.Kind]++
		comments += len(n.Pre) + len(n.Post)
	})
	t.counts["comments_regular"] += int64(comments)
}

func plain(n *ref.Node) string { return ref.Dump(n, ref.Opts{}) }

// ---- C01

func c01(t *T, s string) {
	m := ref.Parse(s)
	o := t.parse("", s)
	t.Eval()
	if m.Disputed != "" && !strict {
		t.Count("skipped_"+m.Disputed, 1)
		return
	}
	if strict && m.Disputed == "abort-vs-backtrack" {
		m.OK = true
	}
	if m.OK != (o.err == nil) {
		if m.OK {
			t.FailText(s, "a valid text is rejected: %v", o.err)
		}
		t.FailText(s, "an invalid text is accepted")
	}
	if m.OK {
		t.Count("accepted", 1)
		t.features(m.Root)
		if len(m.Root.Kids) > 0 {
			t.Distinct("ok", plain(m.Root))
		}
		if len(s) > 60 && len(s) < 300 {
			t.Sample("accepted %q", s)
		}
	} else {
		t.Count("rejected", 1)
		if len(s) > 8 {
			t.Distinct("rej", s)
		}
		if len(s) > 20 && len(s) < 100 && m.Far > 10 {
			t.Sample("rejected %q", s)
		}
		if !utf8.ValidString(s) {
			t.Count("rejected_encoding", 1)
		}
	}
}

// ---- C02, C03, C06

func c02(t *T, s string) {
	m, o, ok := t.accepted(s)
	if !ok {
		return
	}
	t.Eval()
	t.features(m.Root)
	want := plain(ref.Group(m.Root))
	got := plain(obs.FromConfig(o.cfg))
	if d := ref.Diff(want, got); d != "" {
		t.Note("want", want)
		t.Note("got", got)
		t.FailText(s, "the tree differs from the text: %s", d)
	}
	if len(m.Root.Kids) > 0 {
		t.Distinct(want)
		if len(s) < 200 {
			t.Sample("%q", s)
		}
	}
}

// commentList lists the comments with the kind of the element they are at.
func commentList(root *ref.Node) string {
	var b strings.Builder
	ref.Walk(root, func(n *ref.Node) {
		for _, c := range n.Pre {
			fmt.Fprintf(&b, "%s before %q\n", n.Kind, c.Text)
		}
		for _, c := range n.Post {
			fmt.Fprintf(&b, "%s inside end %q\n", n.Kind, c.Text)
		}
	})
	return b.String()
}

func c03(t *T, s string) {
	m, o, ok := t.accepted(s)
	if !ok {
		return
	}
	t.Eval()
	t.features(m.Root)
	want, got := ref.Group(m.Root), obs.FromConfig(o.cfg)
	op := ref.Opts{Comments: true}
	var a, b string
	if plain(want) == plain(got) {
		a, b = ref.Dump(want, op), ref.Dump(got, op)
	} else {
		t.Count("trees_differ", 1) // left to C02; the comments are compared in order
		a, b = commentList(want), commentList(got)
	}
	if d := ref.Diff(a, b); d != "" {
		t.Note("want", a)
		t.Note("got", b)
		t.FailText(s, "comments differ: %s", d)
	}
	if cl := commentList(want); cl != "" {
		t.Count("texts_with_regular_comments", 1)
		t.Distinct(a)
		if len(s) < 200 {
			t.Sample("%q", s)
		}
	}
}

func c06(t *T, s string) {
	m, o, ok := t.accepted(s)
	if !ok {
		return
	}
	t.Eval()
	want, got := ref.Group(m.Root), obs.FromConfig(o.cfg)
	if plain(want) != plain(got) {
		t.Count("trees_differ", 1) // left to C02
		return
	}
	op := ref.Opts{Pos: true}
	a, b := ref.Dump(want, op), ref.Dump(got, op)
	if d := ref.Diff(a, b); d != "" {
		t.FailText(s, "positions differ: %s", d)
	}
	n := 0
	ref.Walk(want, func(x *ref.Node) {
		if !x.NoPos {
			n++
			t.Count("pos_"+x.Kind, 1)
		}
		if x.OpPos != (ref.Pos{}) {
			t.Count("pos_operator", 1)
		}
		if x.Bool != "" {
			t.Count("pos_bool_operator", 1)
		}
	})
	if n > 1 {
		t.Count("positions_compared", n)
		t.Distinct(a)
		if len(s) < 200 {
			t.Sample("%q", s)
		}
	}
}

// ---- C04

func stripComments(n *ref.Node) *ref.Node {
	c := *n
	c.Pre, c.Post, c.Kids = nil, nil, nil
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, stripComments(k))
	}
	return &c
}

func c04(t *T, s string) {
	t.Eval()
	a := t.parse("name.conf", s)
	b := t.parse("name.conf", s, config.IgnoreComments(true))
	if (a.err == nil) != (b.err == nil) {
		t.FailText(s, "verdicts differ: normally %v, without comments %v", a.err, b.err)
	}
	if a.report != b.report || a.hasRep != b.hasRep {
		t.FailText(s, "failure reports differ: normally %q, without comments %q", a.report, b.report)
	}
	if a.err != nil {
		if a.err.Error() != b.err.Error() {
			t.FailText(s, "errors differ: normally %q, without comments %q", a.err, b.err)
		}
		t.Count("rejected", 1)
		return
	}
	ta, tb := obs.FromConfig(a.cfg), obs.FromConfig(b.cfg)
	if cl := commentList(tb); cl != "" {
		t.FailText(s, "comments in the tree although they are ignored: %s", cl)
	}
	op := ref.Opts{Pos: true}
	da, db := ref.Dump(stripComments(ta), op), ref.Dump(tb, op)
	if d := ref.Diff(da, db); d != "" {
		t.FailText(s, "trees differ: %s", d)
	}
	if len(b.cfg.Warnings) != len(a.cfg.Warnings) {
		t.FailText(s, "warnings differ: %q, %q", a.cfg.Warnings, b.cfg.Warnings)
	}
	t.Count("accepted", 1)
	if strings.Contains(s, "#") && commentList(ta) != "" {
		t.Count("texts_with_regular_comments", 1)
		t.Distinct(s)
		if len(s) < 200 {
			t.Sample("%q", s)
		}
	}
	// With both options the warnings are those of the warning option alone.
	wa := t.parse("name.conf", s, config.ExceptionalCommentsWarning(true))
	wb := t.parse("name.conf", s, config.ExceptionalCommentsWarning(true), config.IgnoreComments(true))
	if fmt.Sprint(wa.cfg.Warnings) != fmt.Sprint(wb.cfg.Warnings) {
		t.FailText(s, "warnings differ: normally %q, without comments %q", wa.cfg.Warnings, wb.cfg.Warnings)
	}
	t.Count("warnings", len(wa.cfg.Warnings))
}

// ---- C05

// lineCols are the ways to write the position of an offset: in front of a line
// break the parser already counts the next line, column 0.
func lineCols(s string, off int) []string {
	p := ref.PosAt(s, off)
	out := []string{fmt.Sprintf("%d:%d [%d]", p.Line, p.Col, off)}
	if off < len(s) && s[off] == '\n' {
		out = append(out, fmt.Sprintf("%d:0 [%d]", p.Line+1, off))
	}
	return out
}

func c05(t *T, s string) {
	m, o, ok := t.accepted(s, config.ExceptionalCommentsWarning(true))
	if !ok {
		return
	}
	t.Eval()
	w := o.cfg.Warnings
	if len(w) != len(m.Warn) {
		t.FailText(s, "%d warnings for %d stretches with exceptional comments: %q", len(w), len(m.Warn), w)
	}
	for i, off := range m.Warn {
		ok := false
		for _, p := range lineCols(s, off) {
			if endsWithPos(w[i], p) {
				ok = true
			}
		}
		if !ok {
			t.FailText(s, "warning %d is %q, the stretch starts at %s", i, w[i], lineCols(s, off)[0])
		}
	}
	p := t.parse("", s)
	if p.err != nil || len(p.cfg.Warnings) != 0 {
		t.FailText(s, "without the option: error %v, warnings %q", p.err, p.cfg.Warnings)
	}
	p2 := t.parse("", s, config.ExceptionalCommentsWarning(false))
	if p2.err != nil || len(p2.cfg.Warnings) != 0 {
		t.FailText(s, "with the option off: error %v, warnings %q", p2.err, p2.cfg.Warnings)
	}
	op := ref.Opts{Pos: true, Comments: true, Gaps: true}
	if d := ref.Diff(ref.Dump(obs.FromConfig(p.cfg), op), ref.Dump(obs.FromConfig(o.cfg), op)); d != "" {
		t.FailText(s, "the option changes the tree: %s", d)
	}
	// Other options do not change the warnings.
	r := caseRand(t.Seed, "warn"+s, 0)
	bits := r.Intn(8) | optWarn // C14 answers for memoization
	opts := optList(bits)
	r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	p3 := t.parse("", s, opts...)
	if p3.err != nil || strings.Join(p3.cfg.Warnings, "\n") != strings.Join(w, "\n") {
		t.FailText(s, "with the options %04b: error %v, warnings %q instead of %q", bits, p3.err, p3.cfg.Warnings, w)
	}
	t.Count("warnings", len(w))
	if len(w) > 0 {
		t.Count("texts_with_warnings", 1)
		t.Distinct(plain(m.Root), fmt.Sprint(m.Warn))
		if len(s) < 200 {
			t.Sample("%q: %q", s, w)
		}
	} else if strings.Contains(s, "#") {
		t.Count("texts_with_regular_comments_only", 1)
	}
}

// endsWithPos says whether the message shows the position as its own token.
func endsWithPos(msg, p string) bool {
	i := strings.Index(msg, p)
	return i >= 0 && (i == 0 || msg[i-1] < '0' || msg[i-1] > '9')
}

// ---- C07, C08, C09, C10

// blankComments replaces all or all exceptional comments by blanks.
func blankComments(s string, m ref.Result, all bool) string {
	odd := map[int]bool{}
	for _, off := range m.Warn {
		odd[off] = true
	}
	b := []byte(s)
	blank := func(from, to int) {
		for _, c := range m.Comments {
			if from <= c.From && c.To <= to {
				for i := c.From; i < c.To; i++ {
					b[i] = ' '
				}
			}
		}
	}
	if all {
		blank(0, len(s))
		return string(b)
	}
	for _, g := range m.Gaps {
		if odd[g.From] {
			blank(g.From, g.To)
		}
	}
	return string(b)
}

// inFormatDomain excludes the two documented findings.
func (t *T) inFormatDomain(s string, m ref.Result) bool {
	if strict {
		return true
	}
	bad := false
	var look func(kids []*ref.Node)
	look = func(kids []*ref.Node) {
		for i, k := range kids {
			if k.Kind == "branch" && i+1 < len(kids) {
				last := k.Kids[len(k.Kids)-1]
				if last.Kind == "else" && len(last.Kids) == 0 &&
					kids[i+1].Kind == "plugin" && kids[i+1].Text == "else" {
					bad = true
				}
			}
			look(k.Kids)
		}
	}
	look(m.Root.Kids)
	if bad {
		t.Count("skipped_plugin_else_after_empty_else", 1)
		return false
	}
	if len(m.Comments) > 0 {
		for _, all := range []bool{true, false} {
			if !all && len(m.Warn) == 0 {
				continue
			}
			m2 := ref.Parse(blankComments(s, m, all))
			if !m2.OK || plain(m2.Root) != plain(m.Root) {
				t.Count("skipped_structure_depends_on_comment", 1)
				return false
			}
		}
	}
	return true
}

func c07(t *T, s string) {
	m, o, ok := t.accepted(s)
	if !ok || !t.inFormatDomain(s, m) {
		return
	}
	t.Eval()
	t.features(m.Root)
	want := plain(ref.DropEmptyElse(ref.Group(m.Root)))
	out := t.render(s, o.cfg)
	t.formatted(s, want, out)
	o2 := t.parse("", s, config.IgnoreComments(true))
	if o2.err != nil {
		t.FailText(s, "rejected when comments are ignored: %v", o2.err)
	}
	// Ignoring comments can only make an else block empty.
	want2 := plain(ref.DropEmptyElse(ref.Group(stripComments(m.Root))))
	t.formatted(s, want2, t.render(s, o2.cfg))
	if len(m.Root.Kids) > 0 {
		t.Distinct(want)
		if len(s) < 200 {
			t.Sample("%q -> %q", s, out)
		}
	}
	for _, l := range m.Lits {
		if strings.Contains(s[l.From:l.To], "\n") {
			t.Count("multi_line_literals", 1)
		}
	}
}

func (t *T) formatted(s, want, out string) {
	m2 := ref.Parse(out)
	if !m2.OK {
		t.Note("output", out)
		t.FailText(s, "the formatted text is not valid: %q", out)
	}
	if d := ref.Diff(want, plain(ref.DropEmptyElse(ref.Group(m2.Root)))); d != "" {
		t.Note("output", out)
		t.FailText(s, "formatting changes the configuration: %s", d)
	}
	o2 := t.parse("", out)
	if o2.err != nil {
		t.Note("output", out)
		t.FailText(s, "the formatted text is rejected: %v", o2.err)
	}
	if d := ref.Diff(want, plain(ref.DropEmptyElse(obs.FromConfig(o2.cfg)))); d != "" {
		t.Note("output", out)
		t.FailText(s, "the formatted text parses to another configuration: %s", d)
	}
}

func c08(t *T, s string) {
	m, o, ok := t.accepted(s)
	if !ok || !t.inFormatDomain(s, m) {
		return
	}
	if len(m.Root.Kids) == 0 && !strict {
		t.Count("skipped_no_section", 1)
		return
	}
	t.Eval()
	if len(m.Root.Kids) == 0 {
		m.Root.Post = nil
		for _, c := range m.Comments {
			m.Root.Post = append(m.Root.Post, ref.Comment{Text: strings.Trim(s[c.From+1:c.To], " ")})
		}
	}
	out := t.render(s, o.cfg)
	t.Note("output", out)
	m2 := ref.Parse(out)
	if !m2.OK {
		t.FailText(s, "the formatted text is not valid: %q", out)
	}
	want, got := ref.DropEmptyElse(ref.Group(m.Root)), ref.DropEmptyElse(ref.Group(m2.Root))
	op := ref.Opts{Comments: true}
	var a, b string
	if plain(want) == plain(got) {
		a, b = ref.Dump(want, op), ref.Dump(got, op)
	} else {
		t.Count("trees_differ", 1) // left to C07
		a, b = commentList(want), commentList(got)
	}
	if d := ref.Diff(a, b); d != "" {
		t.FailText(s, "comments differ: %s", d)
	}
	n := 0
	ref.Walk(want, func(x *ref.Node) {
		n += len(x.Pre) + len(x.Post)
		if len(x.Pre) > 0 {
			t.Count("comments_before_"+x.Kind, len(x.Pre))
		}
		if len(x.Post) > 0 {
			t.Count("comments_at_end_of_"+x.Kind, len(x.Post))
		}
	})
	if len(m2.Comments) != n {
		t.FailText(s, "%d comments in the formatted text, %d regular comments in the text", len(m2.Comments), n)
	}
	if n > 0 {
		t.Distinct(a)
		if len(s) < 200 {
			t.Sample("%q -> %q", s, out)
		}
	}
}

func c09(t *T, s string) {
	m, o, ok := t.accepted(s)
	if !ok || !t.inFormatDomain(s, m) {
		return
	}
	t.Eval()
	out := t.render(s, o.cfg)
	o2 := t.parse("", out)
	if o2.err != nil {
		t.FailText(s, "the formatted text is rejected: %v (%q)", o2.err, out)
	}
	out2 := t.render(out, o2.cfg)
	if out2 != out {
		t.Note("first", out)
		t.Note("second", out2)
		t.FailText(s, "formatting twice differs from once: %s", ref.Diff(out, out2))
	}
	if out != s {
		t.Count("changed_by_first_formatting", 1)
		if len(m.Root.Kids) > 0 {
			t.Distinct(out)
			if len(s) < 200 {
				t.Sample("%q -> %q", s, out)
			}
		}
	}
	if len(m.Comments) > 0 {
		t.Count("texts_with_comments", 1)
	}
}

// lineEnds gives a way to rewrite the line ends behind and between comments.
func lineEnds(r *rand.Rand) func(string) string {
	switch r.Intn(6) {
	case 0:
		return func(s string) string {
			return strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\n", "\r\n")
		}
	case 1:
		return func(s string) string { return strings.ReplaceAll(s, "\r\n", "\n") }
	case 2:
		return func(s string) string { return strings.ReplaceAll(s, "\n\n", "\n \n") }
	case 3:
		return func(s string) string { return strings.ReplaceAll(s, "\n\n", "\n\t\n\n") }
	case 4:
		return func(s string) string { return strings.ReplaceAll(s, "\n", " \n") }
	}
	return func(s string) string { return s }
}

// whitespaceVariant changes the blanks of a text: comment-free gaps get other
// blanks, in gaps with comments only blanks in front of a hash are added.
func whitespaceVariant(r *rand.Rand, s string, m ref.Result) string {
	var b strings.Builder
	last := 0
	ws := func() string {
		return []string{" ", "\n", "\t", "  ", "\n\n\n", "\r\n", " \n ", "\r", "\n\t\n"}[r.Intn(9)]
	}
	gaps := append([]ref.Span(nil), m.Gaps...)
	sort.SliceStable(gaps, func(i, j int) bool { return gaps[i].From < gaps[j].From })
	p := []int{1, 2, 4, 30}[r.Intn(4)]
	ci := 0
	for _, g := range gaps {
		if g.From < last || r.Intn(p) != 0 {
			continue
		}
		b.WriteString(s[last:g.From])
		last = g.To
		for ci < len(m.Comments) && m.Comments[ci].From < g.From {
			ci++
		}
		if ci < len(m.Comments) && m.Comments[ci].From < g.To {
			c := g.From
			ends := lineEnds(r)
			for k := ci; k < len(m.Comments) && m.Comments[k].From < g.To; k++ {
				b.WriteString(ends(s[c:m.Comments[k].From]))
				c = m.Comments[k].From
				b.WriteString([]string{"", "", " ", "\t", "   "}[r.Intn(5)])
			}
			b.WriteString(ends(s[c:g.To]))
			continue
		}
		if g.To > g.From {
			b.WriteString(ws())
		}
		for r.Intn(3) == 0 {
			b.WriteString(ws())
		}
	}
	b.WriteString(s[last:])
	return b.String()
}

func c10Case(t *T, i int, r *rand.Rand) {
	s, ok := t.systematic(i)
	if !ok {
		s = validText(r)
	}
	t.Mon.Text(t, s)
}

func c10(t *T, s string) {
	m, o, ok := t.accepted(s)
	if !ok || !t.inFormatDomain(s, m) {
		return
	}
	t.Eval()
	out := t.render(s, o.cfg)
	t.Note("output", out)
	t.layout(s, out)
	if len(m.Root.Kids) > 0 {
		t.Distinct(out)
	}
	op := ref.Opts{Comments: true, Gaps: true}
	want := ref.Dump(m.Root, op)
	r := caseRand(t.Seed, "variant"+s, 0)
	for k := 0; k < 2; k++ {
		v := whitespaceVariant(r, s, m)
		if v == s {
			continue
		}
		mv := ref.Parse(v)
		if !mv.OK || ref.Dump(mv.Root, op) != want {
			t.Count("variant_with_other_tree", 1)
			continue
		}
		ov := t.parse("", v)
		if ov.err != nil {
			t.FailText(s, "a white space variant is rejected: %v (%q)", ov.err, v)
		}
		if outv := t.render(v, ov.cfg); outv != out {
			t.Note("variant", strconv.Quote(v))
			t.FailText(s, "a white space variant is formatted differently: %s (%q)", ref.Diff(out, outv), v)
		}
		t.Count("variants_compared", 1)
		if len(v) < 150 {
			t.Sample("%q and %q", s, v)
		}
	}
}

// layout checks the lines of a formatted text.
func (t *T) layout(s, out string) {
	m := ref.Parse(out)
	if !m.OK {
		t.FailText(s, "the formatted text is not valid: %q", out)
	}
	if len(m.Root.Kids) == 0 {
		return
	}
	if !strings.HasSuffix(out, "\n") || strings.HasSuffix(out, "\n\n") {
		t.FailText(s, "the formatted text does not end with exactly one line break: %q", out[max(0, len(out)-20):])
	}
	// covered: bytes inside of literals and comments.
	covered := make([]bool, len(out)+1)
	for _, l := range m.Lits {
		for i := l.From; i < l.To; i++ {
			covered[i] = true
		}
	}
	isComment := make([]bool, len(out)+1)
	for _, c := range m.Comments {
		for i := c.From; i < c.To; i++ {
			covered[i], isComment[i] = true, true
		}
	}
	// firstOnLine: offset is the first non-blank of its line.
	first := map[int]bool{}
	depth, lines := 0, 0
	for i := 0; i < len(out); {
		e := strings.IndexByte(out[i:], '\n')
		if e < 0 {
			e = len(out) - i
		}
		line := out[i : i+e]
		continues := i > 0 && covered[i-1] // the line break before is inside a literal
		if !continues && line != "" {
			ind := len(line) - len(strings.TrimLeft(line, " "))
			d := depth
			if ind < len(line) && (line[ind] == '}' || line[ind] == ']') && !covered[i+ind] {
				d--
			}
			if ind != 2*d {
				t.FailText(s, "line %q of the formatted text is indented by %d blanks inside %d braces or brackets", line, ind, d)
			}
			first[i+ind] = true
			lines++
		}
		if line != "" && !covered[i+e] {
			c := line[len(line)-1]
			if (c == ' ' || c == '\t' || c == '\r') && !isComment[i+e-1] {
				t.FailText(s, "line %q of the formatted text has trailing blanks", line)
			}
			if isComment[i+e-1] && c == ' ' && !strings.HasSuffix(strings.TrimLeft(line, " "), "# ") {
				t.FailText(s, "comment line %q of the formatted text has trailing blanks", line)
			}
		}
		for j := i; j < i+e; j++ {
			if covered[j] {
				continue
			}
			switch out[j] {
			case '{', '[':
				depth++
			case '}', ']':
				depth--
			}
		}
		i += e + 1
	}
	for _, c := range m.Comments {
		if !first[c.From] {
			t.FailText(s, "a comment of the formatted text does not start its line: %q", out[c.From:c.To])
		}
	}
	t.Count("lines_checked", lines)
	var look func(n *ref.Node)
	look = func(n *ref.Node) {
		switch n.Kind {
		case "section", "attr", "entry":
			t.startsLine(s, out, first, n)
		case "array":
			for _, k := range n.Kids {
				t.startsLine(s, out, first, k)
			}
		}
		if n.Kind == "section" || n.Kind == "if" || n.Kind == "elseif" || n.Kind == "else" {
			for _, k := range n.Kids {
				if k.Kind == "plugin" || k.Kind == "branch" {
					t.startsLine(s, out, first, k)
				}
			}
		}
		for _, k := range n.Kids {
			look(k)
		}
	}
	look(m.Root)
}

func (t *T) startsLine(s, out string, first map[int]bool, n *ref.Node) {
	p := n.Pos.Off
	if !first[p] {
		t.FailText(s, "%s at offset %d of the formatted text does not start its line: %q", n.Kind, p, out)
	}
}

func init() {
	textAssume := []string{
		"the reference model harness/ref is a correct reading of grammar.treetop and of the rules quoted in logstash_config.peg",
		"texts up to some ten kilobytes, numbers within the float64 range",
	}
	mixRule := "text i is the i-th of the systematic texts (all short token sequences in %d contexts, all pairs of comment places in a text with every construct, all characters in all literals), after those a random derivation of the grammar, a damaged one or token soup; "
	mixRule = strings.Replace(mixRule, "%d", "about 60", 1)
	reg := func(id string, stride, quick int, f func(*T, string), kind string, need []string, rule string) {
		n := gen.NumSystematic()
		m := &Monitor{ID: id, Stride: stride, Quick: n/stride + quick, Thorough: n + quick*60, Text: f, Need: need,
			Rule: mixRule + rule, Assume: textAssume}
		switch kind {
		case "valid":
			m.Case = validCase
		case "c10":
			m.Case = c10Case
		}
		register(m)
	}
	reg("C01", 1, 40000, c01, "", []string{"accepted", "rejected", "rejected_encoding"}, "distinct: trees of accepted texts with a section and rejected texts longer than 8 bytes")
	reg("C02", 1, 80000, c02, "valid", []string{"node_plugin", "node_branch", "node_hash", "node_regexp", "node_elem"}, "distinct: trees of accepted texts with a section")
	reg("C03", 1, 80000, c03, "valid", []string{"texts_with_regular_comments"}, "distinct: trees with comments")
	reg("C04", 4, 25000, c04, "", []string{"texts_with_regular_comments", "rejected", "warnings"}, "distinct: accepted texts with regular comments")
	reg("C05", 2, 30000, c05, "valid", []string{"texts_with_warnings", "texts_with_regular_comments_only"}, "distinct: trees and places of exceptional comments")
	reg("C06", 1, 80000, c06, "valid", []string{"pos_plugin", "pos_operator", "pos_bool_operator", "pos_elem"}, "distinct: trees with positions")
	reg("C07", 1, 30000, c07, "valid", []string{"multi_line_literals", "node_plugin"}, "distinct: trees of accepted texts with a section")
	reg("C08", 1, 80000, c08, "valid", []string{"comments_before_plugin", "comments_at_end_of_section", "comments_before_entry"}, "distinct: trees with comments")
	reg("C09", 1, 40000, c09, "valid", []string{"changed_by_first_formatting", "texts_with_comments"}, "distinct: formatted texts that differ from their input")
	reg("C10", 2, 30000, c10, "c10", []string{"variants_compared", "lines_checked"}, "each text with two white space variants; distinct: formatted texts")
}
