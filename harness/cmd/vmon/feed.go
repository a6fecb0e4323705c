package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"

	"verif/harness/gen"
	"verif/harness/obs"
	"verif/harness/ref"
)

// ---- C11

var stringerType = reflect.TypeOf((*fmt.Stringer)(nil)).Elem()

// touch renders every printable value inside of v and reads every position.
func touch(v reflect.Value, n *int) {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			touch(v.Elem(), n)
		}
		return
	}
	if v.CanInterface() && v.Kind() == reflect.Struct {
		if p, ok := v.Interface().(interface{ Pos() ast.Pos }); ok {
			_ = p.Pos().String()
			*n++
		}
		if s, ok := v.Interface().(fmt.Stringer); ok {
			_ = s.String()
			*n++
		}
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				touch(v.Field(i), n)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			touch(v.Index(i), n)
		}
	}
}

const (
	stepsPerByte = 300
	stepsBase    = 20000
)

// steps parses with a step limit far above what any text needs and returns the
// number of steps.
func (t *T) steps(s string, opts ...config.Option) (uint64, error) {
	st := config.Stats{}
	var err error
	limit := uint64(stepsBase + 4*stepsPerByte*len(s))
	o := append([]config.Option{config.Statistics(&st, "no match"), config.MaxExpressions(limit)}, opts...)
	t.sut("Parse", func() { _, err = config.Parse("", []byte(s), o...) })
	if st.ExprCnt > limit {
		return st.ExprCnt, errLimit
	}
	return st.ExprCnt, err
}

var errLimit = errors.New("step limit reached")

func c11(t *T, s string) {
	r := caseRand(t.Seed, "options"+s, 0)
	var opts []config.Option
	names := ""
	if r.Intn(2) == 0 {
		opts, names = append(opts, config.IgnoreComments(true)), names+" IgnoreComments"
	}
	if r.Intn(2) == 0 {
		opts, names = append(opts, config.ExceptionalCommentsWarning(true)), names+" ExceptionalCommentsWarning"
	}
	if r.Intn(2) == 0 {
		opts, names = append(opts, config.AllowInvalidUTF8(true)), names+" AllowInvalidUTF8"
	}
	t.Note("options", names)
	t.Eval()
	n, err := t.steps(s, opts...)
	if err == errLimit || n > uint64(stepsBase+stepsPerByte*len(s)) {
		t.FailText(s, "parsing %d bytes takes more than %d steps (options%s)", len(s), n, names)
	}
	if len(s) > 0 {
		k := "steps_per_byte_up_to_20"
		switch q := n / uint64(len(s)); {
		case len(s) < 40:
			k = "short_text"
		case q > 100:
			k = "steps_per_byte_over_100"
		case q > 50:
			k = "steps_per_byte_up_to_100"
		case q > 20:
			k = "steps_per_byte_up_to_50"
		}
		t.Count(k, 1)
	}
	var v interface{}
	var rep string
	t.sut("Parse", func() {
		v, err = config.Parse("f", []byte(s), opts...)
		rep, _ = config.GetFarthestFailure()
	})
	if !utf8.ValidString(s) {
		t.Count("invalid_utf8", 1)
	}
	if err != nil {
		var text string
		t.sut("Error", func() { text = err.Error() })
		if text == "" {
			t.FailText(s, "the error has no text")
		}
		t.Count("rejected", 1)
		t.Distinct("rej", text, rep)
		return
	}
	c, ok := v.(ast.Config)
	if !ok {
		t.FailText(s, "Parse returns %T and no error", v)
	}
	t.Count("accepted", 1)
	k := 0
	t.sut("String and Pos of the nodes", func() { touch(reflect.ValueOf(c), &k); _ = obs.FromConfig(c) })
	t.Count("nodes_rendered", k)
	t.Distinct("acc", s)
	if len(s) < 100 {
		t.Sample("%q", s)
	}
}

const c11Random = 400

// Constructs nested very deeply are parsed in a process of their own, because
// an overflow of the stack ends it.
var nestings = []struct{ name, head, open, mid, close, tail string }{
	{"open parentheses", "filter{if ", "(", "", "", ""},
	{"parentheses", "filter{if ", "(", "1==1", ")", "{}}"},
	{"arrays", "filter{a{b=>", "[", "", "]", "}}"},
	{"hashes", "filter{a{b=>", "{1=>", "1", "}", "}}"},
	{"open hashes", "filter{a{b=>", "{1=>", "", "", ""},
	{"branches", "filter{", "if 1==1{", "", "}", "}"},
	{"open branches", "filter{", "if 1==1{", "", "", ""},
	{"plugin values", "filter{a{b=>", "a{b=>", "1", "}", "}}"},
}

const safeNesting = 20000

func deepChild(spec string) {
	var k, n int
	fmt.Sscanf(spec, "%d,%d", &k, &n)
	x := nestings[k]
	s := x.head + strings.Repeat(x.open, n) + x.mid + strings.Repeat(x.close, n) + x.tail
	_, err := config.Parse("", []byte(s))
	fmt.Println("parsed", err == nil)
}

// deep says how the process that parses n nested constructs ends.
func deep(k, n int) (out string, ok bool) {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], "-deep", fmt.Sprintf("%d,%d", k, n))
	b, err := cmd.CombinedOutput()
	out = string(b)
	if ctx.Err() != nil {
		return "timeout", true // not what is asked here
	}
	return out, err == nil || !strings.Contains(out, "stack overflow") && !strings.Contains(out, "panic")
}

func (t *T) nesting(k int) {
	t.Eval()
	out, ok := deep(k, safeNesting)
	if !ok {
		t.Note("output", cut(out))
		t.Fail("parsing %d nested %s ends the process", safeNesting, nestings[k].name)
	}
	if strings.HasPrefix(out, "parsed") {
		t.Count("very_deep_nestings_parsed", 1)
		t.Distinct("nesting", nestings[k].name)
	}
}

func c11Case(t *T, i int, r *rand.Rand) {
	if i < len(nestings) {
		t.nesting(i)
		return
	}
	i -= len(nestings)
	nd := gen.NumDeep()
	if i < nd*2 {
		t.growth(i/2, i%2 == 1)
		return
	}
	i -= nd * 2
	if i < nd {
		t.memory(i)
		return
	}
	i -= nd
	if i < c11Random {
		t.growthRandom(r)
		return
	}
	i -= c11Random
	if s, ok := t.systematic(i); ok {
		c11(t, s)
		return
	}
	switch r.Intn(6) {
	case 0, 1: // any bytes
		b := make([]byte, r.Intn(200))
		r.Read(b)
		c11(t, string(b))
	case 2: // any bytes inside a frame
		b := make([]byte, r.Intn(30))
		r.Read(b)
		f := []string{"filter{p{a=>\"%\"}}", "filter{%}", "filter{p{%}}", "filter{if %{}}", "#%\ninput{}", "filter{p{a=>[%]}}"}[r.Intn(6)]
		c11(t, strings.Replace(f, "%", string(b), 1))
	case 3:
		c11(t, gen.Mutate(r, gen.Mutate(r, gen.Mutate(r, gen.Config(r)))))
	default:
		c11(t, textCase(t, 1<<40, r))
	}
}

func (t *T) growth(k int, comments bool) {
	var prev uint64
	var prevLen int
	var opts []config.Option
	if comments {
		opts = append(opts, config.IgnoreComments(true), config.ExceptionalCommentsWarning(true))
	}
	top := 400
	if t.Tier == "thorough" {
		top = 6400
	}
	for n := 50; n <= top; n *= 2 {
		s, name := gen.Deep(k, n)
		c, err := t.steps(s, opts...)
		t.Eval()
		if err == errLimit {
			t.Note("text", s)
			t.Fail("%s: parsing %d copies (%d bytes) takes more than %d steps", name, n, len(s), c)
		}
		if prev > 2000 && c > 0 && float64(c)/float64(prev) > 1.4*float64(len(s))/float64(prevLen) {
			t.Note("text", s)
			t.Fail("%s: the number of steps grows from %d to %d when the text grows from %d to %d bytes", name, prev, c, prevLen, len(s))
		}
		prev, prevLen = c, len(s)
		t.Distinct(name, strconv.Itoa(n), strconv.FormatUint(c, 10))
		if n <= 400 {
			cc := 0
			v, err := config.Parse("", []byte(s), opts...)
			if err == nil {
				t.sut("rendering deep nesting", func() { touchOnce(v, &cc) })
			}
		}
		if n == top {
			t.Sample("%s: %d copies, %d bytes, %d steps", name, n, len(s), c)
			t.Count("growth_families", 1)
		}
	}
}

// memory compares the memory that parsing takes for a construct and for one
// eight times as large.
func (t *T) memory(k int) {
	a, name := gen.Deep(k, 500)
	b, _ := gen.Deep(k, 4000)
	alloc := func(s string) uint64 {
		var x, y runtime.MemStats
		runtime.ReadMemStats(&x)
		t.sut("Parse", func() { config.Parse("", []byte(s)) })
		runtime.ReadMemStats(&y)
		return y.TotalAlloc - x.TotalAlloc
	}
	alloc(a[:len(a)/2])
	ma, mb := alloc(a), alloc(b)
	t.Eval()
	if float64(mb) > 1.7*float64(ma)/float64(len(a))*float64(len(b)) && mb > 1<<20 {
		if mb = alloc(b); float64(mb) > 1.7*float64(ma)/float64(len(a))*float64(len(b)) {
			t.Note("text", cutTo(b, 500))
			t.Fail("%s: parsing %d bytes takes %d bytes of memory, %d bytes take %d", name, len(a), ma, len(b), mb)
		}
	}
	t.Distinct("memory", name)
	t.Count("memory_families", 1)
}

func touchOnce(v interface{}, n *int) {
	if c, ok := v.(ast.Config); ok {
		*n += len(c.String())
		_ = obs.FromConfig(c)
	}
}

// growthRandom repeats a piece of a text.
func (t *T) growthRandom(r *rand.Rand) {
	st := gen.RandomStyle(r)
	s := gen.ConfigStyle(r, st)
	if len(s) < 10 || len(s) > 1500 {
		return
	}
	if r.Intn(4) == 0 {
		s = gen.Mutate(r, s)
	}
	if len(s) < 10 {
		return
	}
	a := r.Intn(len(s))
	b := a + 1 + r.Intn(min(40, len(s)-a))
	var x, y int
	x, y = b, b // nested: a second piece is repeated behind
	if r.Intn(2) == 0 && b < len(s) {
		x = b + r.Intn(len(s)-b)
		y = x + r.Intn(min(20, len(s)-x)+1)
	}
	text := func(n int) string {
		return s[:a] + strings.Repeat(s[a:b], n) + s[b:x] + strings.Repeat(s[x:y], n) + s[y:]
	}
	var prev uint64
	var prevLen int
	for n := 50; n <= 200; n *= 2 {
		u := text(n)
		c, err := t.steps(u)
		t.Eval()
		if err == errLimit {
			t.FailText(u, "parsing %d bytes takes more than %d steps (%d copies of %q and %q)", len(u), c, n, s[a:b], s[x:y])
		}
		if n == 200 && prev > 5000 && float64(c)/float64(prev) > 1.6*float64(len(u))/float64(prevLen) {
			t.Note("text", u)
			t.Fail("the number of steps grows from %d to %d when the text grows from %d to %d bytes (%d copies of %q and %q)", prev, c, prevLen, len(u), n, s[a:b], s[x:y])
		}
		prev, prevLen = c, len(u)
		t.Distinct("rep", u)
	}
	t.Count("random_repetitions", 1)
}

// ---- C12

var (
	errLine = regexp.MustCompile(`^(\d+):(\d+) \((\d+)\): `)
	repLine = regexp.MustCompile(`(?s)^Parsing error at pos (\d+):(\d+) \[(\d+)\] and \[(\d+)\] \(after: '(.*)'\):\n((?:-> [^\n]*\n)+)$`)
)

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

// posOK says whether line and column are those of the offset.
func posOK(s string, line, col, off int) bool {
	if off < 0 || off > len(s) {
		return false
	}
	if off == 0 && line == 0 && col == 0 {
		return true // before the first character is read
	}
	p := ref.PosAt(s, off)
	if p.Line == line && p.Col == col {
		return true
	}
	return off < len(s) && s[off] == '\n' && p.Line+1 == line && col == 0
}

// errorPos checks the error and returns the offset of its first position.
func (t *T) errorPos(s, name string, o outcome) int {
	text := o.err.Error()
	first := -1
	prefix := ""
	if name != "" {
		prefix = name + ":"
	}
	for i, l := range strings.Split(text, "\n") {
		if !strings.HasPrefix(l, prefix) {
			if i == 0 {
				t.FailText(s, "the error does not name the file %q first: %q", name, text)
			}
			continue
		}
		m := errLine.FindStringSubmatch(l[len(prefix):])
		if m == nil {
			if i == 0 {
				t.FailText(s, "the error has no position: %q", text)
			}
			continue
		}
		off := atoi(m[3])
		if !posOK(s, atoi(m[1]), atoi(m[2]), off) {
			t.FailText(s, "line, column and offset of the error do not agree with the text: %q", l)
		}
		t.Count("error_positions", 1)
		if i == 0 {
			first = off
		}
	}
	return first
}

// reportPos checks a failure report and returns its two offsets.
func (t *T) reportPos(s, rep string) (int, int) {
	m := repLine.FindStringSubmatch(rep)
	if m == nil {
		t.FailText(s, "the failure report has an unknown form or no failure: %q", rep)
	}
	a, b := atoi(m[3]), atoi(m[4])
	if a > b || b > len(s) || !posOK(s, atoi(m[1]), atoi(m[2]), a) {
		t.FailText(s, "the positions of the failure report do not agree with the text: %q", rep)
	}
	if want := strings.ReplaceAll(s[a:b], "\n", `\n`); m[5] != want {
		t.FailText(s, "the failure report quotes %q, the text between its offsets is %q", m[5], want)
	}
	seen := map[string]bool{}
	for _, l := range strings.Split(m[6], "\n") {
		if l != "" && seen[l] {
			t.FailText(s, "the failure report lists a failure twice: %q", rep)
		}
		seen[l] = true
		if l != "" {
			t.Count("failures_"+strings.TrimPrefix(l, "-> "), 1)
		}
	}
	t.Count("report_positions", 1)
	return a, b
}

var fileNames = []string{"", "f", "dir/pipeline.conf", "with space.conf", "ünï.conf", "%s%d.conf", "1:2 (3): x", "/abs/10-input.conf"}

func c12(t *T, s string) {
	name := fileNames[caseRand(1, s, 1).Intn(len(fileNames))]
	o := t.parse(name, s)
	if o.err == nil {
		t.Count("accepted", 1)
		return
	}
	t.Eval()
	t.Count("rejected", 1)
	e := t.errorPos(s, name, o)
	if o.hasRep {
		t.reportPos(s, o.report)
	} else {
		t.Count("without_report", 1)
		if strings.Contains(o.err.Error(), "\n-> ") && !strings.Contains(s, "\n-> ") {
			t.FailText(s, "the error describes a failure, but there is no report: %q", o.err)
		}
	}
	// An abort message inside of the error has to be consistent, too.
	if i := strings.Index(o.err.Error(), "Parsing error at pos "); i >= 0 && !strings.Contains(s, "Parsing error") {
		t.reportPos(s, o.err.Error()[i:])
		t.Count("abort_messages", 1)
		if !o.hasRep || !strings.Contains(o.err.Error(), o.report) {
			t.FailText(s, "the parser gave up with %q, the failure report is %q", o.err, o.report)
		}
	}
	o2 := t.parse(name, s)
	if o2.err == nil || o2.err.Error() != o.err.Error() || o2.report != o.report {
		t.FailText(s, "parsing again gives another error or report: %q %q, then %v %q", o.err, o.report, o2.err, o2.report)
	}
	// A text that is not UTF-8 up to the place of the error says so there.
	if i := firstInvalid(s); i >= 0 && e > i {
		t.FailText(s, "the first invalid byte is at offset %d, the first error is at %d: %q", i, e, o.err)
	}
	t.Distinct(o.err.Error(), o.report)
	if len(s) < 60 {
		t.Sample("%q: %q", s, o.err)
	}
}

func firstInvalid(s string) int {
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			return i
		}
		i += n
	}
	return -1
}

func c12Case(t *T, i int, r *rand.Rand) {
	if s, ok := t.systematic(i); ok {
		c12(t, s)
		return
	}
	if r.Intn(2) == 0 {
		c12(t, textCase(t, 1<<40, r))
		return
	}
	s := validText(r)
	if r.Intn(10) == 0 {
		s = gen.Skeleton
	}
	m := ref.Parse(s)
	if !m.OK || len(m.Gaps) == 0 {
		return
	}
	t.Note("valid text", strconv.Quote(s))
	if r.Intn(3) == 0 { // an invalid byte anywhere
		p := r.Intn(len(s) + 1)
		for p < len(s) && !utf8.RuneStart(s[p]) {
			p--
		}
		bad := []string{"\xff", "\x80", "\xc3", "\xed\xa0\x80", "\xc0\xaf", "\xf5\x80\x80\x80"}[r.Intn(6)]
		x := s[:p] + bad + s[p:]
		if firstInvalid(x) != p {
			return
		}
		t.Eval()
		o := t.parse("f", x)
		if o.err == nil {
			t.Fail("a text with an invalid byte at offset %d is accepted: %q", p, x)
		}
		if e := t.errorPos(x, "f", o); e != p || !strings.Contains(strings.SplitN(o.err.Error(), "\n", 2)[0], "invalid encoding") {
			t.Fail("the invalid byte at offset %d of %q is reported as %q", p, x, o.err)
		}
		t.Count("invalid_byte_located", 1)
		t.Distinct(x)
		c12(t, x)
		return
	}
	g := m.Gaps[r.Intn(len(m.Gaps))]
	p := g.From + r.Intn(g.To-g.From+1)
	for _, c := range m.Comments {
		if p > c.From && p <= c.To {
			return
		}
	}
	var x string
	switch r.Intn(4) {
	case 0:
		x = s[:p]
	case 1:
		x = s[:p] + "\x01"
	default:
		x = s[:p] + []string{"\x01", "@", "\u00e9", "\u00a0", "$", ";", "|", "\\", "&&"}[r.Intn(9)] + s[p:]
	}
	mx := ref.Parse(x)
	if mx.OK || mx.Disputed != "" {
		return
	}
	// The brackets around the place.
	cov := make([]bool, len(s)+1)
	for _, l := range append(append([]ref.Span(nil), m.Lits...), m.Comments...) {
		for j := l.From; j < l.To; j++ {
			cov[j] = true
		}
	}
	var open []int
	done := 0
	for j := 0; j < p; j++ {
		if cov[j] {
			continue
		}
		switch s[j] {
		case '{', '[', '(':
			open = append(open, j)
		case '}', ']', ')':
			open = open[:len(open)-1]
			if len(open) == 0 {
				done = j + 1
			}
		}
	}
	low := done
	if len(open) > 1 {
		low = open[len(open)-2]
	}
	// Inside a condition a construct may be given up as a whole; the place is
	// then inside of the block around the branch.
	ref.Walk(m.Root, func(n *ref.Node) {
		if (n.Kind != "if" && n.Kind != "elseif") || n.Pos.Off > p {
			return
		}
		d := 0
		j := n.Pos.Off
		for ; ; j++ {
			if cov[j] {
				continue
			}
			if s[j] == '{' && d == 0 {
				break
			}
			switch s[j] {
			case '{', '[', '(':
				d++
			case '}', ']', ')':
				d--
			}
		}
		if p > j {
			return
		}
		for _, o := range open {
			if o < n.Pos.Off && s[o] == '{' && o < low {
				low = o
			}
		}
		for _, o := range open {
			if o < n.Pos.Off && s[o] == '{' {
				low = o
			}
		}
	})
	t.Eval()
	o := t.parse("f", x)
	if o.err == nil {
		t.Fail("a damaged text is accepted: %q", x)
	}
	e := t.errorPos(x, "f", o)
	abort := strings.Contains(o.err.Error(), "Parsing error at pos")
	switch {
	case !abort && e != p:
		t.Fail("the character that does not fit at offset %d of %q is reported as %q", p, x, o.err)
	case e > p || e < low:
		t.Fail("the character that does not fit at offset %d of %q, inside a construct that starts at %d, is reported as %q", p, x, low, o.err)
	}
	if o.hasRep {
		if _, b := t.reportPos(x, o.report); b > p {
			t.Fail("the failure report for the character that does not fit at offset %d of %q is %q", p, x, o.report)
		}
	}
	if abort {
		t.Count("damage_reported_as_unclosed_construct", 1)
	} else {
		t.Count("damage_located_exactly", 1)
	}
	t.Distinct(x)
	c12(t, x)
}

// ---- C13

type chunkReader struct {
	s      string
	r      *rand.Rand
	mode   int
	err    error // delivered at the end
	reads  int
	zeroes int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	c.reads++
	if len(p) == 0 {
		return 0, nil
	}
	if len(c.s) == 0 {
		return 0, c.err
	}
	n := len(c.s)
	switch c.mode {
	case 0:
		n = 1
	case 1:
		n = 1 + c.r.Intn(7)
	case 2:
		n = 1 + c.r.Intn(len(c.s))
	case 3:
		if c.r.Intn(3) == 0 && c.zeroes < 50 {
			c.zeroes++
			return 0, nil
		}
		n = 1 + c.r.Intn(20)
	}
	n = min(n, len(c.s), len(p))
	copy(p, c.s[:n])
	c.s = c.s[n:]
	if len(c.s) == 0 && c.r.Intn(2) == 0 {
		return n, c.err
	}
	return n, nil
}

var errInjected = errors.New("injected read error")

// digest describes an outcome completely.
func digest(o outcome) string {
	if o.err != nil {
		return "error " + o.err.Error() + "\nreport " + o.report
	}
	return ref.Dump(obs.FromConfig(o.cfg), ref.Opts{Pos: true, Comments: true, Gaps: true}) + strings.Join(o.cfg.Warnings, "\n") + "\nreport " + o.report
}

func (t *T) outcome(what, s string, f func() (interface{}, error)) outcome {
	var o outcome
	t.sut(what, func() {
		o.v, o.err = f()
		o.report, o.hasRep = config.GetFarthestFailure()
	})
	if o.err == nil {
		c, ok := o.v.(ast.Config)
		if !ok {
			t.FailText(s, "%s returns %T without an error", what, o.v)
		}
		o.cfg = c
	}
	return o
}

func c13(t *T, s string) {
	r := caseRand(t.Seed, "chunks"+s, 0)
	name := filepath.Join(t.Dir, "c13.conf")
	var opts []config.Option
	if r.Intn(2) == 0 {
		opts = append(opts, config.ExceptionalCommentsWarning(true))
	}
	if r.Intn(3) == 0 {
		opts = append(opts, config.IgnoreComments(true))
	}
	a := t.parse(name, s, opts...)
	want := digest(a)
	for k := 0; k < 2; k++ {
		cr := &chunkReader{s: s, r: r, mode: r.Intn(5), err: io.EOF}
		b := t.outcome("ParseReader", s, func() (interface{}, error) { return config.ParseReader(name, cr, opts...) })
		t.Eval()
		if d := ref.Diff(want, digest(b)); d != "" {
			t.FailText(s, "reading the text in chunks (mode %d) gives another result: %s", cr.mode, d)
		}
		t.Count("reads", cr.reads)
		t.Count(fmt.Sprintf("chunk_mode_%d", cr.mode), 1)
	}
	if r.Intn(4) == 0 {
		if err := os.WriteFile(name, []byte(s), 0o600); err != nil {
			t.Inconclusive("%v", err)
		}
		b := t.outcome("ParseFile", s, func() (interface{}, error) { return config.ParseFile(name, opts...) })
		t.Eval()
		if d := ref.Diff(want, digest(b)); d != "" {
			t.FailText(s, "reading the text from a file gives another result: %s", d)
		}
		t.Count("files", 1)
	}
	if r.Intn(16) == 0 && len(s) < 60000 {
		// A pipe: the size is not known beforehand.
		if pr, pw, err := os.Pipe(); err == nil {
			pw.WriteString(s)
			pw.Close()
			fd := fmt.Sprintf("/proc/self/fd/%d", pr.Fd())
			if _, err := os.Stat(fd); err == nil {
				p := t.parse(fd, s, opts...)
				b := t.outcome("ParseFile", s, func() (interface{}, error) { return config.ParseFile(fd, opts...) })
				t.Eval()
				if d := ref.Diff(digest(p), digest(b)); d != "" {
					t.FailText(s, "reading the text from a pipe gives another result: %s", d)
				}
				t.Count("pipes", 1)
			}
			pr.Close()
		}
	}
	// A read error after some bytes.
	cut := r.Intn(len(s) + 1)
	if r.Intn(3) == 0 {
		cut = len(s)
	}
	e := errInjected
	if r.Intn(4) == 0 {
		e = io.ErrUnexpectedEOF
	}
	cr := &chunkReader{s: s[:cut], r: r, mode: r.Intn(5), err: e}
	var v interface{}
	var err error
	t.sut("ParseReader", func() { v, err = config.ParseReader(name, cr, opts...) })
	t.Eval()
	if !errors.Is(err, e) && (err == nil || !strings.Contains(err.Error(), e.Error())) {
		t.FailText(s, "a read error after %d bytes is lost: value %T, error %v", cut, v, err)
	}
	if v != nil {
		t.FailText(s, "a configuration (%T) is returned although reading failed after %d bytes", v, cut)
	}
	t.Count("read_errors", 1)
	if a.err == nil && len(s) > 5 {
		t.Count("accepted", 1)
		t.Distinct(want)
		if len(s) < 100 {
			t.Sample("%q", s)
		}
	} else {
		t.Count("rejected", 1)
	}
}

func c13Fixed(t *T) {
	long := strings.Repeat("x", 300)
	os.Symlink("loop", filepath.Join(t.Dir, "loop"))
	os.WriteFile(filepath.Join(t.Dir, "plain"), []byte("input{}"), 0o600)
	for _, n := range []string{"missing.conf", "plain/below", long, "loop", ".", ""} {
		f := filepath.Join(t.Dir, n)
		if n == "" {
			f = ""
		}
		var v interface{}
		var err error
		t.sut("ParseFile", func() { v, err = config.ParseFile(f) })
		t.Eval()
		if err == nil || v != nil {
			t.Fail("ParseFile(%q) returns %T, %v", f, v, err)
		}
		var pe *fs.PathError
		if !errors.As(err, &pe) {
			t.Fail("ParseFile(%q) returns an error of another kind: %v", f, err)
		}
		t.Count("unreadable_files", 1)
		t.Distinct("unreadable", n)
	}
	// Texts far larger than any buffer: what stands at their end decides.
	r := caseRand(t.Seed, "large", 0)
	for _, size := range []int{1 << 16, 1 << 20, 1 << 21, 1 << 22, 10000000} {
		for _, tail := range []string{"filter{}", "}"} {
			head := "input{}\n"
			pad := strings.Repeat("#"+strings.Repeat("x", 998)+"\n", size/1000+1)
			s := head + pad[:size-len(head)-2] + "\n" + tail
			name := filepath.Join(t.Dir, "large")
			if err := os.WriteFile(name, []byte(s), 0o600); err != nil {
				t.Inconclusive("%v", err)
			}
			for k, f := range []func() (interface{}, error){
				func() (interface{}, error) { return config.ParseFile(name, config.IgnoreComments(true)) },
				func() (interface{}, error) {
					return config.ParseReader(name, &chunkReader{s: s, r: r, mode: 4, err: io.EOF}, config.IgnoreComments(true))
				},
			} {
				o := t.outcome("a large text", s[:20], f)
				t.Eval()
				what := []string{"ParseFile", "ParseReader"}[k]
				if tail == "}" {
					if o.err == nil {
						t.Fail("%s accepts a text of %d bytes (comments) whose last character is a brace too much", what, len(s))
					}
				} else if o.err != nil || len(o.cfg.Filter) != 1 || o.cfg.Filter[0].Pos().Offset != len(s)-len(tail) {
					t.Fail("%s does not find the filter section at the end of a text of %d bytes (comments): %v", what, len(s), o.err)
				}
				t.Count("large_texts", 1)
			}
			os.Remove(name)
		}
	}
}

// ---- C14

func c14(t *T, s string) {
	r := caseRand(t.Seed, "options"+s, 0)
	if !utf8.ValidString(s) {
		m := ref.ParseLoose(s)
		if m.Disputed != "" {
			return
		}
		opts := []config.Option{config.AllowInvalidUTF8(true)}
		if r.Intn(4) == 0 {
			opts = append(opts, config.Memoize(true))
		}
		if r.Intn(4) == 0 {
			opts = append([]config.Option{config.Statistics(&config.Stats{}, "no match")}, opts...)
		}
		o := t.parse("", s, opts...)
		t.Eval()
		if m.OK && o.err != nil {
			t.FailText(s, "with tolerance for invalid UTF-8, a text that is derivable apart from its encoding is rejected: %v", o.err)
		}
		if !m.OK && o.err == nil {
			t.FailText(s, "with tolerance for invalid UTF-8, a text that is not derivable is accepted")
		}
		if m.OK {
			t.Count("invalid_utf8_accepted", 1)
			t.Distinct("utf8", s)
		}
		t.Count("invalid_utf8", 1)
		return
	}
	a := t.parse("f", s)
	da := digest(outcome{v: a.v, cfg: a.cfg, err: a.err})
	st := config.Stats{}
	type option struct {
		name string
		o    config.Option
	}
	all := []option{
		{"Memoize", config.Memoize(true)},
		{"Statistics", config.Statistics(&st, "no match")},
		{"AllowInvalidUTF8", config.AllowInvalidUTF8(true)},
		{"Recover(false)", config.Recover(false)},
		{"MaxExpressions", config.MaxExpressions(1 << 40)},
		{"Debug(false)", config.Debug(false)},
		{"Memoize(false)", config.Memoize(false)},
		{"MaxExpressions(0)", config.MaxExpressions(0)},
		{"Entrypoint", config.Entrypoint("")},
		{"GlobalStore", config.GlobalStore("verif", 4711)},
		{"InitState", config.InitState("verif", "x")},
		{"IgnoreComments(false)", config.IgnoreComments(false)},
	}
	if len(s) < 80 {
		all = append(all, option{"Debug", config.Debug(true)})
	}
	var set []int
	if r.Intn(3) == 0 {
		set = []int{r.Intn(len(all))} // one option alone
	} else {
		for k := range all {
			if r.Intn(2) == 0 {
				set = append(set, k)
			}
		}
		r.Shuffle(len(set), func(i, j int) { set[i], set[j] = set[j], set[i] })
	}
	var opts []config.Option
	var names []string
	noRecover, memo := false, false
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		// Debug prints to the standard output.
		old := os.Stdout
		os.Stdout = null
		defer func() { os.Stdout = old; null.Close() }()
	}
	for _, k := range set {
		opts, names = append(opts, all[k].o), append(names, all[k].name)
		t.Count("with_"+all[k].name, 1)
		switch all[k].name {
		case "Recover(false)":
			noRecover = true
		case "Memoize":
			memo = true
		case "Memoize(false)":
			memo = false
		}
	}
	t.Note("options", strings.Join(names, ", "))
	t.Eval()
	if r.Intn(200) == 0 {
		name := []string{"nosuch", "Config", "init ", "\x00", "if"}[r.Intn(5)]
		if o := t.parse("f", s, config.Entrypoint(name)); o.err == nil {
			t.FailText(s, "accepted with the unknown entry point %q", name)
		}
		t.Count("unknown_entry_points", 1)
	}
	b := outcome{}
	if noRecover {
		func() {
			defer func() {
				if e := recover(); e != nil {
					b.err = fmt.Errorf("panic: %v", e)
					t.Count("unrecovered_panics", 1)
				}
			}()
			b.v, b.err = config.Parse("f", []byte(s), opts...)
		}()
		if c, ok := b.v.(ast.Config); ok && b.err == nil {
			b.cfg = c
		} else if b.err == nil {
			t.FailText(s, "Parse with %v returns %T", names, b.v)
		}
	} else {
		b = t.parse("f", s, opts...)
		b.report = ""
	}
	if (a.err == nil) != (b.err == nil) {
		t.FailText(s, "verdicts differ: normally %v, with %v %v", a.err, names, b.err)
	}
	if a.err == nil {
		if d := ref.Diff(da, digest(outcome{v: b.v, cfg: b.cfg})); d != "" {
			t.FailText(s, "results differ with %v: %s", names, d)
		}
		t.Count("accepted", 1)
		if len(s) > 10 {
			t.Distinct(s, strings.Join(names, ","))
			if len(s) < 100 {
				t.Sample("%q with %v", s, names)
			}
		}
	} else {
		if !noRecover && !memo && a.err.Error() != b.err.Error() {
			t.FailText(s, "errors differ: normally %q, with %v %q", a.err, names, b.err)
		}
		t.Count("rejected", 1)
	}
}

func c14Case(t *T, i int, r *rand.Rand) {
	if s, ok := t.systematic(i); ok {
		c14(t, s)
		return
	}
	if r.Intn(3) == 0 { // invalid bytes in a valid text
		s := validText(r)
		m := ref.Parse(s)
		for k := 1 + r.Intn(3); k > 0; k-- {
			p := r.Intn(len(s) + 1)
			if m.OK && r.Intn(3) > 0 { // inside a literal or comment
				sp := m.Comments
				if len(sp) == 0 || r.Intn(2) == 0 {
					sp = m.Lits
				}
				if len(sp) > 0 {
					x := sp[r.Intn(len(sp))]
					p = min(len(s), x.From+1+r.Intn(max(1, x.To-x.From-1)))
				}
			}
			s = s[:p] + []string{"\xff", "\x80", "\xc3", "\xed\xa0\x80", "\xc0\xaf", "\xe2\x82"}[r.Intn(6)] + s[p:]
		}
		c14(t, s)
		return
	}
	c14(t, textCase(t, 1<<40, r))
}

// ---- C29

func c29(t *T, s string) {
	r := caseRand(t.Seed, "limit"+s, 0)
	var base []config.Option
	if r.Intn(3) == 0 {
		base = append(base, config.Memoize(true))
	}
	if r.Intn(3) == 0 {
		base = append(base, config.IgnoreComments(true))
	}
	var st config.Stats
	a := t.outcome("Parse", s, func() (interface{}, error) {
		return config.Parse("f", []byte(s), append([]config.Option{config.Statistics(&st, "no match")}, base...)...)
	})
	need := st.ExprCnt
	if need == 0 {
		t.FailText(s, "the statistics show no steps")
	}
	want := digest(a)
	limits := []uint64{need, need - 1, need + 1, 1, uint64(1 + r.Int63n(int64(need))), need * 2, 1 << 62, uint64(1 + r.Int63n(100)),
		1<<(16+r.Intn(48)) + uint64(r.Intn(3)), math.MaxUint64 - uint64(r.Intn(2)), need | 1<<(32+r.Intn(32))}
	for _, l := range limits {
		if l == 0 {
			continue
		}
		var st2 config.Stats
		b := t.outcome("Parse", s, func() (interface{}, error) {
			o := append([]config.Option{}, base...)
			o = append(o, config.MaxExpressions(l), config.Statistics(&st2, "no match"))
			if r.Intn(2) == 0 {
				o[len(o)-1], o[len(o)-2] = o[len(o)-2], o[len(o)-1]
			}
			return config.Parse("f", []byte(s), o...)
		})
		t.Eval()
		stopped := b.err != nil && strings.Contains(b.err.Error(), "max number of expresssions parsed") &&
			(a.err == nil || a.err.Error() != b.err.Error()) // the text may contain the message itself
		switch {
		case need > l && !stopped:
			t.FailText(s, "%d steps are needed, but the limit %d does not stop the parser (error %v)", need, l, b.err)
		case need > l && b.v != nil:
			t.FailText(s, "the limit %d stops the parser, but it returns a %T", l, b.v)
		case need > l && st2.ExprCnt > l+1:
			t.FailText(s, "the parser made %d steps with the limit %d", st2.ExprCnt, l)
		case need > l:
			t.Count("stopped", 1)
		case stopped:
			t.FailText(s, "the limit %d stops the parser, although only %d steps are needed", l, need)
		default:
			if d := ref.Diff(want, digest(b)); d != "" {
				t.FailText(s, "the limit %d is not reached, but changes the result: %s", l, d)
			}
			if st2.ExprCnt != need {
				t.FailText(s, "with the limit %d the parser makes %d instead of %d steps", l, st2.ExprCnt, need)
			}
			t.Count("not_stopped", 1)
		}
	}
	t.Distinct(s, strconv.FormatUint(need, 10))
	if len(s) > 10 && len(s) < 60 {
		t.Sample("%q needs %d steps", s, need)
	}
}

func init() {
	knownCases["very-deep-nesting"] = func(t *T) string {
		if out, ok := deep(0, 100000); !ok && strings.Contains(out, "stack overflow") {
			return "stack overflow"
		}
		return ""
	}
	n := gen.NumSystematic()
	asm := []string{"the reference model harness/ref is a correct reading of the grammar"}
	register(&Monitor{ID: "C11", Stride: 8, Quick: n/8 + gen.NumDeep()*3 + c11Random + 40000, Thorough: n + 3000000, Case: c11Case, Text: c11,
		Need:   []string{"accepted", "rejected", "growth_families", "memory_families", "random_repetitions", "invalid_utf8", "nodes_rendered"},
		Rule:   "120 ways of nesting or repeating a construct, complete and damaged, at growing sizes; repetitions of random pieces of texts; systematic texts; random bytes, bytes in a frame, damaged texts; distinct: accepted texts, error texts with report, repetition texts",
		Assume: []string{"steps are what the Statistics option of the parser counts", "'linear' is judged by the growth between doublings up to 400 copies (thorough: 6400) and by a bound of 300 steps per byte, four times the largest cost seen on the repaired tree"}})
	register(&Monitor{ID: "C12", Stride: 4, Quick: n/4 + 60000, Thorough: n + 3000000, Case: c12Case, Text: c12, Assume: asm,
		Need: []string{"rejected", "damage_located_exactly", "damage_reported_as_unclosed_construct", "invalid_byte_located", "abort_messages", "report_positions"},
		Rule: "systematic texts, damaged texts, valid texts with one character inserted or the rest cut off at a known place, valid texts with an invalid byte; distinct: errors with report, damaged texts"})
	register(&Monitor{ID: "C13", Stride: 16, Quick: n/16 + 30000, Thorough: n + 1500000, Text: c13, Fixed: c13Fixed,
		Need:   []string{"accepted", "rejected", "files", "pipes", "read_errors", "chunk_mode_0", "chunk_mode_1", "chunk_mode_2", "chunk_mode_3", "chunk_mode_4", "unreadable_files", "large_texts"},
		Rule:   "each text through Parse, two chunked readers, a reader that fails, and every fourth through a file; distinct: results of accepted texts longer than 5 bytes",
		Assume: []string{"Parse on a byte slice is the reference; its own correctness is decided by the other properties"}})
	register(&Monitor{ID: "C14", Stride: 8, Quick: n/8 + 60000, Thorough: n + 2000000, Case: c14Case, Text: c14, Assume: asm,
		Need: []string{"accepted", "rejected", "invalid_utf8_accepted", "with_Memoize", "with_Recover(false)", "with_Debug", "with_Entrypoint", "unknown_entry_points", "unrecovered_panics"},
		Rule: "each text without options and with one random combination of them; texts with invalid bytes against the model; distinct: accepted texts with their options, accepted texts with invalid bytes"})
	register(&Monitor{ID: "C29", Stride: 64, Quick: n/64 + 12000, Thorough: n/4 + 600000, Text: c29,
		Need:   []string{"stopped", "not_stopped"},
		Rule:   "each text with up to eight limits around the number of steps it needs; distinct: texts with their number of steps",
		Assume: []string{"the number of steps is what the Statistics option reports"}})
}
