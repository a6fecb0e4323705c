package main

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"strings"
	"unicode/utf8"

	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/ast/astutil"

	"verif/harness/gen"
	"verif/harness/obs"
	"verif/harness/ref"
)

// word returns the i-th word over the alphabet, shortest first.
func word(alpha []string, i int) string {
	n := 1
	l := 0
	for i >= n {
		i -= n
		n *= len(alpha)
		l++
	}
	var s []string
	for ; l > 0; l-- {
		s = append(s, alpha[i%len(alpha)])
		i /= len(alpha)
	}
	return strings.Join(s, "")
}

func numWords(alpha []string, max int) int {
	n, k := 0, 1
	for l := 0; l <= max; l++ {
		n += k
		k *= len(alpha)
	}
	return n
}

// ---- C19

var escapeTable = map[byte]byte{'\n': 'n', '\r': 'r', '\t': 't', '\\': '\\', '"': '"', '\'': '\''}

func refEscape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if e, ok := escapeTable[s[i]]; ok {
			b.WriteByte('\\')
			b.WriteByte(e)
		} else {
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func refUnescape(s string) string {
	un := map[byte]byte{}
	for k, v := range escapeTable {
		un[v] = k
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			if u, ok := un[s[i+1]]; ok {
				b.WriteByte(u)
			} else {
				// Some other sequence: both characters stay, neither starts
				// another sequence.
				b.WriteByte('\\')
				b.WriteByte(s[i+1])
			}
			i++
			continue
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

var (
	escapeAlpha   = []string{`\`, `"`, `'`, "\n", "\r", "\t", "n", "r", "t", "a", "é", "\xff"}
	unescapeAlpha = []string{`\`, `"`, "n", "\n", "x", "\xc3", "é"}
)

func c19(t *T, s string) {
	t.Eval()
	var e, u, ue string
	t.sut("Escape", func() { e = astutil.Escape(s) })
	t.sut("Unescape", func() { u = astutil.Unescape(s); ue = astutil.Unescape(e) })
	if ue != s {
		t.FailText(s, "unescaping the escaped value %q gives %q", e, ue)
	}
	for i := 0; i < len(e); i++ {
		switch e[i] {
		case '\n', '\r', '\t', '"', '\'':
			t.FailText(s, "the escaped value %q contains a raw %q", e, e[i])
		case '\\':
			i++
			if i == len(e) || !strings.Contains(`nrt\"'`, e[i:i+1]) {
				t.FailText(s, "the escaped value %q contains an unescaped backslash", e)
			}
		}
	}
	if w := refEscape(s); e != w {
		t.FailText(s, "the escaped value is %q, want %q", e, w)
	}
	if w := refUnescape(s); u != w {
		t.FailText(s, "the unescaped value is %q, want %q", u, w)
	}
	t.Distinct(s)
	if e != s {
		t.Count("escaped", 1)
	}
	if u != s {
		t.Count("unescaped", 1)
	}
	if len(s) > 3 && len(s) < 40 {
		t.Sample("%q escaped %q unescaped %q", s, e, u)
	}
	if !utf8.ValidString(s) {
		t.Count("invalid_utf8", 1)
	}
}

func randomValue(r *rand.Rand) string {
	g := &gen.G{R: r, S: gen.RandomStyle(r)}
	if r.Intn(300) == 0 { // large
		return largeValue(r)
	}
	switch r.Intn(8) {
	case 0:
		return strings.Repeat(`\`, r.Intn(30)) + gen.RandomValue(r)
	case 1:
		return gen.RandomValue(r) + strings.Repeat(`\`, r.Intn(5))
	case 2:
		s := g.Str()
		return s[1 : len(s)-1]
	case 3:
		return g.Word()
	case 4:
		return strings.Repeat(gen.RandomValue(r), 1+r.Intn(40))
	}
	return gen.RandomValue(r)
}

// largeValue returns a value of up to 50 kB, dense with characters that the
// helper functions treat specially or without any for long stretches.
func largeValue(r *rand.Rand) string {
	var b strings.Builder
	n := 1 << (10 + r.Intn(6))
	n += r.Intn(n)
	if r.Intn(4) == 0 {
		n = gen.DictInt(r, 100000)
		if r.Intn(2) == 0 {
			return strings.Repeat([]string{"x", `"`, "\\n", "é"}[r.Intn(4)], n)
		}
	}
	dense := r.Intn(3)
	for b.Len() < n {
		switch {
		case dense == 0 || dense == 1 && r.Intn(20) == 0:
			for k := 1 + r.Intn(60); k > 0; k-- {
				b.WriteString(escapeAlpha[r.Intn(len(escapeAlpha)-1)])
			}
		case dense == 2 && r.Intn(30) == 0:
			b.WriteString(gen.RandomValue(r))
		default:
			b.WriteString(strings.Repeat("x", r.Intn(300)))
		}
	}
	return b.String()
}

func c19Case(t *T, i int, r *rand.Rand) {
	max := 4
	if t.Tier == "thorough" {
		max = 6
	}
	if n := numWords(escapeAlpha, max); i < n {
		c19(t, word(escapeAlpha, i))
		return
	} else {
		i -= n
	}
	if n := numWords(unescapeAlpha, max+2); i < n {
		c19(t, word(unescapeAlpha, i))
		return
	}
	switch r.Intn(10) {
	case 0:
		b := make([]byte, r.Intn(30))
		r.Read(b)
		c19(t, string(b))
		return
	case 1: // damaged
		b := []byte(randomValue(r))
		for k := r.Intn(3); k >= 0 && len(b) > 0; k-- {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
		c19(t, string(b))
		return
	}
	c19(t, randomValue(r))
}

// ---- C20

var quoteTypes = []struct {
	t ast.StringAttributeType
	q string
}{{ast.DoubleQuoted, `"`}, {ast.SingleQuoted, `'`}, {ast.Bareword, ""}}

// readsAs feeds a literal to model and parser and says whether both read it as
// one string of that kind; the value is that of the parser.
func (t *T) readsAs(lit, q string) (value string, ok bool) {
	text := "filter {\n  p {\n    before => 1\n    a => " + lit + "\n    after => 2\n  }\n}\n"
	m := ref.Parse(text)
	o := t.parse("", text)
	if o.err != nil || len(o.cfg.Filter) != 1 {
		if m.OK && m.Disputed == "" {
			t.FailText(lit, "valid text %q is rejected: %v", text, o.err)
		}
		return "", false
	}
	if !m.OK {
		t.FailText(lit, "invalid text %q is accepted", text)
	}
	want := &ref.Node{Kind: "plugin", Text: "p", Kids: []*ref.Node{
		{Kind: "attr", Text: "before", Kids: []*ref.Node{{Kind: "num", Num: 1}}},
		nil,
		{Kind: "attr", Text: "after", Kids: []*ref.Node{{Kind: "num", Num: 2}}}}}
	got := obs.Body(o.cfg.Filter[0].BranchOrPlugins)
	if len(got) != 1 || len(got[0].Kids) != 3 {
		return "", false
	}
	attr := got[0].Kids[1]
	want.Kids[1] = attr
	if plain(want) != plain(got[0]) || len(attr.Kids) != 1 || attr.Kids[0].Kind != "str" {
		return "", false
	}
	x := attr.Kids[0].Text
	if q == "" {
		if strings.HasPrefix(x, `"`) || strings.HasPrefix(x, `'`) {
			return "", false
		}
		return x, true
	}
	if !strings.HasPrefix(x, q) || len(x) < 2 {
		return "", false
	}
	return x[1 : len(x)-1], true
}

func c20(t *T, s string) {
	if !utf8.ValidString(s) {
		return
	}
	for _, qt := range quoteTypes {
		t.Eval()
		var lit string
		var err error
		t.sut("Quote", func() { lit, err = astutil.Quote(s, qt.t) })
		exists := false
		if v, ok := t.readsAs(qt.q+s+qt.q, qt.q); ok && v == s {
			exists = true
		}
		switch {
		case err == nil && lit != qt.q+s+qt.q:
			t.FailText(s, "Quote with %q returns %q", qt.q, lit)
		case err == nil && !exists:
			t.FailText(s, "Quote with %q returns %q, which is not a literal with that value", qt.q, lit)
		case err != nil && exists:
			t.FailText(s, "Quote with %q fails (%v), but the literal exists", qt.q, err)
		}
		if exists {
			t.Count("literal_exists", 1)
		} else {
			t.Count("no_literal", 1)
		}
		// With escaping.
		if qt.q != "" && strings.HasSuffix(s, `\`) || qt.q == "" && utf8.RuneCountInString(s) < 2 {
			t.Count("outside_escape_domain", 1)
			continue
		}
		t.sut("QuoteWithEscape", func() { lit = astutil.QuoteWithEscape(s, qt.t) })
		want := qt.q + s + qt.q
		if qt.q != "" {
			var b strings.Builder
			for i := 0; i < len(s); i++ {
				if s[i] == qt.q[0] && (i == 0 || s[i-1] != '\\') {
					b.WriteByte('\\')
				}
				b.WriteByte(s[i])
			}
			want = qt.q + b.String() + qt.q
		} else {
			var b strings.Builder
			for i, c := range s {
				ok := c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' && i > 0
				if ok {
					b.WriteRune(c)
				} else {
					b.WriteByte('_')
				}
			}
			want = b.String()
		}
		if lit != want {
			t.FailText(s, "QuoteWithEscape with %q returns %q, want %q", qt.q, lit, want)
		}
		v, ok := t.readsAs(lit, qt.q)
		if !ok || qt.q+v+qt.q != lit {
			t.FailText(s, "QuoteWithEscape with %q returns %q, which the parser does not read as one string", qt.q, lit)
		}
		if lit != qt.q+s+qt.q {
			t.Count("escaped_quotes", 1)
		}
		t.Distinct(qt.q, s)
		if len(s) > 3 && len(s) < 40 && lit != qt.q+s+qt.q {
			t.Sample("%q with %q: %s", s, qt.q, lit)
		}
	}
}

var quoteAlpha = []string{`\`, `"`, `'`, "\n", "a", "0", "_", "é", "#", "}", " ", "\u017f"}

func c20Case(t *T, i int, r *rand.Rand) {
	max := 4
	if t.Tier == "thorough" {
		max = 6
	}
	if i < numWords(quoteAlpha, max) {
		c20(t, word(quoteAlpha, i))
		return
	}
	c20(t, randomValue(r))
}

// ---- C21

type customNotFound struct{ s string }

func (e customNotFound) Error() string { return e.s }
func (e customNotFound) NotFound()     {}

type ptrNotFound struct{ s string }

func (e *ptrNotFound) Error() string { return e.s }
func (e *ptrNotFound) NotFound()     {}

// notQuite has no NotFound method without arguments.
type notQuite struct{ err error }

func (e notQuite) Error() string { return "not found: quite" }
func (e notQuite) Unwrap() error { return e.err }

type opaque struct{ err error }

func (e opaque) Error() string { return e.err.Error() }

// errChain builds an error; isNF says whether a not-found error can be reached
// by unwrapping.
func errChain(r *rand.Rand, d int) (err error, isNF bool, desc string) {
	if d == 0 || r.Intn(5) == 0 {
		switch r.Intn(7) {
		case 0:
			return errors.New("not found"), false, "new"
		case 1:
			return customNotFound{"x"}, true, "custom"
		case 2:
			return &ptrNotFound{"x"}, true, "ptr"
		case 3:
			return ast.NotFoundErrorf("no %s", "thing"), true, "NotFoundErrorf"
		case 4:
			_, err := ast.NewPlugin("p").ID()
			return err, true, "ID"
		case 5:
			_, err := ast.NewPlugin("p", ast.NewNumberAttribute("id", 1)).ID()
			return err, false, "IDtype"
		default:
			return fmt.Errorf("other %d", r.Intn(10)), false, "errorf"
		}
	}
	e, nf, ds := errChain(r, d-1)
	switch r.Intn(8) {
	case 0:
		return fmt.Errorf("wrap: %w", e), nf, "w(" + ds + ")"
	case 1:
		return fmt.Errorf("flat: %v", e), false, "v(" + ds + ")"
	case 2:
		e2, nf2, ds2 := errChain(r, d-1)
		return errors.Join(e, e2), nf || nf2, "join(" + ds + "," + ds2 + ")"
	case 3:
		e2, nf2, ds2 := errChain(r, d-1)
		return fmt.Errorf("two: %w %w", e, e2), nf || nf2, "ww(" + ds + "," + ds2 + ")"
	case 4:
		return ast.NewNotFoundError(e), true, "nf(" + ds + ")"
	case 5:
		return notQuite{e}, nf, "unwrap(" + ds + ")"
	case 6:
		return opaque{e}, false, "opaque(" + ds + ")"
	default:
		return ast.NotFoundErrorf("nf: %w", e), true, "nff(" + ds + ")"
	}
}

func (t *T) idOf(what string, p ast.Plugin, attrs []ast.Attribute) {
	// The expectation: the first attribute with the name, by its kind.
	var wantID string
	kind := "absent"
	for _, a := range attrs {
		if a == nil {
			continue
		}
		if n := a.Name(); n == "id" || n == `"id"` || n == `'id'` {
			if sa, ok := a.(ast.StringAttribute); ok {
				kind, wantID = "found", sa.Value()
			} else {
				kind = "not_a_string"
			}
			break
		}
	}
	var id string
	var err error
	t.sut("ID", func() { id, err = p.ID() })
	t.Eval()
	t.Count(kind, 1)
	nf := ast.IsNotFoundError(err)
	switch kind {
	case "found":
		if err != nil || id != wantID {
			t.Fail("%s: ID returns %q, %v; want %q", what, id, err, wantID)
		}
	case "absent":
		if err == nil || !nf {
			t.Fail("%s: ID returns %q, %v; want a not-found error", what, id, err)
		}
	default:
		if err == nil || nf {
			t.Fail("%s: ID returns %q, %v; want an error that is not a not-found error", what, id, err)
		}
	}
	if err != nil {
		if wrapped := fmt.Errorf("w: %w", fmt.Errorf("w: %w", err)); ast.IsNotFoundError(wrapped) != nf {
			t.Fail("%s: the error %v is recognised differently when wrapped", what, err)
		}
	}
	t.Distinct(what)
}

func idAttr(r *rand.Rand, g *gen.G) ast.Attribute {
	name := []string{"id", `"id"`, `'id'`, "id", "ID", "Id", "id2", "i", "_id", `"id `, `"id'`, `" id"`, "ident", "tags", "", `"`, `''`, `""id""`, "'\"id\"'",
		"add_field", "codec", "type", "message", "name", "plugin", "p", "rename", "identity", `"id`, `id"`}[r.Intn(30)]
	return attrNamed(r, g, name)
}

func attrNamed(r *rand.Rand, g *gen.G, name string) ast.Attribute {
	key := []string{"id", "id", "_id", "ID"}[r.Intn(4)]
	switch r.Intn(12) {
	case 9:
		return ast.NewHashAttribute(name, ast.NewHashEntry(ast.NewStringAttribute("", key, ast.DoubleQuoted), ast.NewStringAttribute("", "inner", ast.Bareword)))
	case 10:
		return ast.NewArrayAttribute(name, ast.NewStringAttribute("id", "inner", ast.DoubleQuoted), ast.NewPluginAttribute("id", ast.NewPlugin("id")))
	case 11:
		return ast.NewPluginAttribute(name, ast.NewPlugin("id", ast.NewHashAttribute("id", ast.NewHashEntry(ast.NewStringAttribute("", key, ast.Bareword), ast.NewStringAttribute("", "inner", ast.DoubleQuoted)))))
	case 0:
		return ast.NewNumberAttribute(name, float64(r.Intn(5)))
	case 1:
		return ast.NewArrayAttribute(name, ast.NewStringAttribute("", "id", ast.DoubleQuoted))
	case 2:
		return ast.NewHashAttribute(name, ast.NewHashEntry(ast.NewStringAttribute("", "id", ast.Bareword), ast.NewStringAttribute("", "inner", ast.DoubleQuoted)))
	case 3:
		return ast.NewPluginAttribute(name, ast.NewPlugin("json", ast.NewStringAttribute("id", "inner", ast.DoubleQuoted)))
	case 4:
		return nil
	}
	v := []string{"a", "", "id", "x y", `"q"`, g.Word()}[r.Intn(6)]
	return ast.NewStringAttribute(name, v, []ast.StringAttributeType{ast.DoubleQuoted, ast.SingleQuoted, ast.Bareword}[r.Intn(3)])
}

func c21Case(t *T, i int, r *rand.Rand) {
	g := &gen.G{R: r, S: gen.RandomStyle(r)}
	switch r.Intn(4) {
	case 0: // error chains
		err, want, desc := errChain(r, r.Intn(7))
		var got bool
		t.sut("IsNotFoundError", func() { got = ast.IsNotFoundError(err) })
		t.Eval()
		if got != want {
			t.Fail("IsNotFoundError is %v for %s (%v), want %v", got, desc, err, want)
		}
		t.sut("Error", func() { _ = err.Error(); _ = fmt.Sprintf("%v %s %q %+v", err, err, err, err) })
		t.Count(fmt.Sprintf("chains_not_found_%v", want), 1)
		t.Distinct("chain", desc)
		if len(desc) > 20 {
			t.Sample("%s: not found %v", desc, want)
		}
	case 1, 2: // constructed plugins
		var attrs []ast.Attribute
		for k := r.Intn(6); k > 0; k-- {
			attrs = append(attrs, idAttr(r, g))
		}
		p := ast.NewPlugin("p", attrs...)
		var desc strings.Builder
		for _, a := range attrs {
			if a == nil {
				desc.WriteString("nil;")
			} else {
				fmt.Fprintf(&desc, "%T %s;", a, a.String())
			}
		}
		t.idOf(desc.String(), p, attrs)
	default: // parsed plugins, against the model
		s := validText(r)
		m, o, ok := t.accepted(s)
		if !ok {
			return
		}
		var nodes []*ref.Node
		for _, k := range ref.Group(m.Root).Kids {
			nodes = appendPlugins(nodes, k.Kids)
		}
		j := 0
		visit := func(c *astutil.Cursor) {
			p := c.Plugin()
			if j >= len(nodes) || p == nil {
				t.FailText(s, "more plugins than the text has")
			}
			n := nodes[j]
			j++
			want, kind := modelID(n)
			id, err := p.ID()
			t.Eval()
			t.Count("parsed_"+kind, 1)
			switch {
			case kind == "found" && (err != nil || id != want):
				t.FailText(s, "plugin %s at %v: ID returns %q, %v; want %q", n.Text, n.Pos, id, err, want)
			case kind == "absent" && !ast.IsNotFoundError(err):
				t.FailText(s, "plugin %s at %v has no id: ID returns %q, %v", n.Text, n.Pos, id, err)
			case kind == "not_a_string" && (err == nil || ast.IsNotFoundError(err)):
				t.FailText(s, "plugin %s at %v has an id that is no string: ID returns %q, %v", n.Text, n.Pos, id, err)
			}
		}
		t.sut("ID", func() {
			for _, l := range [][]ast.PluginSection{o.cfg.Input, o.cfg.Filter, o.cfg.Output} {
				for _, sec := range l {
					astutil.ApplyPlugins(sec.BranchOrPlugins, visit)
				}
			}
		})
		t.Distinct("text", s)
	}
}

// appendPlugins collects the plugin nodes of sections and branches.
func appendPlugins(out, kids []*ref.Node) []*ref.Node {
	for _, k := range kids {
		switch k.Kind {
		case "plugin":
			out = append(out, k)
		case "branch":
			for _, b := range k.Kids {
				out = appendPlugins(out, b.Kids)
			}
		}
	}
	return out
}

// modelID is the id a plugin node has.
func modelID(n *ref.Node) (id, kind string) {
	for _, a := range n.Kids {
		if a.Kind == "attr" && (a.Text == "id" || a.Text == `"id"` || a.Text == "'id'") {
			v := a.Kids[0]
			if v.Kind != "str" {
				return "", "not_a_string"
			}
			x := v.Text
			if strings.HasPrefix(x, `"`) || strings.HasPrefix(x, `'`) {
				x = x[1 : len(x)-1]
			}
			return x, "found"
		}
	}
	return "", "absent"
}

func c21Fixed(t *T) {
	if ast.IsNotFoundError(nil) {
		t.Fail("nil is recognised as a not-found error")
	}
	if err := ast.NewNotFoundError(nil); err != nil {
		t.Fail("NewNotFoundError(nil) is %v", err)
	}
	t.Eval()
}

// ---- C28

// builder makes trees from the public constructors.
type builder struct {
	r        *rand.Rand
	g        *gen.G
	nils     float64
	comments float64
	ptrs     float64
	left     int
	last     bool // no further walk over the tree follows
}

func newBuilder(r *rand.Rand) *builder {
	b := &builder{r: r, g: &gen.G{R: r, S: gen.RandomStyle(r)}, left: 10 + r.Intn(60)}
	if r.Intn(2) == 0 {
		b.nils = r.Float64() * 0.4
	}
	if r.Intn(2) == 0 {
		b.comments = r.Float64() * 0.5
	}
	if r.Intn(3) == 0 {
		b.ptrs = 0.3
	}
	return b
}

func (b *builder) chance(p float64) bool { return p > 0 && b.r.Float64() < p }

func (b *builder) comment() ast.CommentBlock {
	if !b.chance(b.comments) {
		return nil
	}
	var l []ast.Comment
	for k := 1 + b.r.Intn(3); k > 0; k-- {
		c := strings.Trim(strings.TrimLeft(b.g.CommentText(), "#"), " \t\r\n")
		if strings.ContainsAny(c, "\r\n") {
			c = "one line"
		}
		l = append(l, ast.NewComment(c, b.r.Intn(3) == 0))
	}
	return ast.NewCommentBlock(l...)
}

func (b *builder) count(n int) int {
	b.left--
	if b.left < 0 {
		return 0
	}
	if b.r.Intn(400) == 0 {
		return gen.DictInt(b.r, 300)
	}
	return b.r.Intn(n + 1)
}

func (b *builder) name() string {
	if b.r.Intn(6) == 0 {
		return b.g.Str()
	}
	n := b.g.Word()
	if b.r.Intn(6) == 0 {
		n = []string{"a", "0", "a-b", "-", "5x", "input", "and", "in", "not"}[b.r.Intn(9)]
	} else if b.r.Intn(20) == 0 {
		n = gen.DictWord(b.r)
	}
	return n
}

func (b *builder) str(name string) ast.StringAttribute {
	if b.r.Intn(4) == 0 {
		return ast.NewStringAttribute(name, b.word(), ast.Bareword)
	}
	return b.quoted(name)
}

func (b *builder) word() string {
	for {
		if w := b.g.Word(); len(w) > 1 && (w[0] < '0' || w[0] > '9') {
			return w
		}
	}
}

func (b *builder) quoted(name string) ast.StringAttribute {
	s := b.g.Str()
	var q ast.StringAttributeType = ast.DoubleQuoted
	if s[0] == '\'' {
		q = ast.SingleQuoted
	}
	return ast.NewStringAttribute(name, s[1:len(s)-1], q)
}

func (b *builder) num(name string) ast.NumberAttribute {
	var f float64
	switch b.r.Intn(6) {
	case 0:
		for {
			f = math.Float64frombits(b.r.Uint64())
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				break
			}
		}
	case 1:
		f = math.Float64frombits(uint64(b.r.Intn(100)))
	case 2:
		f = float64(b.r.Int63()) * float64(1-2*b.r.Intn(2))
	case 3:
		f = b.r.NormFloat64() * math.Pow(10, float64(b.r.Intn(40)-20))
	case 4:
		f = math.MaxFloat64 / float64(1+b.r.Intn(3))
	default:
		f = float64(b.r.Intn(2000) - 1000)
	}
	return ast.NewNumberAttribute(name, f)
}

// attribute makes a value; plugins only as the value of a plugin's attribute.
func (b *builder) attribute(name string, d int, plugins bool) ast.Attribute {
	top := name != ""
	c := func() ast.CommentBlock {
		if !top && !plugins {
			return nil
		}
		return b.comment()
	}
	k := b.r.Intn(10)
	switch {
	case d > 0 && k == 0:
		a := ast.NewArrayAttribute(name, b.elems(d-1)...)
		a.Comment, a.FooterComment = c(), b.comment()
		return a
	case d > 0 && k == 1:
		var es []ast.HashEntry
		for n := b.count(4); n > 0; n-- {
			var key ast.HashEntryKey = b.str("")
			if b.r.Intn(4) == 0 {
				key = b.num("")
			}
			e := ast.NewHashEntry(key, b.value(d-1))
			e.Comment = b.comment()
			es = append(es, e)
		}
		a := ast.NewHashAttribute(name, es...)
		a.Comment, a.FooterComment = c(), b.comment()
		return a
	case d > 0 && k == 2 && top:
		p := b.plugin(d - 1)
		p.Comment = nil
		a := ast.NewPluginAttribute(name, p)
		a.Comment = c()
		return a
	case k < 6:
		a := b.str(name)
		a.Comment = c()
		return a
	}
	a := b.num(name)
	a.Comment = c()
	return a
}

// value is the value of a hash entry, which carries no comment of its own.
func (b *builder) value(d int) ast.Attribute { return b.attribute("", d, false) }

func (b *builder) elems(d int) []ast.Attribute {
	var l []ast.Attribute
	for n := b.count(4); n > 0; n-- {
		if b.chance(b.nils) {
			l = append(l, nil)
			continue
		}
		l = append(l, b.attribute("", d, true)) // array elements carry comments
	}
	return l
}

func (b *builder) plugin(d int) ast.Plugin {
	var l []ast.Attribute
	for n := b.count(4); n > 0; n-- {
		if b.chance(b.nils) {
			l = append(l, nil)
		} else {
			l = append(l, b.attribute(b.name(), d, true))
		}
	}
	n := b.name()
	p := ast.NewPlugin(n, l...)
	p.Comment, p.FooterComment = b.comment(), b.comment()
	return p
}

func (b *builder) body(d int) body {
	var l body
	for n := b.count(4); n > 0; n-- {
		switch {
		case b.chance(b.nils):
			l = append(l, nil)
		case d > 0 && b.r.Intn(3) == 0:
			br := b.branch(d - 1)
			if b.chance(b.ptrs) {
				l = append(l, &br)
			} else {
				l = append(l, br)
			}
		default:
			p := b.plugin(2)
			if b.chance(b.ptrs) {
				l = append(l, &p)
			} else {
				l = append(l, p)
			}
		}
	}
	return l
}

func (b *builder) branch(d int) ast.Branch {
	i := ast.NewIfBlock(b.cond(2), b.body(d)...)
	i.Comment, i.FooterComment = b.comment(), b.comment()
	br := ast.NewBranch(i, ast.ElseBlock{})
	for n := b.r.Intn(3); n > 0; n-- {
		e := ast.NewElseIfBlock(b.cond(2), b.body(d)...)
		e.Comment, e.FooterComment = b.comment(), b.comment()
		br.ElseIfBlock = append(br.ElseIfBlock, e)
	}
	if b.r.Intn(2) == 0 {
		e := ast.NewElseBlock(b.body(d)...)
		e.Comment, e.FooterComment = b.comment(), b.comment()
		br.ElseBlock = e
	}
	return br
}

func (b *builder) selector() ast.Selector {
	var l []string
	for n := 1 + b.r.Intn(3); n > 0; n-- {
		s := b.g.Selector()
		s = s[1 : len(s)-1]
		if i := strings.Index(s, "]["); i >= 0 {
			s = s[:i]
		}
		l = append(l, s)
	}
	if b.r.Intn(2) == 0 {
		return ast.NewSelectorFromNames(l...)
	}
	var es []ast.SelectorElement
	for _, s := range l {
		es = append(es, ast.NewSelectorElement(s))
	}
	return ast.NewSelector(es)
}

// rvalue makes a value for a condition. The language has no arrays of one value
// there and none whose first value contains a closing bracket.
func (b *builder) rvalue() ast.Rvalue {
	switch b.r.Intn(6) {
	case 0:
		return b.num("")
	case 1:
		return b.quoted("")
	case 2:
		n := b.r.Intn(5)
		if n == 1 {
			n = 2
		}
		var l []ast.Attribute
		for ; n > 0; n-- {
			if b.r.Intn(2) == 0 {
				l = append(l, b.num(""))
			} else {
				q := b.quoted("")
				l = append(l, ast.NewStringAttribute("", strings.ReplaceAll(q.Value(), "]", ")"), q.StringAttributeType()))
			}
			if b.chance(b.nils) {
				l = append(l, nil)
			}
		}
		return ast.NewArrayAttribute("", l...)
	case 3:
		s := b.g.Regexp()
		return ast.NewRegexp(s[1 : len(s)-1])
	}
	return b.selector()
}

func (b *builder) cond(d int) ast.Condition {
	var l []ast.Expression
	first := true
	for n := 1 + b.count(3); n > 0; n-- {
		if b.chance(b.nils) {
			l = append(l, nil)
		}
		op := ast.BooleanOperator{Op: ast.NoOperator}
		if !first {
			op.Op = []int{ast.And, ast.Or, ast.Xor, ast.Nand}[b.r.Intn(4)]
		}
		e := b.expr(op, d)
		if b.r.Intn(4) == 0 { // set the operator afterwards
			e = b.expr(ast.BooleanOperator{Op: ast.And}, d)
			e.SetBoolOperator(op)
		}
		first = false
		l = append(l, e)
	}
	return ast.NewCondition(l...)
}

func (b *builder) expr(op ast.BooleanOperator, d int) ast.Expression {
	switch k := b.r.Intn(9); {
	case k == 0 && d > 0:
		return ast.NewConditionExpression(op, b.cond(d-1))
	case k == 1 && d > 0:
		return ast.NewNegativeConditionExpression(op, b.cond(d-1))
	case k == 2:
		return ast.NewNegativeSelectorExpression(op, b.selector())
	case k == 3:
		return ast.NewInExpression(op, b.rvalue(), b.rvalue())
	case k == 4:
		return ast.NewNotInExpression(op, b.rvalue(), b.rvalue())
	case k == 5:
		var rv ast.StringOrRegexp = b.quoted("")
		if b.r.Intn(2) == 0 {
			s := b.g.Regexp()
			rv = ast.NewRegexp(s[1 : len(s)-1])
		}
		return ast.NewRegexpExpression(op, b.rvalue(), ast.RegexpOperator{Op: []int{ast.RegexpMatch, ast.RegexpNotMatch}[b.r.Intn(2)]}, rv)
	case k == 6:
		return ast.NewRvalueExpression(op, b.rvalue())
	}
	return ast.NewCompareExpression(op, b.rvalue(), ast.CompareOperator{Op: ast.Equal + b.r.Intn(6)}, b.rvalue())
}

func (b *builder) sections(pt ast.PluginType, max int) []ast.PluginSection {
	var l []ast.PluginSection
	for n := b.r.Intn(max + 1); n > 0; n-- {
		s := ast.NewPluginSection(pt, b.body(2)...)
		if b.r.Intn(6) == 0 {
			s = ast.NewPluginSections(pt, b.body(2)...)[0]
		}
		s.CommentBlock, s.FooterComment = b.comment(), b.comment()
		l = append(l, s)
	}
	return l
}

func (b *builder) config() ast.Config {
	c := ast.NewConfig(b.sections(ast.Input, 2), b.sections(ast.Filter, 2), b.sections(ast.Output, 1))
	if len(c.Input)+len(c.Filter)+len(c.Output) > 0 {
		c.FooterComment = b.comment()
	}
	return c
}

// dropNil removes nil entries.
func dropNil(n *ref.Node) *ref.Node {
	c := *n
	c.Kids = nil
	for _, k := range n.Kids {
		if k.Kind != "nil" {
			c.Kids = append(c.Kids, dropNil(k))
		}
	}
	return &c
}

// firstNil says whether nil entries are present.
func countNil(n *ref.Node) int {
	k := 0
	ref.Walk(n, func(x *ref.Node) {
		if x.Kind == "nil" {
			k++
		}
	})
	return k
}

// reuse makes other nodes out of parts of a tree, in a third of the cases, and
// sees to it that the tree stays the same.
func (t *T) reuse(b *builder, c ast.Config) {
	if b.r.Intn(3) > 0 {
		return
	}
	o := ref.Opts{Comments: true, Pos: true}
	want := ref.Dump(obs.FromConfig(c), o)
	var hist []string
	t.sut("constructors", func() { hist = b.reuse(c) })
	t.Note("built from its parts", strings.Join(hist, "\n"))
	t.Eval()
	t.Count("parts_reused", len(hist))
	if d := ref.Diff(want, ref.Dump(obs.FromConfig(c), o)); d != "" {
		t.Fail("building other nodes (%s) from parts of a tree changes the tree: %s", strings.Join(hist, "; "), d)
	}
}

// confusable says whether a plugin of the tree has a name that is read as a
// part of a branch in front of it (outside the language: see C01 and C07).
func confusable(n *ref.Node) bool {
	bad := false
	ref.Walk(n, func(x *ref.Node) {
		if x.Kind == "plugin" && (strings.HasPrefix(x.Text, "if") || strings.HasPrefix(x.Text, "else")) {
			bad = true
		}
	})
	return bad
}

// roundTrip renders a tree and reads the text back.
func (t *T) roundTrip(what string, c ast.Config) {
	tree := obs.FromConfig(c)
	if confusable(tree) {
		t.Count("skipped_confusable_names", 1)
		return
	}
	o := ref.Opts{Comments: true}
	want := ref.Dump(ref.DropEmptyElse(dropNil(tree)), o)
	var out string
	t.sut("String", func() { out = c.String() })
	t.Eval()
	if after := ref.Dump(ref.DropEmptyElse(dropNil(obs.FromConfig(c))), o); after != want {
		t.Fail("%s: rendering changes the tree: %s", what, ref.Diff(want, after))
	}
	t.Note("rendered", out)
	t.Note("tree", want)
	m := ref.Parse(out)
	if !m.OK {
		t.Fail("%s: the rendered text is not valid: %q", what, cut(out))
	}
	if d := ref.Diff(want, ref.Dump(ref.DropEmptyElse(ref.Group(m.Root)), o)); d != "" {
		t.Fail("%s: the rendered text describes another configuration: %s", what, d)
	}
	p := t.parse("", out)
	if p.err != nil {
		t.Fail("%s: the rendered text is rejected: %v", what, p.err)
	}
	if d := ref.Diff(want, ref.Dump(ref.DropEmptyElse(obs.FromConfig(p.cfg)), o)); d != "" {
		t.Fail("%s: the rendered text parses to another configuration: %s", what, d)
	}
	if k := countNil(tree); k > 0 {
		t.Count("nil_entries", k)
	}
	t.features(tree)
	t.Distinct(want)
	if len(out) < 200 && len(out) > 40 {
		t.Sample("%s: %q", what, out)
	}
}

func cut(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

func c28Case(t *T, i int, r *rand.Rand) {
	b := newBuilder(r)
	if r.Intn(2) == 0 {
		t.Count("constructed", 1)
		c := b.config()
		t.reuse(b, c)
		t.roundTrip("constructed tree", c)
		return
	}
	s := validText(r)
	m, o, ok := t.accepted(s)
	if !ok || !t.inFormatDomain(s, m) {
		return
	}
	c := o.cfg
	b.ptrs = 0 // ApplyPlugins does not take pointers
	var hist []string
	for k := 1 + r.Intn(5); k > 0; k-- {
		b.last = k == 1
		hist = append(hist, b.editConfig(&c))
	}
	t.Count("edited", 1)
	t.Note("source", s)
	t.Note("edits", strings.Join(hist, "\n"))
	t.reuse(b, c)
	t.roundTrip(fmt.Sprintf("tree of %q after %v", cut(s), hist), c)
}

// editConfig changes a parsed tree in one place.
func (b *builder) editConfig(c *ast.Config) string {
	secs := []*[]ast.PluginSection{&c.Input, &c.Filter, &c.Output}
	k := b.r.Intn(3)
	l := secs[k]
	if len(*l) == 0 {
		*l = b.sections(ast.PluginType(k+int(ast.Input)), 1)
		return "add section"
	}
	s := &(*l)[b.r.Intn(len(*l))]
	switch b.r.Intn(8) {
	case 0:
		i := b.r.Intn(len(s.BranchOrPlugins) + 1)
		p := b.plugin(2)
		s.BranchOrPlugins = append(s.BranchOrPlugins[:i:i], append(body{p}, s.BranchOrPlugins[i:]...)...)
		return "insert plugin"
	case 1:
		if n := len(s.BranchOrPlugins); n > 0 {
			s.BranchOrPlugins[b.r.Intn(n)] = nil
		}
		return "entry set to nil"
	case 2: // put the whole section into a branch
		i := ast.NewIfBlock(b.cond(1), s.BranchOrPlugins...)
		s.BranchOrPlugins = body{ast.NewBranch(i, ast.NewElseBlock(b.plugin(1)))}
		return "wrap in branch"
	case 3:
		b.r.Shuffle(len(s.BranchOrPlugins), func(i, j int) {
			s.BranchOrPlugins[i], s.BranchOrPlugins[j] = s.BranchOrPlugins[j], s.BranchOrPlugins[i]
		})
		return "shuffle"
	case 4: // move to another section
		d := secs[b.r.Intn(3)]
		if len(*d) == 0 {
			*d = b.sections(ast.PluginType(ast.Input), 0)
			return "nothing"
		}
		x := &(*d)[0]
		if x == s {
			return "nothing"
		}
		x.BranchOrPlugins = append(x.BranchOrPlugins[:len(x.BranchOrPlugins):len(x.BranchOrPlugins)], s.BranchOrPlugins...)
		s.BranchOrPlugins = nil
		return "move to another section"
	case 5: // drop a section
		if len(*l) > 1 {
			*l = (*l)[1:]
			return "drop section"
		}
		return "nothing"
	}
	kind := b.r.Intn(5)
	s.BranchOrPlugins = astutil.ApplyPlugins(s.BranchOrPlugins, func(cur *astutil.Cursor) {
		p := cur.Plugin()
		if p == nil {
			return
		}
		switch kind {
		case 0:
			p.Attributes = append(p.Attributes[:len(p.Attributes):len(p.Attributes)], b.attribute(b.name(), 2, true))
		case 1:
			if n := len(p.Attributes); n > 0 {
				p.Attributes = append([]ast.Attribute{nil}, p.Attributes[1:]...)
			}
		case 2:
			if b.r.Intn(2) == 0 {
				cur.Delete()
				return
			}
		case 3:
			cur.InsertBefore(b.plugin(1))
		default:
			b.r.Shuffle(len(p.Attributes), func(i, j int) { p.Attributes[i], p.Attributes[j] = p.Attributes[j], p.Attributes[i] })
		}
		if b.r.Intn(3) == 0 {
			cur.Replace(p) // a pointer, which is what Plugin returns
			if b.r.Intn(2) == 0 || !b.last {
				cur.Replace(*p)
			}
		} else {
			cur.Replace(*p)
		}
	})
	return fmt.Sprintf("edit plugins (%d)", kind)
}

func init() {
	register(&Monitor{ID: "C19", Quick: numWords(escapeAlpha, 4) + numWords(unescapeAlpha, 6) + 200000, Thorough: numWords(escapeAlpha, 6) + numWords(unescapeAlpha, 8) + 3000000, Case: c19Case, Text: c19,
		Need:       []string{"escaped", "unescaped"},
		Rule:       "values with their escaped and unescaped forms against tables; distinct: values",
		Exhaustive: "all values of up to four (thorough: six) characters out of 12 for escaping, of up to six (eight) out of 7 for unescaping"})
	register(&Monitor{ID: "C20", Quick: numWords(quoteAlpha, 4) + 80000, Thorough: numWords(quoteAlpha, 6) + 1000000, Case: c20Case, Text: c20,
		Need:       []string{"literal_exists", "no_literal", "escaped_quotes"},
		Rule:       "values in three quoting kinds, each literal read by parser and model; distinct: values with kind inside the domain of escaping",
		Exhaustive: "all values of up to four (thorough: six) characters out of 11",
		Assume:     []string{"whether a literal exists is decided by reading the value between the quotes with parser and model"}})
	register(&Monitor{ID: "C21", Quick: 150000, Thorough: 3000000, Case: c21Case, Fixed: c21Fixed,
		Need: []string{"found", "absent", "not_a_string", "parsed_found", "parsed_absent", "parsed_not_a_string", "chains_not_found_true", "chains_not_found_false"},
		Rule: "constructed plugins, plugins of parsed texts (expectation from the model) and chains of wrapped errors; distinct: attribute lists, texts, chains"})
	register(&Monitor{ID: "C28", Quick: 60000, Thorough: 2000000, Case: c28Case,
		Need: []string{"constructed", "edited", "parts_reused", "nil_entries", "node_cmp", "node_in", "node_notin", "node_match", "node_rvalue", "node_not-sel", "node_not-cond", "node_paren", "node_hash", "node_array", "node_else", "node_elseif"},
		Rule: "trees assembled from constructors and edited trees of parsed texts, rendered and read back by model and parser; distinct: trees without positions"})
}
