// Package ref is an executable reference model of the Logstash configuration
// language as /repo/grammar.treetop and the rules quoted in
// /repo/logstash_config.peg define it. It shares no code with the system under
// test: it is a hand written backtracking recogniser that builds a plain
// generic tree. The monitors compare what the real code does with it.
package ref

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Pos is a source position. Line and column are 1 based, columns count runes,
// Off is a byte offset.
type Pos struct{ Line, Col, Off int }

func (p Pos) String() string { return fmt.Sprintf("%d:%d[%d]", p.Line, p.Col, p.Off) }

// Comment is one comment line: its text without the hash and without the
// surrounding blanks. Gap is set if blank lines separate it from the comment
// before it in the same block.
type Comment struct {
	Text string
	Gap  bool
}

// Node is an element of the configuration.
type Node struct {
	Kind    string
	Text    string
	Num     float64
	Bool    string // boolean operator in front of an expression
	BoolPos Pos
	OpPos   Pos
	Pos     Pos
	NoPos   bool // the node carries no position of its own
	Pre     []Comment
	Post    []Comment
	Kids    []*Node
}

// Result is what the model says about a text.
type Result struct {
	OK   bool
	Root *Node
	// Warn holds the offsets of the stretches between tokens that hold a
	// comment in an exceptional place, in text order.
	Warn []int
	// Disputed: the grammar (pure PEG backtracking) and the abort rules for
	// unclosed constructs give different verdicts, or a number is too large.
	Disputed string
	// Far is the farthest offset the model looked at.
	Far int
	// Gaps, Lits and Comments are the stretches between tokens, the literals
	// (strings, regular expressions, field reference elements) and the comments
	// (hash to end of line) of an accepted text, in text order.
	Gaps, Lits, Comments []Span
}

// Span is a half open byte range.
type Span struct{ From, To int }

type abort struct{}

type parser struct {
	s        string
	i        int
	far      int
	warn     []int
	gaps     []Span
	lits     []Span
	cspans   []Span
	noAbort  bool
	semErr   bool
	hugeNum  bool
	lineOffs []int
}

// PosAt computes the position of an offset.
func PosAt(s string, off int) Pos {
	line := 1 + strings.Count(s[:off], "\n")
	ls := strings.LastIndexByte(s[:off], '\n') + 1
	return Pos{line, utf8.RuneCountInString(s[ls:off]) + 1, off}
}

func (p *parser) posAt(off int) Pos {
	if p.lineOffs == nil {
		p.lineOffs = []int{0}
		for i := 0; i < len(p.s); i++ {
			if p.s[i] == '\n' {
				p.lineOffs = append(p.lineOffs, i+1)
			}
		}
	}
	lo, hi := 0, len(p.lineOffs)
	for hi-lo > 1 {
		m := (lo + hi) / 2
		if p.lineOffs[m] <= off {
			lo = m
		} else {
			hi = m
		}
	}
	return Pos{lo + 1, utf8.RuneCountInString(p.s[p.lineOffs[lo]:off]) + 1, off}
}

// Parse runs the model.
func Parse(s string) Result {
	r := parse(s, false)
	if !utf8.ValidString(s) {
		r.OK, r.Root = false, nil
		return r
	}
	if !r.OK && r.Disputed == "" {
		if r2 := parse(s, true); r2.OK {
			r.Disputed = "abort-vs-backtrack"
		}
	}
	return r
}

// ParseLoose runs the model without looking at the encoding.
func ParseLoose(s string) Result { return parse(s, false) }

func parse(s string, noAbort bool) (r Result) {
	p := &parser{s: s, noAbort: noAbort}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abort); !ok {
				panic(e)
			}
			r = Result{Far: p.far}
			if p.hugeNum {
				r.Disputed = "huge-number"
			}
		}
	}()
	root, ok := p.config()
	if ok && p.semErr {
		ok = false
	}
	r = Result{OK: ok, Root: root, Warn: p.warn, Far: p.far}
	if p.hugeNum {
		r.Disputed = "huge-number"
	}
	if !ok {
		r.Root = nil
	} else {
		r.Gaps, r.Lits, r.Comments = p.gaps, p.lits, p.cspans
	}
	return r
}

func (p *parser) fatal() bool {
	if !p.noAbort {
		panic(abort{})
	}
	return false
}

type mark struct{ i, w, g, l, c int }

func (p *parser) mark() mark {
	return mark{p.i, len(p.warn), len(p.gaps), len(p.lits), len(p.cspans)}
}

func (p *parser) reset(m mark) {
	p.i, p.warn, p.gaps, p.lits, p.cspans = m.i, p.warn[:m.w], p.gaps[:m.g], p.lits[:m.l], p.cspans[:m.c]
}

func (p *parser) peek() byte {
	if p.i > p.far {
		p.far = p.i
	}
	if p.i < len(p.s) {
		return p.s[p.i]
	}
	return 0
}
func (p *parser) eof() bool {
	if p.i > p.far {
		p.far = p.i
	}
	return p.i >= len(p.s)
}

func (p *parser) lit(l string) bool {
	if strings.HasPrefix(p.s[p.i:], l) {
		p.i += len(l)
		if p.i > p.far {
			p.far = p.i
		}
		return true
	}
	for k := 0; k < len(l) && p.i+k < len(p.s) && p.s[p.i+k] == l[k]; k++ {
		if p.i+k+1 > p.far {
			p.far = p.i + k + 1
		}
	}
	return false
}

func isWS(c byte) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\n' }

func (p *parser) ws() bool {
	st := p.i
	for !p.eof() && isWS(p.peek()) {
		p.i++
	}
	return p.i > st
}

// commentGroup recognises one or more comment lines.
func (p *parser) commentGroup() ([]Comment, bool) {
	var out []Comment
	for {
		m := p.mark()
		wsStart := p.i
		p.ws()
		between := p.s[wsStart:p.i]
		if p.eof() || p.peek() != '#' {
			p.reset(m)
			break
		}
		p.i++
		st := p.i
		for !p.eof() && p.peek() != '\r' && p.peek() != '\n' {
			p.i++
		}
		end := p.i
		if !p.eof() && p.peek() == '\r' {
			p.i++
		}
		if !p.eof() {
			if p.peek() != '\n' {
				p.reset(m)
				break
			}
			p.i++
		}
		p.cspans = append(p.cspans, Span{st - 1, end})
		out = append(out, Comment{
			Text: strings.Trim(p.s[st:end], " "),
			Gap:  len(out) > 0 && strings.Contains(between, "\n"),
		})
	}
	return out, len(out) > 0
}

// gap is the rule _ : blanks and regular comments.
func (p *parser) gap() []Comment {
	var out []Comment
	st := p.i
	for {
		if c, ok := p.commentGroup(); ok {
			out = append(out, c...)
			continue
		}
		if p.ws() {
			continue
		}
		p.gaps = append(p.gaps, Span{st, p.i})
		return out
	}
}

// gapX is the rule __ : the same, in a place where comments are exceptional.
func (p *parser) gapX() {
	st := p.i
	if len(p.gap()) > 0 {
		p.warn = append(p.warn, st)
	}
}

func (p *parser) config() (*Node, bool) {
	n := &Node{Kind: "config", NoPos: true}
	m := p.mark()
	pre := p.gap()
	if s, ok := p.section(); ok {
		s.Pre = pre
		n.Kids = append(n.Kids, s)
		for {
			m2 := p.mark()
			pre := p.gap()
			s, ok := p.section()
			if !ok {
				p.reset(m2)
				break
			}
			s.Pre = pre
			n.Kids = append(n.Kids, s)
		}
		n.Post = p.gap()
		if p.eof() {
			return n, true
		}
	}
	p.reset(m)
	p.gap()
	if p.eof() {
		return &Node{Kind: "config", NoPos: true}, true
	}
	return nil, false
}

func (p *parser) section() (*Node, bool) {
	m := p.mark()
	n := &Node{Kind: "section", Pos: p.posAt(p.i)}
	switch {
	case p.lit("input"):
		n.Text = "input"
	case p.lit("filter"):
		n.Text = "filter"
	case p.lit("output"):
		n.Text = "output"
	default:
		p.reset(m)
		return nil, false
	}
	p.gapX()
	if !p.lit("{") {
		p.reset(m)
		return nil, false
	}
	n.Kids = p.body()
	n.Post = p.gap()
	if !p.lit("}") {
		p.reset(m)
		return nil, false
	}
	return n, true
}

func (p *parser) body() []*Node {
	var out []*Node
	for {
		m := p.mark()
		b, ok := p.branchOrPlugin()
		if !ok {
			p.reset(m)
			return out
		}
		out = append(out, b)
	}
}

func (p *parser) branchOrPlugin() (*Node, bool) {
	m := p.mark()
	pre := p.gap()
	if b, ok := p.branch(); ok {
		b.Kids[0].Pre = pre
		return b, true
	}
	p.reset(m)
	return p.plugin()
}

func isNameByte(c byte) bool {
	return c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '_' || c == '-'
}

func (p *parser) name() (string, bool) {
	st := p.i
	for !p.eof() && isNameByte(p.peek()) {
		p.i++
	}
	if p.i > st {
		return p.s[st:p.i], true
	}
	return p.str()
}

func (p *parser) str() (string, bool) {
	if p.eof() {
		return "", false
	}
	q := p.peek()
	if q != '"' && q != '\'' {
		return "", false
	}
	return p.enclosed(q)
}

func (p *parser) enclosed(q byte) (string, bool) {
	st := p.i
	p.i++
	for {
		if p.eof() {
			p.fatal()
			p.i = st
			return "", false
		}
		c := p.peek()
		if c == '\\' && p.i+1 < len(p.s) && p.s[p.i+1] == q {
			p.i += 2
			continue
		}
		p.i++
		if c == q {
			p.lits = append(p.lits, Span{st, p.i})
			return p.s[st:p.i], true
		}
	}
}

func (p *parser) plugin() (*Node, bool) {
	m := p.mark()
	n := &Node{Kind: "plugin"}
	n.Pre = p.gap()
	n.Pos = p.posAt(p.i)
	name, ok := p.name()
	if !ok {
		p.reset(m)
		return nil, false
	}
	n.Text = name
	p.gapX()
	if !p.lit("{") {
		p.reset(m)
		return nil, false
	}
	m2 := p.mark()
	pre := p.gap()
	if a, ok := p.attribute(); ok {
		a.Pre = pre
		n.Kids = append(n.Kids, a)
		for {
			m3 := p.mark()
			if !p.ws() {
				break
			}
			pre := p.gap()
			a, ok := p.attribute()
			if !ok {
				p.reset(m3)
				break
			}
			a.Pre = pre
			n.Kids = append(n.Kids, a)
		}
	} else {
		p.reset(m2)
	}
	n.Post = p.gap()
	if !p.lit("}") {
		p.fatal()
		p.reset(m)
		return nil, false
	}
	return n, true
}

func (p *parser) attribute() (*Node, bool) {
	m := p.mark()
	n := &Node{Kind: "attr", Pos: p.posAt(p.i)}
	name, ok := p.name()
	if !ok {
		p.reset(m)
		return nil, false
	}
	n.Text = name
	p.gapX()
	if !p.lit("=>") {
		p.reset(m)
		return nil, false
	}
	p.gapX()
	v, ok := p.value()
	if !ok {
		p.reset(m)
		return nil, false
	}
	if v.Kind != "plugin" {
		v.NoPos = true
	}
	n.Kids = []*Node{v}
	return n, true
}

func (p *parser) value() (*Node, bool) {
	m := p.mark()
	if v, ok := p.plugin(); ok {
		return v, true
	}
	p.reset(m)
	if v, ok := p.bareword(); ok {
		return v, true
	}
	if v, ok := p.strNode(); ok {
		return v, true
	}
	if v, ok := p.number(); ok {
		return v, true
	}
	if v, ok := p.array(); ok {
		return v, true
	}
	if v, ok := p.hash(); ok {
		return v, true
	}
	p.reset(m)
	return nil, false
}

func (p *parser) bareword() (*Node, bool) {
	st := p.i
	if p.eof() {
		return nil, false
	}
	c := p.peek()
	if c == '-' || c >= '0' && c <= '9' || !isNameByte(c) {
		return nil, false
	}
	p.i++
	for !p.eof() && p.peek() != '-' && isNameByte(p.peek()) {
		p.i++
	}
	if p.i-st < 2 {
		p.i = st
		return nil, false
	}
	return &Node{Kind: "str", Text: p.s[st:p.i], Pos: p.posAt(st)}, true
}

func (p *parser) strNode() (*Node, bool) {
	st := p.i
	s, ok := p.str()
	if !ok {
		return nil, false
	}
	return &Node{Kind: "str", Text: s, Pos: p.posAt(st)}, true
}

func (p *parser) number() (*Node, bool) {
	st := p.i
	if !p.eof() && p.peek() == '-' {
		p.i++
	}
	ds := p.i
	for !p.eof() && p.peek() >= '0' && p.peek() <= '9' {
		p.i++
	}
	if p.i == ds {
		p.i = st
		return nil, false
	}
	if !p.eof() && p.peek() == '.' {
		p.i++
		for !p.eof() && p.peek() >= '0' && p.peek() <= '9' {
			p.i++
		}
	}
	f, err := strconv.ParseFloat(p.s[st:p.i], 64)
	if err != nil || math.IsInf(f, 0) {
		p.hugeNum = true
	}
	return &Node{Kind: "num", Num: f, Pos: p.posAt(st)}, true
}

func (p *parser) array() (*Node, bool) {
	m := p.mark()
	n := &Node{Kind: "array", Pos: p.posAt(p.i)}
	if !p.lit("[") {
		return nil, false
	}
	m2 := p.mark()
	pre := p.gap()
	if v, ok := p.value(); ok {
		p.elem(n, v, pre)
		for {
			m3 := p.mark()
			p.gapX()
			if !p.lit(",") {
				p.reset(m3)
				break
			}
			pre := p.gap()
			v, ok := p.value()
			if !ok {
				p.reset(m3)
				break
			}
			p.elem(n, v, pre)
		}
	} else {
		p.reset(m2)
	}
	n.Post = p.gap()
	if !p.lit("]") {
		p.fatal()
		p.reset(m)
		return nil, false
	}
	return n, true
}

func (p *parser) elem(n, v *Node, pre []Comment) {
	if v.Kind == "plugin" {
		p.semErr = true
	}
	v.Pre = pre
	n.Kids = append(n.Kids, v)
}

func (p *parser) hash() (*Node, bool) {
	m := p.mark()
	n := &Node{Kind: "hash", Pos: p.posAt(p.i)}
	if !p.lit("{") {
		return nil, false
	}
	if e, ok := p.hashEntry(); ok {
		n.Kids = append(n.Kids, e)
		for {
			m2 := p.mark()
			if !p.ws() {
				break
			}
			e, ok := p.hashEntry()
			if !ok {
				p.reset(m2)
				break
			}
			n.Kids = append(n.Kids, e)
		}
	}
	n.Post = p.gap()
	if !p.lit("}") {
		p.fatal()
		p.reset(m)
		return nil, false
	}
	return n, true
}

func (p *parser) hashEntry() (*Node, bool) {
	m := p.mark()
	n := &Node{Kind: "entry"}
	n.Pre = p.gap()
	n.Pos = p.posAt(p.i)
	k, ok := p.number()
	if !ok {
		k, ok = p.bareword()
	}
	if !ok {
		k, ok = p.strNode()
	}
	if !ok {
		p.reset(m)
		return nil, false
	}
	p.gapX()
	if !p.lit("=>") {
		p.reset(m)
		return nil, false
	}
	p.gapX()
	v, ok := p.value()
	if !ok {
		p.reset(m)
		return nil, false
	}
	if v.Kind == "plugin" {
		p.semErr = true
	}
	n.Kids = []*Node{k, v}
	return n, true
}

func (p *parser) branch() (*Node, bool) {
	m := p.mark()
	ib, ok := p.block("if", true)
	if !ok {
		p.reset(m)
		return nil, false
	}
	n := &Node{Kind: "branch", Pos: ib.Pos, Kids: []*Node{ib}}
	for {
		m2 := p.mark()
		pre := p.gap()
		st := p.i
		ok := p.lit("else")
		if ok {
			p.gapX()
		}
		var b *Node
		if ok {
			b, ok = p.block("elseif", true)
		}
		if !ok {
			p.reset(m2)
			break
		}
		b.Pos = p.posAt(st)
		b.Pre = pre
		n.Kids = append(n.Kids, b)
	}
	m2 := p.mark()
	pre := p.gap()
	st := p.i
	ok = p.lit("else")
	if ok {
		p.gapX()
	}
	var b *Node
	if ok {
		b, ok = p.block("else", false)
	}
	if !ok {
		p.reset(m2)
		return n, true
	}
	b.Pos = p.posAt(st)
	b.Pre = pre
	n.Kids = append(n.Kids, b)
	return n, true
}

func (p *parser) block(kind string, cond bool) (*Node, bool) {
	m := p.mark()
	n := &Node{Kind: kind, Pos: p.posAt(p.i)}
	if cond {
		if !p.lit("if") {
			return nil, false
		}
		p.gapX()
		c, ok := p.condition()
		if !ok {
			p.reset(m)
			return nil, false
		}
		n.Kids = append(n.Kids, c)
		p.gapX()
	}
	if !p.lit("{") {
		p.reset(m)
		return nil, false
	}
	n.Kids = append(n.Kids, p.body()...)
	n.Post = p.gap()
	if !p.lit("}") {
		p.fatal()
		p.reset(m)
		return nil, false
	}
	return n, true
}

func (p *parser) condition() (*Node, bool) {
	n := &Node{Kind: "cond", NoPos: true}
	e, ok := p.expression()
	if !ok {
		return nil, false
	}
	n.Kids = append(n.Kids, e)
	for {
		m := p.mark()
		p.gapX()
		st := p.i
		op := ""
		for _, o := range []string{"and", "or", "xor", "nand"} {
			if p.lit(o) {
				op = o
				break
			}
		}
		if op == "" {
			p.reset(m)
			break
		}
		p.gapX()
		e, ok := p.expression()
		if !ok {
			p.reset(m)
			break
		}
		e.Bool, e.BoolPos = op, p.posAt(st)
		n.Kids = append(n.Kids, e)
	}
	return n, true
}

func (p *parser) expression() (*Node, bool) {
	m := p.mark()
	start := p.posAt(p.i)
	// parentheses
	if p.lit("(") {
		p.gapX()
		if c, ok := p.condition(); ok {
			p.gapX()
			if p.lit(")") {
				return &Node{Kind: "paren", Pos: start, Kids: []*Node{c}}, true
			}
		}
		p.reset(m)
	}
	// negations
	if p.lit("!") {
		p.gapX()
		if p.lit("(") {
			p.gapX()
			if c, ok := p.condition(); ok {
				p.gapX()
				if p.lit(")") {
					return &Node{Kind: "not-cond", Pos: start, Kids: []*Node{c}}, true
				}
				p.fatal()
			}
		}
		p.reset(m)
		p.lit("!")
		p.gapX()
		if s, ok := p.selector(); ok {
			return &Node{Kind: "not-sel", Pos: start, Kids: []*Node{s}}, true
		}
		p.reset(m)
	}
	// left hand side, then the operators in their order
	l, ok := p.rvalue()
	if !ok {
		p.reset(m)
		return nil, false
	}
	after := p.mark()
	type alt struct {
		kind string
		ops  []string
	}
	for _, a := range []alt{
		{"in", []string{"in"}},
		{"notin", nil},
		{"cmp", []string{"==", "!=", "<=", ">=", "<", ">"}},
		{"match", []string{"=~", "!~"}},
	} {
		p.reset(after)
		p.gapX()
		opAt := p.i
		op := ""
		if a.kind == "notin" {
			if !p.lit("not ") {
				continue
			}
			p.gapX()
			if !p.lit("in") {
				continue
			}
			op = "not in"
		} else {
			for _, o := range a.ops {
				if p.lit(o) {
					op = o
					break
				}
			}
			if op == "" {
				continue
			}
		}
		p.gapX()
		var r *Node
		if a.kind == "match" {
			r, ok = p.strNode()
			if !ok {
				r, ok = p.regexp()
			}
		} else {
			r, ok = p.rvalue()
		}
		if !ok {
			continue
		}
		n := &Node{Kind: a.kind, Text: op, Pos: start, Kids: []*Node{l, r}}
		if a.kind == "cmp" || a.kind == "match" {
			n.OpPos = p.posAt(opAt)
		}
		return n, true
	}
	p.reset(after)
	return &Node{Kind: "rvalue", Pos: start, Kids: []*Node{l}}, true
}

func (p *parser) rvalue() (*Node, bool) {
	if n, ok := p.strNode(); ok {
		return n, true
	}
	if n, ok := p.number(); ok {
		return n, true
	}
	if n, ok := p.selector(); ok {
		return n, true
	}
	if n, ok := p.array(); ok {
		return n, true
	}
	return p.regexp()
}

func (p *parser) regexp() (*Node, bool) {
	if p.eof() || p.peek() != '/' {
		return nil, false
	}
	st := p.i
	t, ok := p.enclosed('/')
	if !ok {
		return nil, false
	}
	return &Node{Kind: "regexp", Text: t, Pos: p.posAt(st)}, true
}

func (p *parser) selector() (*Node, bool) {
	n := &Node{Kind: "selector", Pos: p.posAt(p.i)}
	for {
		st := p.i
		if !p.lit("[") {
			break
		}
		for !p.eof() && p.peek() != ']' && p.peek() != '[' && p.peek() != ',' {
			p.i++
		}
		if p.i == st+1 || p.eof() || p.peek() != ']' {
			p.i = st
			break
		}
		p.i++
		p.lits = append(p.lits, Span{st, p.i})
		n.Kids = append(n.Kids, &Node{Kind: "elem", Text: p.s[st+1 : p.i-1], Pos: p.posAt(st)})
	}
	return n, len(n.Kids) > 0
}
