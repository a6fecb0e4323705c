package ref

import "unicode/utf8"

// Rules lists the rules of the grammar the model can start with.
var Rules = []string{"config", "pluginSection", "branchOrPlugin", "plugin", "attribute", "value", "array", "hash",
	"hashentries", "hashentry", "branch", "ifCond", "elseIf", "elseCond", "condition", "expression",
	"negativeExpression", "inExpression", "notInExpression", "rvalue", "compareExpression", "regexpExpression"}

// ParseRule runs the model on the start of the text with one rule. Far is the
// offset behind what the rule has taken.
func ParseRule(rule, s string) Result {
	r := parseRule(rule, s, false)
	if !r.OK && r.Disputed == "" {
		if r2 := parseRule(rule, s, true); r2.OK {
			r.Disputed = "abort-vs-backtrack"
		}
	}
	if !utf8.ValidString(s) && r.Disputed == "" {
		r.Disputed = "encoding"
	}
	return r
}

func parseRule(rule, s string, noAbort bool) (r Result) {
	p := &parser{s: s, noAbort: noAbort}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abort); !ok {
				panic(e)
			}
			r = Result{Far: p.far}
			if p.hugeNum {
				r.Disputed = "huge-number"
			}
		}
	}()
	n, ok := p.rule(rule)
	if ok && p.semErr {
		ok = false
	}
	r = Result{OK: ok, Root: n, Far: p.i}
	if p.hugeNum {
		r.Disputed = "huge-number"
	}
	if !ok {
		r.Root = nil
	}
	return r
}

func (p *parser) rule(rule string) (*Node, bool) {
	kind := func(k ...string) (*Node, bool) {
		n, ok := p.expression()
		if !ok {
			return nil, false
		}
		for _, x := range k {
			if n.Kind == x {
				return n, true
			}
		}
		return nil, false
	}
	els := func(kind string, cond bool) (*Node, bool) {
		st := p.i
		if !p.lit("else") {
			return nil, false
		}
		p.gapX()
		n, ok := p.block(kind, cond)
		if ok {
			n.Pos = p.posAt(st)
		}
		return n, ok
	}
	switch rule {
	case "config": // with at least one section
		n, ok := p.config()
		if !ok || len(n.Kids) == 0 {
			return nil, false
		}
		return Group(n), true
	case "pluginSection":
		return p.section()
	case "branchOrPlugin":
		return p.branchOrPlugin()
	case "plugin":
		return p.plugin()
	case "attribute":
		return p.attribute()
	case "value":
		return p.value()
	case "array":
		return p.array()
	case "hash":
		return p.hash()
	case "hashentry":
		return p.hashEntry()
	case "hashentries":
		n := &Node{Kind: "entries", NoPos: true}
		e, ok := p.hashEntry()
		for ok {
			n.Kids = append(n.Kids, e)
			m := p.mark()
			if !p.ws() {
				break
			}
			if e, ok = p.hashEntry(); !ok {
				p.reset(m)
			}
		}
		return n, len(n.Kids) > 0
	case "branch": // with the comments in front of it
		pre := p.gap()
		n, ok := p.branch()
		if ok {
			n.Kids[0].Pre = pre
		}
		return n, ok
	case "ifCond":
		return p.block("if", true)
	case "elseIf":
		return els("elseif", true)
	case "elseCond":
		return els("else", false)
	case "condition":
		return p.condition()
	case "expression":
		return p.expression()
	case "negativeExpression":
		return kind("not-cond", "not-sel")
	case "inExpression":
		return kind("in")
	case "notInExpression":
		return kind("notin")
	case "compareExpression":
		return kind("cmp")
	case "regexpExpression":
		return kind("match")
	case "rvalue":
		return p.rvalue()
	}
	panic("unknown rule " + rule)
}
