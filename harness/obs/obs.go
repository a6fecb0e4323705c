// Package obs turns the trees the real code returns into the generic tree of
// the reference model. It reads the public fields and the elementary accessors
// only, never the rendering code of whole nodes.
package obs

import (
	"fmt"
	"strings"

	"github.com/breml/logstash-config/ast"

	"verif/harness/ref"
)

func pos(p ast.Pos) ref.Pos { return ref.Pos{Line: p.Line, Col: p.Column, Off: p.Offset} }

func comments(cb ast.CommentBlock) []ref.Comment {
	var out []ref.Comment
	for i, c := range cb {
		// A comment renders as optional blank lines around "# text".
		s := strings.Trim(c.String(), "\n")
		switch {
		case strings.HasPrefix(s, "# "):
			s = s[2:]
		case strings.HasPrefix(s, "#"):
			s = s[1:]
		default:
			s = "BAD-COMMENT:" + s
		}
		gap := i > 0 && (c.SpaceBefore || cb[i-1].SpaceAfter)
		out = append(out, ref.Comment{Text: strings.Trim(s, " "), Gap: gap})
	}
	return out
}

// Config converts what a parse returned.
func Config(v interface{}) (*ref.Node, error) {
	c, ok := v.(ast.Config)
	if !ok {
		return nil, fmt.Errorf("result is %T, not ast.Config", v)
	}
	return FromConfig(c), nil
}

// FromConfig converts a configuration.
func FromConfig(c ast.Config) *ref.Node {
	n := &ref.Node{Kind: "config", NoPos: true, Post: comments(c.FooterComment)}
	for _, g := range []struct {
		t  ast.PluginType
		ps []ast.PluginSection
	}{{ast.Input, c.Input}, {ast.Filter, c.Filter}, {ast.Output, c.Output}} {
		name := map[ast.PluginType]string{ast.Input: "input", ast.Filter: "filter", ast.Output: "output"}[g.t]
		for _, s := range g.ps {
			k := &ref.Node{Kind: "section", Text: name, Pos: pos(s.Pos()), Pre: comments(s.CommentBlock), Post: comments(s.FooterComment)}
			if s.PluginType != g.t {
				k.Text = fmt.Sprintf("%s-listed-as-%s", s.PluginType, name)
			}
			k.Kids = Body(s.BranchOrPlugins)
			n.Kids = append(n.Kids, k)
		}
	}
	return n
}

// Body converts the content of a section or block.
func Body(bs []ast.BranchOrPlugin) []*ref.Node {
	var out []*ref.Node
	for _, b := range bs {
		switch b := b.(type) {
		case nil:
			out = append(out, &ref.Node{Kind: "nil"})
		case ast.Plugin:
			out = append(out, Plugin(b))
		case *ast.Plugin:
			out = append(out, Plugin(*b))
		case ast.Branch:
			out = append(out, branch(b))
		case *ast.Branch:
			out = append(out, branch(*b))
		default:
			out = append(out, &ref.Node{Kind: fmt.Sprintf("unknown %T", b)})
		}
	}
	return out
}

// Plugin converts a plugin.
func Plugin(p ast.Plugin) *ref.Node {
	n := &ref.Node{Kind: "plugin", Text: p.Name(), Pos: pos(p.Pos()), Pre: comments(p.Comment), Post: comments(p.FooterComment)}
	for _, a := range p.Attributes {
		n.Kids = append(n.Kids, attr(a))
	}
	return n
}

func attr(a ast.Attribute) *ref.Node {
	if a == nil {
		return &ref.Node{Kind: "nil"}
	}
	v := Value(a)
	n := &ref.Node{Kind: "attr", Text: a.Name(), Pos: pos(a.Pos()), Pre: v.Pre, Kids: []*ref.Node{v}}
	if pa, ok := a.(ast.PluginAttribute); ok {
		n.Pre = comments(pa.Comment)
	} else {
		v.Pre = nil
		v.NoPos = true
	}
	return n
}

// Value converts an attribute value, ignoring its name.
func Value(a interface{}) *ref.Node {
	switch a := a.(type) {
	case nil:
		return &ref.Node{Kind: "nil"}
	case ast.StringAttribute:
		q := map[ast.StringAttributeType]string{ast.DoubleQuoted: `"`, ast.SingleQuoted: `'`, ast.Bareword: ``}
		qq, ok := q[a.StringAttributeType()]
		if !ok {
			qq = "?"
		}
		return &ref.Node{Kind: "str", Text: qq + a.Value() + qq, Pos: pos(a.Pos()), Pre: comments(a.Comment)}
	case ast.NumberAttribute:
		return &ref.Node{Kind: "num", Num: a.Value(), Pos: pos(a.Pos()), Pre: comments(a.Comment)}
	case ast.ArrayAttribute:
		n := &ref.Node{Kind: "array", Pos: pos(a.Pos()), Pre: comments(a.Comment), Post: comments(a.FooterComment)}
		for _, e := range a.Attributes {
			k := Value(e)
			if e != nil && e.Name() != "" {
				k.Text += "!named:" + e.Name()
			}
			n.Kids = append(n.Kids, k)
		}
		return n
	case ast.HashAttribute:
		n := &ref.Node{Kind: "hash", Pos: pos(a.Pos()), Pre: comments(a.Comment), Post: comments(a.FooterComment)}
		for _, e := range a.Entries {
			n.Kids = append(n.Kids, &ref.Node{Kind: "entry", Pos: pos(e.Pos()), Pre: comments(e.Comment),
				Kids: []*ref.Node{Value(e.Key), Value(e.Value)}})
		}
		return n
	case ast.PluginAttribute:
		return Plugin(a.Value())
	case ast.Selector:
		n := &ref.Node{Kind: "selector", Pos: pos(a.Pos())}
		for _, e := range a.Elements {
			s := e.String()
			if len(s) >= 2 && s[0] == '[' && s[len(s)-1] == ']' {
				s = s[1 : len(s)-1]
			} else {
				s = "BAD-ELEMENT:" + s
			}
			n.Kids = append(n.Kids, &ref.Node{Kind: "elem", Text: s, Pos: pos(e.Pos())})
		}
		return n
	case ast.Regexp:
		return &ref.Node{Kind: "regexp", Text: "/" + a.Regexp + "/", Pos: pos(a.Pos())}
	}
	return &ref.Node{Kind: fmt.Sprintf("unknown %T", a)}
}

func branch(b ast.Branch) *ref.Node {
	n := &ref.Node{Kind: "branch", Pos: pos(b.Pos())}
	n.Kids = append(n.Kids, block("if", b.IfBlock.Pos(), &b.IfBlock.Condition, b.IfBlock.Block, b.IfBlock.Comment, b.IfBlock.FooterComment))
	for _, e := range b.ElseIfBlock {
		n.Kids = append(n.Kids, block("elseif", e.Pos(), &e.Condition, e.Block, e.Comment, e.FooterComment))
	}
	e := b.ElseBlock
	if len(e.Block) > 0 || len(e.Comment) > 0 || len(e.FooterComment) > 0 || e.Start != (ast.Pos{}) {
		n.Kids = append(n.Kids, block("else", e.Pos(), nil, e.Block, e.Comment, e.FooterComment))
	}
	return n
}

func block(kind string, p ast.Pos, c *ast.Condition, body []ast.BranchOrPlugin, pre, post ast.CommentBlock) *ref.Node {
	n := &ref.Node{Kind: kind, Pos: pos(p), Pre: comments(pre), Post: comments(post)}
	if c != nil {
		n.Kids = append(n.Kids, cond(*c))
	}
	n.Kids = append(n.Kids, Body(body)...)
	return n
}

func cond(c ast.Condition) *ref.Node {
	n := &ref.Node{Kind: "cond", NoPos: true}
	for _, e := range c.Expression {
		n.Kids = append(n.Kids, expr(e))
	}
	return n
}

func expr(e ast.Expression) *ref.Node {
	if e == nil {
		return &ref.Node{Kind: "nil"}
	}
	n := &ref.Node{Pos: pos(e.Pos())}
	bo := e.BoolOperator()
	switch bo.Op {
	case ast.NoOperator:
	case ast.And:
		n.Bool = "and"
	case ast.Or:
		n.Bool = "or"
	case ast.Xor:
		n.Bool = "xor"
	case ast.Nand:
		n.Bool = "nand"
	default:
		n.Bool = fmt.Sprintf("undefined%d", bo.Op)
	}
	if n.Bool != "" {
		n.BoolPos = pos(bo.Pos())
	}
	switch e := e.(type) {
	case ast.ConditionExpression:
		n.Kind, n.Kids = "paren", []*ref.Node{cond(e.Condition)}
	case ast.NegativeConditionExpression:
		n.Kind, n.Kids = "not-cond", []*ref.Node{cond(e.Condition)}
	case ast.NegativeSelectorExpression:
		n.Kind, n.Kids = "not-sel", []*ref.Node{Value(e.Selector)}
	case ast.InExpression:
		n.Kind, n.Text, n.Kids = "in", "in", []*ref.Node{Value(e.LValue), Value(e.RValue)}
	case ast.NotInExpression:
		n.Kind, n.Text, n.Kids = "notin", "not in", []*ref.Node{Value(e.LValue), Value(e.RValue)}
	case ast.CompareExpression:
		n.Kind, n.Kids = "cmp", []*ref.Node{Value(e.LValue), Value(e.RValue)}
		ops := map[int]string{ast.Equal: "==", ast.NotEqual: "!=", ast.LessOrEqual: "<=", ast.GreaterOrEqual: ">=", ast.LessThan: "<", ast.GreaterThan: ">"}
		n.Text = ops[e.CompareOperator.Op]
		n.OpPos = pos(e.CompareOperator.Pos())
	case ast.RegexpExpression:
		n.Kind, n.Kids = "match", []*ref.Node{Value(e.LValue), Value(e.RValue)}
		n.Text = map[int]string{ast.RegexpMatch: "=~", ast.RegexpNotMatch: "!~"}[e.RegexpOperator.Op]
		n.OpPos = pos(e.RegexpOperator.Pos())
	case ast.RvalueExpression:
		n.Kind, n.Kids = "rvalue", []*ref.Node{Value(e.RValue)}
	default:
		n.Kind = fmt.Sprintf("unknown %T", e)
	}
	return n
}
