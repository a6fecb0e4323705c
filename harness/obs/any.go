package obs

import (
	"fmt"

	"github.com/breml/logstash-config/ast"

	"verif/harness/ref"
)

// Any converts whatever a parse with some entry point returned.
func Any(v interface{}) (n *ref.Node) {
	switch x := v.(type) {
	case ast.Config:
		return FromConfig(x)
	case ast.PluginSection:
		c := ast.Config{}
		switch x.PluginType {
		case ast.Input:
			c.Input = append(c.Input, x)
		case ast.Filter:
			c.Filter = append(c.Filter, x)
		case ast.Output:
			c.Output = append(c.Output, x)
		default:
			return &ref.Node{Kind: "section of no type"}
		}
		return FromConfig(c).Kids[0]
	case ast.Plugin:
		return Plugin(x)
	case ast.Branch:
		return branch(x)
	case ast.IfBlock:
		return block("if", x.Pos(), &x.Condition, x.Block, x.Comment, x.FooterComment)
	case ast.ElseIfBlock:
		return block("elseif", x.Pos(), &x.Condition, x.Block, x.Comment, x.FooterComment)
	case ast.ElseBlock:
		return block("else", x.Pos(), nil, x.Block, x.Comment, x.FooterComment)
	case ast.Condition:
		return cond(x)
	case ast.HashEntry:
		return FromEntry(x)
	case []ast.HashEntry:
		n := &ref.Node{Kind: "entries", NoPos: true}
		for _, e := range x {
			n.Kids = append(n.Kids, FromEntry(e))
		}
		return n
	case ast.Expression:
		return expr(x)
	}
	return &ref.Node{Kind: fmt.Sprintf("unknown %T", v)}
}

// FromEntry converts a hash entry.
func FromEntry(e ast.HashEntry) *ref.Node {
	return &ref.Node{Kind: "entry", Pos: pos(e.Pos()), Pre: comments(e.Comment), Kids: []*ref.Node{Value(e.Key), Value(e.Value)}}
}

// Attribute converts an attribute with its name.
func Attribute(a ast.Attribute) *ref.Node { return attr(a) }
