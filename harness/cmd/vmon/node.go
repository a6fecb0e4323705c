package main

import (
	"fmt"
	"math/rand"

	"github.com/breml/logstash-config/ast"

	"verif/harness/gen"
	"verif/harness/obs"
	"verif/harness/ref"
)

// ---- C30: every node renders on its own to the text of exactly that node

// nodeCheck compares what a rendered node says in a frame with the node.
type nodeCheck struct {
	t *T
	s string // the text the tree stems from
	n int    // nodes left to look at
	r *rand.Rand
}

// read compares the text of a frame with a configuration holding the node.
func (c *nodeCheck) read(what, text string, want ast.Config) {
	t := c.t
	t.Eval()
	t.Count("node_"+what, 1)
	o := ref.Opts{Comments: true}
	m := ref.Parse(text)
	if !m.OK {
		c.fail("%s on its own is not valid in its place: %q", what, cut(text))
	}
	w := ref.Dump(ref.DropEmptyElse(dropNil(obs.FromConfig(want))), o)
	if d := ref.Diff(w, ref.Dump(ref.DropEmptyElse(m.Root), o)); d != "" {
		c.fail("%s on its own says something else: %s\n%q", what, d, cut(text))
	}
	if c.r.Intn(16) == 0 { // the parser reads the same
		p := t.parse("", text)
		if p.err != nil {
			c.fail("%s on its own is rejected in its place: %v: %q", what, p.err, cut(text))
		}
		if d := ref.Diff(w, ref.Dump(ref.DropEmptyElse(obs.FromConfig(p.cfg)), o)); d != "" {
			c.fail("%s on its own is parsed as something else: %s\n%q", what, d, cut(text))
		}
	}
	t.Distinct(what, w)
	if len(text) < 120 && len(text) > 30 {
		t.Sample("%s: %q", what, text)
	}
}

func (c *nodeCheck) fail(format string, args ...interface{}) {
	if c.s == "" { // a constructed tree
		c.t.Fail(format, args...)
	}
	c.t.FailText(c.s, format, args...)
}

func inFilter(bs ...ast.BranchOrPlugin) ast.Config {
	return ast.NewConfig(nil, ast.NewPluginSections(ast.Filter, bs...), nil)
}

func (c *nodeCheck) eq(what, got, want string) {
	c.t.Eval()
	if got != want {
		c.fail("%s is %q, expected %q", what, got, want)
	}
}

func (c *nodeCheck) config(cfg ast.Config) {
	for k, l := range [][]ast.PluginSection{cfg.Input, cfg.Filter, cfg.Output} {
		for i, s := range l {
			one := ast.Config{}
			*[]*[]ast.PluginSection{&one.Input, &one.Filter, &one.Output}[k] = l[i : i+1]
			c.read("section", s.CommentBlock.String()+s.PluginType.String()+" {\n"+s.String()+s.FooterComment.String()+"}\n", one)
			c.comments(s.CommentBlock)
			c.comments(s.FooterComment)
			c.body(s.BranchOrPlugins)
		}
	}
	c.comments(cfg.FooterComment)
}

func (c *nodeCheck) more() bool {
	c.n--
	return c.n > 0
}

func (c *nodeCheck) comments(cb ast.CommentBlock) {
	if len(cb) == 0 || !c.more() {
		return
	}
	want := inFilter()
	want.Filter[0].FooterComment = cb
	c.read("comments", "filter {\n"+cb.String()+"}", want)
	all := ""
	for _, x := range cb {
		all += x.String()
		if y := inFilter(); true {
			y.Filter[0].FooterComment = ast.NewCommentBlock(x)
			c.read("comment", "filter {\n"+x.String()+"}", y)
		}
	}
	c.eq("the text of a comment block", cb.String(), all)
}

func (c *nodeCheck) body(l []ast.BranchOrPlugin) {
	for _, x := range l {
		if x == nil || !c.more() {
			continue
		}
		switch x := x.(type) {
		case ast.Plugin:
			c.plugin(x)
		case *ast.Plugin:
			c.plugin(*x)
		case ast.Branch:
			c.branch(x)
		case *ast.Branch:
			c.branch(*x)
		}
	}
}

func (c *nodeCheck) plugin(p ast.Plugin) {
	c.read("plugin", "filter {\n"+p.String()+"\n}", inFilter(p))
	c.comments(p.Comment)
	c.comments(p.FooterComment)
	for _, a := range p.Attributes {
		c.attribute(a)
	}
}

// plain attribute without its comments
func (c *nodeCheck) attribute(a ast.Attribute) {
	if a == nil || !c.more() {
		return
	}
	in := func(a ast.Attribute) ast.Config { return inFilter(ast.NewPlugin("p", a)) }
	c.read("attribute with comments", "filter { p {\n"+a.CommentBlock()+a.String()+"\n} }", in(a))
	c.read("attribute", "filter { p {\n"+a.Name()+" =>"+a.ValueString()+" } }", in(bare(a)))
	c.value(a)
}

// bare gives an attribute without its own leading comments.
func bare(a ast.Attribute) ast.Attribute {
	switch x := a.(type) {
	case ast.StringAttribute:
		x.Comment = nil
		return x
	case ast.NumberAttribute:
		x.Comment = nil
		return x
	case ast.ArrayAttribute:
		x.Comment = nil
		return x
	case ast.HashAttribute:
		x.Comment = nil
		return x
	case ast.PluginAttribute:
		x.Comment = nil
		return x
	}
	return a
}

// value looks into an attribute or element.
func (c *nodeCheck) value(a ast.Attribute) {
	switch x := a.(type) {
	case ast.PluginAttribute:
		c.comments(x.Comment)
		c.plugin(x.Value())
	case ast.StringAttribute:
		c.comments(x.Comment)
		c.string(x)
	case ast.NumberAttribute:
		c.comments(x.Comment)
		c.number(x)
	case ast.ArrayAttribute:
		c.comments(x.Comment)
		c.comments(x.FooterComment)
		for _, e := range x.Value() {
			if e == nil || !c.more() {
				continue
			}
			c.read("element", "filter { p { a => [ "+e.CommentBlock()+e.ValueString()+" ] } }", inFilter(ast.NewPlugin("p", ast.NewArrayAttribute("a", e))))
			c.value(e)
		}
	case ast.HashAttribute:
		c.comments(x.Comment)
		c.comments(x.FooterComment)
		for _, e := range x.Value() {
			if !c.more() {
				continue
			}
			c.read("entry", "filter { p { a => {\n"+e.String()+" } } }", inFilter(ast.NewPlugin("p", ast.NewHashAttribute("a", e))))
			y := e
			y.Comment, y.Value = nil, bare(e.Value)
			c.read("entry parts", "filter { p { a => { "+e.Name()+"=>"+e.ValueString()+" } } }", inFilter(ast.NewPlugin("p", ast.NewHashAttribute("a", y))))
			c.comments(e.Comment)
			switch k := e.Key.(type) {
			case ast.StringAttribute:
				c.string(k)
			case ast.NumberAttribute:
				c.number(k)
			}
			c.value(e.Value)
		}
	}
}

func (c *nodeCheck) string(x ast.StringAttribute) {
	if !c.more() {
		return
	}
	y := ast.NewStringAttribute("a", x.Value(), x.StringAttributeType())
	c.read("string", "filter { p { a => "+x.ValueString()+" } }", inFilter(ast.NewPlugin("p", y)))
	c.eq("the text of a string attribute", y.String(), "a => "+x.ValueString())
	switch x.StringAttributeType() {
	case ast.DoubleQuoted:
		c.eq("a quoted string", x.ValueString(), `"`+x.Value()+`"`)
	case ast.SingleQuoted:
		c.eq("a quoted string", x.ValueString(), `'`+x.Value()+`'`)
	case ast.Bareword:
		c.eq("a bareword", x.ValueString(), x.Value())
	default:
		c.fail("a string of kind %d", x.StringAttributeType())
	}
}

func (c *nodeCheck) number(x ast.NumberAttribute) {
	if !c.more() {
		return
	}
	y := ast.NewNumberAttribute("a", x.Value())
	c.read("number", "filter { p { a => "+x.ValueString()+" } }", inFilter(ast.NewPlugin("p", y)))
	c.eq("the text of a number attribute", y.String(), "a => "+x.ValueString())
}

func (c *nodeCheck) branch(b ast.Branch) {
	c.read("branch", "filter {\n"+b.String()+"\n}", inFilter(b))
	c.read("if block", "filter {\n"+b.IfBlock.String()+"}", inFilter(ast.NewBranch(b.IfBlock, ast.ElseBlock{})))
	first := ast.NewIfBlock(ast.NewCondition(ast.NewRvalueExpression(ast.BooleanOperator{Op: ast.NoOperator}, ast.NewSelectorFromNames("f"))))
	c.comments(b.IfBlock.Comment)
	c.comments(b.IfBlock.FooterComment)
	c.cond(b.IfBlock.Condition)
	c.body(b.IfBlock.Block)
	for i := range b.ElseIfBlock {
		e := b.ElseIfBlock[i]
		if !c.more() {
			return
		}
		c.read("else-if block", "filter { if [f] {}\n"+e.String()+"}", inFilter(ast.NewBranch(first, ast.ElseBlock{}, e)))
		c.comments(e.Comment)
		c.comments(e.FooterComment)
		c.cond(e.Condition)
		c.body(e.Block)
	}
	c.read("else block", "filter { if [f] {}"+b.ElseBlock.String()+"}", inFilter(ast.NewBranch(first, b.ElseBlock)))
	c.comments(b.ElseBlock.Comment)
	c.comments(b.ElseBlock.FooterComment)
	c.body(b.ElseBlock.Block)
}

func inIf(es ...ast.Expression) ast.Config {
	return inFilter(ast.NewBranch(ast.NewIfBlock(ast.NewCondition(es...)), ast.ElseBlock{}))
}

func (c *nodeCheck) cond(x ast.Condition) {
	if !c.more() {
		return
	}
	c.read("condition", "filter { if "+x.String()+" {} }", inIf(x.Expression...))
	all := ""
	for _, e := range x.Expression {
		if e == nil || !c.more() {
			return
		}
		text := fmt.Sprint(e)
		all += text
		op := e.BoolOperator()
		if op.Op == ast.NoOperator {
			c.read("first expression", "filter { if "+text+" {} }", inIf(e))
		} else {
			f := ast.NewRvalueExpression(ast.BooleanOperator{Op: ast.NoOperator}, ast.NewSelectorFromNames("f"))
			c.read("expression", "filter { if [f]"+text+" {} }", inIf(f, e))
		}
		switch e := e.(type) {
		case ast.ConditionExpression:
			c.cond(e.Condition)
		case ast.NegativeConditionExpression:
			c.cond(e.Condition)
		case ast.NegativeSelectorExpression:
			c.rvalue(e.Selector)
		case ast.InExpression:
			c.rvalue(e.LValue)
			c.rvalue(e.RValue)
		case ast.NotInExpression:
			c.rvalue(e.LValue)
			c.rvalue(e.RValue)
		case ast.CompareExpression:
			c.rvalue(e.LValue)
			c.rvalue(e.RValue)
			c.eq("the text of a comparison", text, op.String()+e.LValue.ValueString()+" "+e.CompareOperator.String()+" "+e.RValue.ValueString())
		case ast.RegexpExpression:
			c.rvalue(e.LValue)
			if r, ok := e.RValue.(ast.Rvalue); ok {
				c.rvalue(r)
			}
			c.eq("the text of a match", text, op.String()+e.LValue.ValueString()+" "+e.RegexpOperator.String()+" "+e.RValue.ValueString())
		case ast.RvalueExpression:
			c.rvalue(e.RValue)
		}
	}
	c.eq("the text of a condition", x.String(), all)
}

func (c *nodeCheck) rvalue(v ast.Rvalue) {
	if !c.more() {
		return
	}
	no := ast.BooleanOperator{Op: ast.NoOperator}
	eq := ast.CompareOperator{Op: ast.Equal}
	one := ast.NewNumberAttribute("", 1)
	c.read("operand", "filter { if 1 == "+v.ValueString()+" {} }", inIf(ast.NewCompareExpression(no, one, eq, v)))
	switch x := v.(type) {
	case ast.Selector:
		c.eq("the text of a field reference", x.String(), x.ValueString())
		all := ""
		for _, e := range x.Elements {
			all += e.String()
			c.read("selector element", "filter { if 1 == "+e.String()+" {} }", inIf(ast.NewCompareExpression(no, one, eq, ast.NewSelector([]ast.SelectorElement{e}))))
		}
		c.eq("the text of a field reference", x.String(), all)
	case ast.Regexp:
		c.eq("a regular expression", x.String(), "/"+x.Regexp+"/")
		c.eq("a regular expression", x.ValueString(), "/"+x.Regexp+"/")
	case ast.StringAttribute:
		c.string(x)
	case ast.NumberAttribute:
		c.number(x)
	}
}

func c30(t *T, s string) {
	m, o, ok := t.accepted(s)
	if !ok || !t.inFormatDomain(s, m) {
		return
	}
	r := caseRand(t.Seed, "nodes"+s, 0)
	c := &nodeCheck{t: t, s: s, n: 60, r: r}
	if r.Intn(4) > 0 {
		c.n = 400
	}
	t.sut("rendering of nodes", func() { c.config(o.cfg) })
	if len(m.Root.Kids) > 0 {
		t.Count("trees", 1)
	}
}

func c30Case(t *T, i int, r *rand.Rand) {
	if r.Intn(3) > 0 || i < t.Mon.Quick/4 {
		validCase(t, i, r)
		return
	}
	b := newBuilder(r)
	cfg := b.config()
	tree := obs.FromConfig(cfg)
	if confusable(tree) {
		return
	}
	t.Count("constructed", 1)
	c := &nodeCheck{t: t, s: "", n: 150, r: r}
	t.sut("rendering of nodes", func() { c.config(cfg) })
}

func init() {
	n := gen.NumSystematic()
	register(&Monitor{ID: "C30", Stride: 16, Quick: n/16 + 20000, Thorough: n + 800000, Case: c30Case, Text: c30,
		Need: []string{"trees", "constructed", "node_section", "node_comments", "node_plugin", "node_branch", "node_if block", "node_else-if block", "node_else block", "node_attribute", "node_element", "node_entry", "node_condition", "node_expression", "node_first expression", "node_operand", "node_selector element", "node_string", "node_number"},
		Rule: "nodes of parsed and constructed trees, rendered on their own and read in a frame by the model (every 16th by the parser, too); distinct: kinds with contents"})
}
