package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/ast/astutil"

	"verif/harness/gen"
	"verif/harness/obs"
	"verif/harness/ref"
)

// ---- trees for C17 and C18

type body = []ast.BranchOrPlugin

// copyBody copies a list and everything ApplyPlugins may write to.
func copyBody(b body) body {
	if b == nil {
		return nil
	}
	out := make(body, len(b))
	for i, e := range b {
		if br, ok := e.(ast.Branch); ok {
			br.IfBlock.Block = copyBody(br.IfBlock.Block)
			ei := make([]ast.ElseIfBlock, len(br.ElseIfBlock))
			copy(ei, br.ElseIfBlock)
			for j := range ei {
				ei[j].Block = copyBody(ei[j].Block)
			}
			br.ElseIfBlock = ei
			br.ElseBlock.Block = copyBody(br.ElseBlock.Block)
			e = br
		}
		out[i] = e
	}
	return out
}

func showBody(b body) string {
	var s strings.Builder
	for _, n := range obs.Body(b) {
		s.WriteString(ref.Dump(n, ref.Opts{Pos: true, Comments: true, Gaps: true}))
	}
	return s.String()
}

// brief shows the shape of a list in one line.
func brief(b body) string {
	var s []string
	for _, e := range b {
		switch e := e.(type) {
		case nil:
			s = append(s, "nil")
		case ast.Plugin:
			s = append(s, e.Name())
		case ast.Branch:
			x := "if{" + brief(e.IfBlock.Block)
			for _, f := range e.ElseIfBlock {
				x += "}elseif{" + brief(f.Block)
			}
			s = append(s, x+"}else{"+brief(e.ElseBlock.Block)+"}")
		default:
			s = append(s, fmt.Sprintf("%T", e))
		}
	}
	return strings.Join(s, " ")
}

// An edit is one operation at a plugin.
type edit struct {
	op   byte // R, B, A, D
	elem ast.BranchOrPlugin
}

func (e edit) String() string {
	if e.op == 'D' {
		return "D"
	}
	return string(e.op) + "(" + brief(body{e.elem}) + ")"
}

// A walkModel is what ApplyPlugins must do: it goes over the original tree in
// document order and knows the containing list at every moment as
// done + before + current + after + rest.
type walkModel struct {
	t      *T
	script func(n int) []edit // edits at the n-th visit
	events []visit
}

type visit struct {
	elem  ast.BranchOrPlugin // the plugin visited
	done  body               // the containing list in front of it
	rest  body               // and behind it, not walked yet
	edits []edit
}

// run returns the list after the walk.
func (m *walkModel) run(b body) body {
	var done body
	for i, e := range b {
		if br, ok := e.(ast.Branch); ok {
			br.IfBlock.Block = m.run(br.IfBlock.Block)
			ei := make([]ast.ElseIfBlock, len(br.ElseIfBlock))
			copy(ei, br.ElseIfBlock)
			for j := range ei {
				ei[j].Block = m.run(ei[j].Block)
			}
			br.ElseIfBlock = ei
			br.ElseBlock.Block = m.run(br.ElseBlock.Block)
			done = append(done, br)
			continue
		}
		v := visit{elem: e, done: append(body{}, done...), rest: append(body{}, b[i+1:]...), edits: m.script(len(m.events))}
		m.events = append(m.events, v)
		var before, after body
		cur := body{e}
		for _, x := range v.edits {
			switch x.op {
			case 'R':
				cur = body{x.elem}
			case 'B':
				before = append(before, x.elem)
			case 'A':
				after = append(body{x.elem}, after...)
			case 'D':
				cur = nil
			}
		}
		done = append(append(append(done, before...), cur...), after...)
	}
	return done
}

func concat(l ...body) body {
	var out body
	for _, b := range l {
		out = append(out, b...)
	}
	return out
}

// walk runs ApplyPlugins against the model.
func (t *T) walk(root body, script func(n int) []edit) {
	m := &walkModel{t: t, script: script}
	before := brief(root)
	want := m.run(copyBody(root))
	var hist []string
	fail := func(format string, args ...interface{}) {
		t.Note("tree", before)
		t.Note("edits", strings.Join(hist, "\n"))
		t.Fail("tree %s, edits %s: %s", before, strings.Join(hist, " "), fmt.Sprintf(format, args...))
	}
	n := 0
	var got body
	deep := len(m.events) <= 60
	cb := func(c *astutil.Cursor) {
		if n >= len(m.events) {
			fail("the callback is called a %dth time, there are %d plugins", n+1, len(m.events))
		}
		v := m.events[n]
		n++
		t.Count("visits", 1)
		var pre, post body
		cur := v.elem
		check := func(after string) {
			i := c.Index()
			if i != len(v.done)+len(pre) {
				fail("visit %d%s: Index is %d, want %d", n, after, i, len(v.done)+len(pre))
			}
			par := c.Parent()
			wantPar := concat(v.done, pre, body{cur}, post, v.rest)
			if len(par) != len(wantPar) {
				fail("visit %d%s: Parent is %s, want %s", n, after, brief(par), brief(wantPar))
			}
			p := c.Plugin()
			wp, isPlugin := cur.(ast.Plugin)
			switch {
			case (p != nil) != isPlugin:
				fail("visit %d%s: Plugin is %v, want %s", n, after, p, brief(body{cur}))
			case isPlugin && showBody(body{*p}) != showBody(body{wp}):
				fail("visit %d%s: Plugin is %s, want %s", n, after, p.Name(), wp.Name())
			}
			if deep && brief(par) != brief(wantPar) {
				fail("visit %d%s: Parent is %s, want %s", n, after, brief(par), brief(wantPar))
			}
			if !deep && brief(par[i:i+1]) != brief(body{cur}) {
				fail("visit %d%s: Parent()[Index()] is %s, want %s", n, after, brief(par[i:i+1]), brief(body{cur}))
			}
			t.Eval()
		}
		check("")
		for k, x := range v.edits {
			hist = append(hist, fmt.Sprintf("%d:%v", n, x))
			switch x.op {
			case 'R':
				c.Replace(x.elem)
				cur = x.elem
			case 'B':
				c.InsertBefore(x.elem)
				pre = append(pre, x.elem)
			case 'A':
				c.InsertAfter(x.elem)
				post = append(body{x.elem}, post...)
			case 'D':
				c.Delete()
				t.Count("deletes", 1)
				continue
			}
			t.Count("edits", 1)
			check(fmt.Sprintf(" after edit %d (%c)", k+1, x.op))
		}
	}
	t.sut("ApplyPlugins", func() { got = astutil.ApplyPlugins(root, cb) })
	if n != len(m.events) {
		fail("the callback is called %d times, there are %d plugins", n, len(m.events))
	}
	if d := ref.Diff(showBody(want), showBody(got)); d != "" {
		fail("the result is %s, want %s (%s)", brief(got), brief(want), d)
	}
	t.Eval()
	t.Distinct(before, strings.Join(hist, " "))
	if len(hist) > 2 && len(before) < 150 {
		t.Sample("tree %s, edits %s -> %s", before, strings.Join(hist, " "), brief(got))
	}
}

// A treeGen makes trees with unique plugin names.
type treeGen struct {
	r       *rand.Rand
	n       int
	dup     bool
	nils    float64
	maxLen  int
	spare   bool
	payload bool
}

func (g *treeGen) plugin() ast.Plugin {
	g.n++
	k := g.n
	if g.dup {
		k = k % 3
	}
	p := ast.NewPlugin(fmt.Sprintf("p%d", k))
	if g.r.Intn(20) == 0 {
		p = ast.NewPlugin(fmt.Sprintf("%s%d", gen.DictWord(g.r), k))
	}
	if g.payload && g.r.Intn(3) == 0 {
		p.Attributes = []ast.Attribute{ast.NewStringAttribute("id", fmt.Sprintf("i%d", g.n), ast.DoubleQuoted), ast.NewPluginAttribute("codec", ast.NewPlugin("not_visited"))}
		p.Start = ast.Pos{Line: g.n, Column: 1, Offset: g.n}
		p.Comment = ast.NewCommentBlock(ast.NewComment("c", false))
	}
	return p
}

func (g *treeGen) cond() ast.Condition {
	g.n++
	switch g.r.Intn(12) {
	case 0:
		return ast.NewCondition()
	case 1:
		return ast.Condition{}
	case 2:
		not := ast.NewNegativeSelectorExpression(ast.BooleanOperator{Op: ast.NoOperator}, ast.NewSelectorFromNames(gen.DictWord(g.r)))
		return ast.NewCondition(not, ast.NewRvalueExpression(ast.BooleanOperator{Op: ast.Or}, ast.NewStringAttribute("", gen.DictString(g.r, `"`), ast.DoubleQuoted)))
	}
	return ast.NewCondition(ast.NewRvalueExpression(ast.BooleanOperator{Op: ast.NoOperator}, ast.NewNumberAttribute("", float64(g.n))))
}

func (g *treeGen) list(d int) body {
	n := g.r.Intn(g.maxLen + 1)
	if n == 0 && g.r.Intn(2) == 0 {
		return nil
	}
	b := make(body, 0, n+func() int {
		if g.spare {
			return g.r.Intn(4)
		}
		return 0
	}())
	for i := 0; i < n; i++ {
		b = append(b, g.elem(d))
	}
	return b
}

func (g *treeGen) elem(d int) ast.BranchOrPlugin {
	switch x := g.r.Float64(); {
	case x < g.nils:
		return nil
	case d > 0 && x < g.nils+0.35:
		return g.branch(d)
	}
	return g.plugin()
}

func (g *treeGen) branch(d int) ast.Branch {
	br := ast.NewBranch(ast.NewIfBlock(g.cond(), g.list(d-1)...), ast.ElseBlock{})
	k := g.r.Intn(3)
	if g.r.Intn(10) == 0 {
		k = g.r.Intn(9)
	}
	for ; k > 0; k-- {
		br.ElseIfBlock = append(br.ElseIfBlock, ast.NewElseIfBlock(g.cond(), g.list(d-1)...))
	}
	if g.r.Intn(2) == 0 {
		br.ElseBlock = ast.NewElseBlock(g.list(d - 1)...)
	}
	if g.payload {
		g.n++
		br.IfBlock.Start = ast.Pos{Line: g.n, Column: 2, Offset: 3}
		br.IfBlock.Comment = ast.NewCommentBlock(ast.NewComment("d", true))
		br.IfBlock.FooterComment = ast.NewCommentBlock(ast.NewComment("e", true))
	}
	return br
}

func randomTree(r *rand.Rand) (*treeGen, body) {
	g := &treeGen{r: r, dup: r.Intn(6) == 0, maxLen: 1 + r.Intn(5), spare: r.Intn(2) == 0, payload: r.Intn(2) == 0}
	if r.Intn(2) == 0 {
		g.nils = r.Float64() * 0.5
	}
	d := r.Intn(5)
	switch r.Intn(20) {
	case 0:
		g.maxLen, d = 30, 1
	case 1:
		g.maxLen, d = 2, 12
	}
	b := g.list(d)
	if r.Intn(30) == 0 { // one deep path
		same := r.Intn(6)
		n := r.Intn(60)
		if r.Intn(3) == 0 {
			n = 40 + r.Intn(260)
		}
		for k := n; k > 0; k-- {
			br := ast.NewBranch(ast.NewIfBlock(g.cond()), ast.ElseBlock{})
			kind := same
			if same > 2 {
				kind = r.Intn(3)
			}
			switch kind {
			case 0:
				br.IfBlock.Block = b
			case 1:
				br.ElseIfBlock = append(br.ElseIfBlock, ast.NewElseIfBlock(g.cond(), b...))
			default:
				br.ElseBlock = ast.NewElseBlock(b...)
			}
			b = body{g.plugin(), br, g.plugin()}
		}
	}
	return g, b
}

func noEdits(int) []edit { return nil }

// shapes enumerates all lists of up to n elements of a small alphabet.
func smallTree(i int) (body, bool) {
	g := &treeGen{r: rand.New(rand.NewSource(1))}
	// leaf lists: words over {plugin, nil} of length 0 to 2
	leafs := func(k int) body {
		switch k {
		case 0:
			return nil
		case 1:
			return body{g.plugin()}
		case 2:
			return body{nil}
		case 3:
			return body{g.plugin(), g.plugin()}
		case 4:
			return body{nil, g.plugin()}
		case 5:
			return body{g.plugin(), nil}
		}
		return body{nil, nil}
	}
	elem := func(k int) ast.BranchOrPlugin {
		switch {
		case k == 0:
			return g.plugin()
		case k == 1:
			return nil
		}
		k -= 2 // 7*3*7 branches: if list, else-if (absent, one plugin, two blocks), else list
		br := ast.NewBranch(ast.NewIfBlock(g.cond(), leafs(k%7)...), ast.ElseBlock{})
		switch k / 7 % 3 {
		case 1:
			br.ElseIfBlock = []ast.ElseIfBlock{ast.NewElseIfBlock(g.cond(), g.plugin())}
		case 2:
			br.ElseIfBlock = []ast.ElseIfBlock{ast.NewElseIfBlock(g.cond(), g.plugin(), nil), ast.NewElseIfBlock(g.cond(), nil, g.plugin())}
		}
		br.ElseBlock = ast.NewElseBlock(leafs(k / 21)...)
		return br
	}
	const ne = 2 + 7*3*7
	switch {
	case i == 0:
		return nil, true
	case i < 1+ne:
		return body{elem(i - 1)}, true
	case i < 1+ne+ne*ne:
		i -= 1 + ne
		return body{elem(i % ne), elem(i / ne)}, true
	}
	return nil, false
}

const numSmallTrees = 1 + 149 + 149*149

func c17Case(t *T, i int, r *rand.Rand) {
	if b, ok := smallTree(i); ok {
		t.Count("small_trees", 1)
		t.walk(b, noEdits)
		return
	}
	if r.Intn(3) > 0 {
		_, b := randomTree(r)
		t.Count("random_trees", 1)
		t.walk(b, noEdits)
		return
	}
	// A parsed text: the order comes from the model of the grammar.
	s := validText(r)
	m, o, ok := t.accepted(s)
	if !ok {
		return
	}
	for _, sec := range [][]ast.PluginSection{o.cfg.Input, o.cfg.Filter, o.cfg.Output} {
		for _, ps := range sec {
			var want []string
			for _, n := range m.Root.Kids {
				if n.Pos.Off == ps.Start.Offset {
					want = bodyPlugins(n.Kids, want)
				}
			}
			var got []string
			before := showBody(ps.BranchOrPlugins)
			t.sut("ApplyPlugins", func() {
				astutil.ApplyPlugins(ps.BranchOrPlugins, func(c *astutil.Cursor) {
					p := c.Plugin()
					if p == nil {
						t.FailText(s, "a walk meets a nil entry in a parsed tree")
					}
					if q, ok := c.Parent()[c.Index()].(ast.Plugin); !ok || q.Start != p.Start {
						t.FailText(s, "Parent()[Index()] is not the plugin at %v", p.Start)
					}
					got = append(got, fmt.Sprintf("%d:%s", p.Start.Offset, p.Name()))
				})
			})
			t.Eval()
			if strings.Join(want, " ") != strings.Join(got, " ") {
				t.FailText(s, "a walk visits %v, the text has %v", got, want)
			}
			if showBody(ps.BranchOrPlugins) != before {
				t.FailText(s, "a walk changes the tree")
			}
			t.walk(ps.BranchOrPlugins, noEdits)
			t.Count("parsed_sections", 1)
			t.Count("parsed_plugins", len(got))
		}
	}
}

// bodyPlugins lists the plugins of a body in document order, without those that
// are attribute values.
func bodyPlugins(kids []*ref.Node, out []string) []string {
	for _, k := range kids {
		switch k.Kind {
		case "plugin":
			out = append(out, fmt.Sprintf("%d:%s", k.Pos.Off, k.Text))
		case "branch":
			for _, b := range k.Kids {
				out = bodyPlugins(b.Kids, out)
			}
		}
	}
	return out
}

// ---- C18

// opSeqs are all edit sequences of up to two edits, with and without a delete
// at the end.
var opSeqs = func() [][]string {
	base := []string{"Rp", "Rb", "Rn", "Bp", "Bb", "Bn", "Ap", "Ab", "An"}
	var l [][]string
	l = append(l, nil)
	for _, a := range base {
		l = append(l, []string{a})
	}
	for _, a := range base {
		for _, b := range base {
			l = append(l, []string{a, b})
		}
	}
	for _, s := range l[:len(l):len(l)] {
		l = append(l, append(append([]string{}, s...), "D"))
	}
	return l
}()

func (g *treeGen) edits(names []string) []edit {
	var l []edit
	for _, s := range names {
		e := edit{op: s[0]}
		if e.op != 'D' {
			switch s[1] {
			case 'p':
				e.elem = g.plugin()
			case 'b':
				e.elem = ast.NewBranch(ast.NewIfBlock(g.cond(), g.plugin(), nil), ast.NewElseBlock(g.plugin()))
			}
		}
		l = append(l, e)
	}
	return l
}

// containers put a list at five places of a tree.
func contain(g *treeGen, k int, b body) body {
	switch k {
	case 0:
		return b
	case 1:
		return body{g.plugin(), ast.NewBranch(ast.NewIfBlock(g.cond(), b...), ast.NewElseBlock(g.plugin())), nil}
	case 2:
		return body{ast.NewBranch(ast.NewIfBlock(g.cond()), ast.NewElseBlock(), ast.NewElseIfBlock(g.cond(), g.plugin()), ast.NewElseIfBlock(g.cond(), b...)), g.plugin()}
	case 3:
		return body{ast.NewBranch(ast.NewIfBlock(g.cond()), ast.NewElseBlock(b...))}
	}
	return body{ast.NewBranch(ast.NewIfBlock(g.cond(), ast.NewBranch(ast.NewIfBlock(g.cond(), g.plugin()), ast.NewElseBlock(b...))), ast.NewElseBlock())}
}

func c18Case(t *T, i int, r *rand.Rand) {
	ns := len(opSeqs)
	n1, n2 := 5*ns, ns*ns
	if i < n1+n2 {
		g := &treeGen{r: r}
		var b body
		var seqs [][]edit
		k := 0
		if i < n1 { // one plugin between two others, at five places
			k = i / ns
			b = body{g.plugin(), g.plugin(), g.plugin()}
			seqs = [][]edit{nil, g.edits(opSeqs[i%ns]), nil}
		} else {
			j := i - n1
			k = j % 5
			b = body{g.plugin(), g.plugin()}
			if j%7 == 0 {
				b[1] = nil
			}
			seqs = [][]edit{g.edits(opSeqs[j%ns]), g.edits(opSeqs[j/ns])}
		}
		if i%2 == 0 { // a list with room behind it
			b = append(make(body, 0, len(b)+3), b...)
		}
		root := contain(g, k, b)
		// The scripted list is found by the first of its plugins.
		first := showBody(b[:1])
		pos := -1
		at := 0
		m := &walkModel{script: func(n int) []edit { return nil }}
		m.run(copyBody(root))
		for n, v := range m.events {
			if pos < 0 && showBody(body{v.elem}) == first {
				pos = n
			}
		}
		_ = at
		t.walk(root, func(n int) []edit {
			if q := n - pos; q >= 0 && q < len(seqs) {
				return seqs[q]
			}
			return nil
		})
		t.Count("enumerated", 1)
		return
	}
	g, b := randomTree(r)
	p := r.Float64()
	cache := map[int][]edit{}
	t.walk(b, func(n int) []edit {
		if l, ok := cache[n]; ok {
			return l
		}
		var l []edit
		if r.Float64() < p {
			for k := r.Intn(5); k > 0; k-- {
				e := edit{op: "RBA"[r.Intn(3)]}
				switch r.Intn(6) {
				case 0:
				case 1:
					e.elem = g.branch(1)
				default:
					e.elem = g.plugin()
				}
				l = append(l, e)
			}
			if r.Intn(3) == 0 {
				l = append(l, edit{op: 'D'})
			}
		}
		cache[n] = l
		return l
	})
	t.Count("random", 1)
}

func init() {
	register(&Monitor{ID: "C17", Quick: numSmallTrees + 60000, Thorough: numSmallTrees + 3000000, Case: c17Case,
		Need:       []string{"visits", "small_trees", "random_trees", "parsed_sections", "parsed_plugins"},
		Rule:       "walks with an observing callback; distinct: trees",
		Exhaustive: "all lists of up to two entries out of plugin, nil and 147 branches of depth 1",
		Assume:     []string{"lists of a tree do not share storage"}})
	register(&Monitor{ID: "C18", Quick: 5*len(opSeqs) + len(opSeqs)*len(opSeqs) + 80000, Thorough: 5*len(opSeqs) + len(opSeqs)*len(opSeqs) + 4000000, Case: c18Case,
		Need:       []string{"visits", "edits", "deletes", "enumerated", "random"},
		Rule:       "walks with edits; after every edit Plugin, Index and Parent are compared with a list model, at the end the returned tree; distinct: tree with edits",
		Exhaustive: "all sequences of up to two edits, with and without a delete behind, at one plugin in five places and at both of two neighbouring plugins",
		Assume:     []string{"lists of a tree do not share storage; nothing is done with a cursor after Delete"}})
}
