package main

import (
	"math/rand"
	"strings"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"

	"verif/harness/gen"
	"verif/harness/obs"
	"verif/harness/ref"
)

// ---- C32: entry points

const errNoEntry = "invalid entrypoint"

// entryNode converts the result of a parse with an entry point.
func entryNode(rule string, v interface{}) *ref.Node {
	if a, ok := v.(ast.Attribute); ok {
		if rule == "attribute" {
			return obs.Attribute(a)
		}
		return obs.Value(a)
	}
	switch x := v.(type) {
	case ast.Selector, ast.Regexp:
		return obs.Value(x)
	}
	return obs.Any(v)
}

// entry checks one entry point on one text.
func (t *T) entry(rule, s string, opts int) bool {
	m := ref.ParseRule(rule, s)
	if m.Disputed != "" {
		t.Count("texts_outside_domain", 1)
		return false
	}
	t.Eval()
	var v interface{}
	var err error
	ol := optList(opts)
	ol = append(ol, config.Entrypoint(rule))
	if opts%2 == 1 {
		ol[0], ol[len(ol)-1] = ol[len(ol)-1], ol[0]
	}
	t.sut("Parse", func() { v, err = config.Parse("x.conf", []byte(s), ol...) })
	if err != nil && strings.Contains(err.Error(), errNoEntry) && !strings.Contains(s, errNoEntry) {
		t.Count("not_an_entry_point", 1)
		return false
	}
	t.Note("rule", rule)
	t.Note("text", s)
	switch {
	case err != nil && m.OK:
		t.Fail("entry point %s: %q is rejected: %v", rule, cut(s), err)
	case err == nil && !m.OK:
		t.Fail("entry point %s: %q is accepted", rule, cut(s))
	case err != nil:
		t.Count("rejected", 1)
		if !strings.Contains(err.Error(), "x.conf:") {
			t.Fail("entry point %s: the error %q does not name the file", rule, err)
		}
		return false
	}
	o := ref.Opts{Pos: true, Comments: opts&optIgnore == 0, Gaps: true}
	var n *ref.Node
	t.sut("inspection", func() { n = entryNode(rule, v) })
	if d := ref.Diff(ref.Dump(m.Root, o), ref.Dump(n, o)); d != "" {
		t.Fail("entry point %s: %q gives another tree: %s", rule, cut(s), d)
	}
	t.Count("entry_"+rule, 1)
	if m.Far > 12 && m.Far < 60 && r4(s) {
		t.Sample("%s: %q, the rest is %q", rule, s[:m.Far], cut(s[m.Far:]))
	}
	t.Distinct(rule, s[:min(len(s), m.Far)])
	return true
}

// r4 picks some texts for the samples.
func r4(s string) bool { return len(s)%4 == 0 }

func c32Case(t *T, i int, r *rand.Rand) {
	var s string
	if x, ok := t.systematic(i); ok {
		s = x
	} else {
		s = validText(r)
	}
	m := ref.Parse(s)
	if !m.OK || m.Disputed != "" || len(s) > 20000 {
		t.Count("texts_outside_domain", 1)
		return
	}
	// Where something starts in the text.
	var starts []int
	ref.Walk(m.Root, func(n *ref.Node) {
		if !n.NoPos {
			starts = append(starts, n.Pos.Off)
		}
	})
	starts = append(starts, 0)
	opts := r.Intn(16) &^ 8
	for k := 0; k < 12; k++ {
		st := starts[r.Intn(len(starts))]
		rest := s[st:]
		switch r.Intn(8) {
		case 0: // damaged
			rest = gen.Mutate(r, rest)
		case 1: // truncated
			rest = rest[:r.Intn(len(rest)+1)]
		case 2: // anything
			rest = s[r.Intn(len(s)+1):]
		}
		if len(rest) > 3000 && r.Intn(4) > 0 {
			continue
		}
		// The entry points that fit, and one that may not.
		fits := 0
		off := r.Intn(len(ref.Rules))
		for z := range ref.Rules {
			rule := ref.Rules[(z+off)%len(ref.Rules)]
			p := ref.ParseRule(rule, rest)
			if !p.OK && r.Intn(8) > 0 {
				continue
			}
			if t.entry(rule, rest, opts) {
				if fits++; fits == 4 {
					break
				}
			}
		}
	}
}

func init() {
	n := gen.NumSystematic()
	register(&Monitor{ID: "C32", Stride: 16, Quick: n/16 + 6000, Thorough: n + 300000, Case: c32Case,
		Need: []string{"rejected", "entry_config"},
		Rule: "pieces of valid texts, most of them from the start of a node, some damaged, parsed with every entry point that fits and some that do not; compared with the model started at the same rule; distinct: entry points with the text taken"})
}
