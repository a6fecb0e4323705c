package main

import (
	"fmt"
	"math/rand"
	"reflect"

	"github.com/breml/logstash-config/ast"
)

// parts holds nodes of a tree, as they are, not copies.
type parts struct {
	exprs    [][]ast.Expression
	attrs    [][]ast.Attribute
	bodies   [][]ast.BranchOrPlugin
	entries  [][]ast.HashEntry
	elements [][]ast.SelectorElement
	comments []ast.CommentBlock
}

func (p *parts) collect(v reflect.Value, depth int) {
	if depth > 200 {
		return
	}
	if v.IsValid() && v.CanInterface() {
		switch x := v.Interface().(type) {
		case []ast.Expression:
			p.exprs = append(p.exprs, x)
		case []ast.Attribute:
			p.attrs = append(p.attrs, x)
		case []ast.BranchOrPlugin:
			p.bodies = append(p.bodies, x)
		case []ast.HashEntry:
			p.entries = append(p.entries, x)
		case []ast.SelectorElement:
			p.elements = append(p.elements, x)
		case ast.CommentBlock:
			if len(x) > 0 {
				p.comments = append(p.comments, x)
			}
			return
		}
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			p.collect(v.Elem(), depth+1)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			p.collect(v.Index(i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); f.CanInterface() {
				p.collect(f, depth+1)
			}
		}
	}
}

// subslice returns a part of n elements: mostly one that begins in the middle
// and can be appended to within its capacity.
func subslice(r *rand.Rand, n int) (int, int) {
	if n == 0 {
		return 0, 0
	}
	i := r.Intn(n)
	return i, i + 1 + r.Intn(n-i)
}

// reuse builds further nodes from parts of a tree. Constructors only read what
// they are given, so the tree stays as it is.
func (b *builder) reuse(c ast.Config) []string {
	r := b.r
	var p parts
	p.collect(reflect.ValueOf(c), 0)
	var hist []string
	cond := ast.NewCondition(ast.NewRvalueExpression(ast.BooleanOperator{Op: ast.NoOperator}, ast.NewSelectorFromNames("x")))
	for k := 2 + r.Intn(4); k > 0; k-- {
		what := "nothing"
		switch op := r.Intn(8); {
		case op <= 2 && len(p.exprs) > 0:
			l := p.exprs[r.Intn(len(p.exprs))]
			i, j := subslice(r, len(l))
			what = fmt.Sprintf("NewCondition of expressions %d to %d", i, j)
			nc := ast.NewCondition(l[i:j]...)
			_ = nc.String()
			switch r.Intn(4) {
			case 0:
				_ = ast.NewConditionExpression(ast.BooleanOperator{Op: ast.And}, nc).String()
				what += ", parentheses"
			case 1:
				_ = ast.NewNegativeConditionExpression(ast.BooleanOperator{Op: ast.Or}, nc).String()
				what += ", negated"
			case 2:
				_ = ast.NewBranch(ast.NewIfBlock(nc), ast.NewElseBlock(), ast.NewElseIfBlock(nc)).String()
				what += ", branch"
			}
		case op == 3 && len(p.attrs) > 0:
			l := p.attrs[r.Intn(len(p.attrs))]
			i, j := subslice(r, len(l))
			if r.Intn(2) == 0 {
				what = fmt.Sprintf("NewPlugin of attributes %d to %d", i, j)
				q := ast.NewPlugin("mutate", l[i:j]...)
				_ = q.String()
				_, _ = q.ID()
			} else {
				what = fmt.Sprintf("NewArrayAttribute of elements %d to %d", i, j)
				_ = ast.NewArrayAttribute("aa", l[i:j]...).String()
			}
		case (op == 4 || op == 5) && len(p.bodies) > 0:
			l := p.bodies[r.Intn(len(p.bodies))]
			i, j := subslice(r, len(l))
			what = fmt.Sprintf("blocks of entries %d to %d", i, j)
			switch r.Intn(5) {
			case 0:
				_ = ast.NewConfig(ast.NewPluginSections(ast.Filter, l[i:j]...), nil, ast.NewPluginSections(ast.Output, l[i:j]...)).String()
			case 1:
				_ = ast.NewPluginSection(ast.Input, l[i:j]...).String()
			case 2:
				_ = ast.NewIfBlock(cond, l[i:j]...).String()
			case 3:
				_ = ast.NewElseIfBlock(cond, l[i:j]...).String()
			default:
				_ = ast.NewBranch(ast.NewIfBlock(cond, l[i:j]...), ast.NewElseBlock(l[i:j]...)).String()
			}
		case op == 6 && len(p.entries) > 0:
			l := p.entries[r.Intn(len(p.entries))]
			i, j := subslice(r, len(l))
			what = fmt.Sprintf("NewHashAttribute of entries %d to %d", i, j)
			_ = ast.NewHashAttribute("hh", l[i:j]...).String()
			if i < j {
				_ = ast.NewHashEntry(l[i].Key, l[i].Value).String()
			}
		case op == 7 && len(p.elements) > 0 && r.Intn(2) == 0:
			l := p.elements[r.Intn(len(p.elements))]
			i, j := subslice(r, len(l))
			what = fmt.Sprintf("NewSelector of elements %d to %d", i, j)
			_ = ast.NewNegativeSelectorExpression(ast.BooleanOperator{Op: ast.Nand}, ast.NewSelector(l[i:j])).String()
		case op == 7 && len(p.comments) > 0:
			l := p.comments[r.Intn(len(p.comments))]
			i, j := subslice(r, len(l))
			what = fmt.Sprintf("NewCommentBlock of comments %d to %d", i, j)
			_ = ast.NewCommentBlock(l[i:j]...).String()
		}
		hist = append(hist, what)
	}
	return hist
}
