package ref

import (
	"fmt"
	"math"
	"strings"
)

// Opts selects what a dump shows.
type Opts struct {
	Pos      bool // positions
	Comments bool // comments
	Gaps     bool // blank lines between the comments of a block
}

// Dump renders a tree, one node per line.
func Dump(n *Node, o Opts) string {
	var b strings.Builder
	dump(&b, n, o, 0)
	return b.String()
}

func cstr(cs []Comment, o Opts) string {
	var b strings.Builder
	for i, c := range cs {
		if o.Gaps && c.Gap && i > 0 {
			b.WriteString("~")
		}
		fmt.Fprintf(&b, "#%q", c.Text)
	}
	return b.String()
}

func dump(b *strings.Builder, n *Node, o Opts, d int) {
	if n == nil {
		fmt.Fprintf(b, "%*s<nil>\n", d*2, "")
		return
	}
	fmt.Fprintf(b, "%*s%s", d*2, "", n.Kind)
	if n.Kind == "num" {
		// Bits would tell -0 from 0, which the language does not.
		v := n.Num
		if v == 0 {
			v = 0
		}
		fmt.Fprintf(b, " %x", math.Float64bits(v+0))
		fmt.Fprintf(b, " (%g)", v+0)
	} else if n.Text != "" {
		fmt.Fprintf(b, " %q", n.Text)
	}
	if n.Bool != "" {
		fmt.Fprintf(b, " bool=%s", n.Bool)
	}
	if o.Pos && !n.NoPos {
		fmt.Fprintf(b, " @%v", n.Pos)
		if n.Bool != "" {
			fmt.Fprintf(b, " bool@%v", n.BoolPos)
		}
		if n.OpPos != (Pos{}) {
			fmt.Fprintf(b, " op@%v", n.OpPos)
		}
	}
	if o.Comments {
		if len(n.Pre) > 0 {
			fmt.Fprintf(b, " pre=%s", cstr(n.Pre, o))
		}
		if len(n.Post) > 0 {
			fmt.Fprintf(b, " post=%s", cstr(n.Post, o))
		}
	}
	b.WriteByte('\n')
	for _, k := range n.Kids {
		dump(b, k, o, d+1)
	}
}

// Group orders the sections of a configuration by type (inputs, filters,
// outputs), keeping the order within a type: that is how the real tree stores
// them, and the order between types has no meaning in Logstash.
func Group(c *Node) *Node {
	n := *c
	n.Kids = nil
	for _, t := range []string{"input", "filter", "output"} {
		for _, s := range c.Kids {
			if s.Text == t {
				n.Kids = append(n.Kids, s)
			}
		}
	}
	return &n
}

// DropEmptyElse removes else blocks without content: they have no meaning and
// the printer does not print them.
func DropEmptyElse(n *Node) *Node {
	c := *n
	c.Kids = nil
	for _, k := range n.Kids {
		if k.Kind == "else" && len(k.Kids) == 0 && len(k.Pre) == 0 && len(k.Post) == 0 {
			continue
		}
		c.Kids = append(c.Kids, DropEmptyElse(k))
	}
	return &c
}

// Walk visits all nodes in document order.
func Walk(n *Node, f func(*Node)) {
	f(n)
	for _, k := range n.Kids {
		Walk(k, f)
	}
}

// Diff describes the first difference of two dumps.
func Diff(want, got string) string {
	if want == got {
		return ""
	}
	a, b := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "<end>", "<end>"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("line %d: want %q, got %q", i+1, strings.TrimSpace(x), strings.TrimSpace(y))
		}
	}
	return "differ"
}
