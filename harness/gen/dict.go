package gen

import (
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"io/fs"
	"math/rand"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// The dictionary: strings, characters and numbers that the code under test
// mentions. They are used as names, values, comments and sizes, because inputs
// that the code treats in a special way are often made of them.
var (
	dictAll   []string // legal UTF-8, without line breaks
	dictWords []string // barewords
	dictInts  []int

	// those which the code compares with something or searches for
	hotAll   []string
	hotWords []string
	hotInts  []int
)

var keyword = map[string]bool{"if": true, "else": true, "in": true, "not": true, "and": true, "or": true, "xor": true, "nand": true}

// LoadDict reads the dictionary from the Go sources below a directory.
func LoadDict(dir string) {
	str, num := map[string]bool{}, map[int]bool{} // true: compared with
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			if n := d.Name(); p != dir && (n == "testdata" || strings.HasPrefix(n, ".")) {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			readDict(p, str, num)
		}
		return nil
	})
	words := map[string]bool{} // true: in a string that the code compares with something
	for s, hot := range str {
		dictAll = append(dictAll, s)
		if hot {
			hotAll = append(hotAll, s)
		}
		for _, w := range strings.FieldsFunc(s, func(r rune) bool { return r >= 128 || strings.IndexByte(wordBytes, byte(r)) < 0 }) {
			if w = strings.TrimLeft(w, "0123456789"); len(w) > 1 && !keyword[w] {
				words[w] = words[w] || hot
			}
		}
		if t := strings.Trim(s, " \"'#"); t != s && t != "" {
			dictAll = append(dictAll, t)
		}
	}
	for w, hot := range words {
		dictWords = append(dictWords, w)
		if hot {
			hotWords = append(hotWords, w)
		}
	}
	sort.Strings(hotWords)
	for n, hot := range num {
		dictInts = append(dictInts, n)
		if hot {
			hotInts = append(hotInts, n)
		}
	}
	sort.Strings(hotAll)
	sort.Ints(hotInts)
	sort.Strings(dictAll)
	sort.Strings(dictWords)
	sort.Ints(dictInts)
}

// DictSize gives the number of strings and numbers.
func DictSize() (int, int) { return len(dictAll), len(dictInts) }

func readDict(p string, str map[string]bool, num map[int]bool) {
	f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.SkipObjectResolution)
	if err != nil {
		return
	}
	hot := map[ast.Node]bool{}
	heat := func(e ast.Expr) {
		ast.Inspect(e, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.BasicLit, *ast.BinaryExpr:
				hot[n] = true
			}
			return true
		})
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BinaryExpr:
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ, token.REM:
				heat(x)
			}
		case *ast.CaseClause:
			for _, e := range x.List {
				heat(e)
			}
		case *ast.CallExpr:
			if f, ok := x.Fun.(*ast.SelectorExpr); ok {
				if id, ok := f.X.(*ast.Ident); ok && (id.Name == "strings" || id.Name == "bytes" || id.Name == "regexp" || id.Name == "viper" || id.Name == "os") {
					for _, e := range x.Args {
						heat(e)
					}
				}
			}
		}
		switch x := n.(type) {
		case *ast.ImportSpec, *ast.Field:
			return false
		case *ast.KeyValueExpr: // the grammar table: not its places and names
			if id, ok := x.Key.(*ast.Ident); ok {
				switch id.Name {
				case "pos", "displayName", "offset", "label", "want":
					return false
				}
			}
		case *ast.BinaryExpr:
			if v := constInt(x); v > 2 && v <= 1<<20 {
				num[v] = num[v] || hot[n]
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				if v := constInt(x); v > 2 && v <= 1<<20 {
					num[v] = num[v] || hot[n]
				}
			case token.CHAR:
				if r, _, _, err := strconv.UnquoteChar(x.Value[1:], '\''); err == nil {
					addDict(str, string(r), hot[n])
				}
			case token.STRING:
				if s, err := strconv.Unquote(x.Value); err == nil {
					addDict(str, s, hot[n])
				}
			}
		}
		return true
	})
}

func addDict(str map[string]bool, s string, hot bool) {
	for _, l := range strings.FieldsFunc(s, func(r rune) bool { return r == '\n' || r == '\r' }) {
		if l != "" && len(l) <= 48 && utf8.ValidString(l) {
			str[l] = str[l] || hot
		}
	}
}

// constInt evaluates products, shifts, sums and differences of literals.
func constInt(e ast.Expr) int {
	var eval func(e ast.Expr) constant.Value
	eval = func(e ast.Expr) constant.Value {
		switch x := e.(type) {
		case *ast.ParenExpr:
			return eval(x.X)
		case *ast.BasicLit:
			if x.Kind == token.INT {
				return constant.MakeFromLiteral(x.Value, x.Kind, 0)
			}
		case *ast.BinaryExpr:
			a, b := eval(x.X), eval(x.Y)
			if a == nil || b == nil {
				return nil
			}
			switch x.Op {
			case token.ADD, token.SUB, token.MUL:
				return constant.BinaryOp(a, x.Op, b)
			case token.SHL:
				if n, ok := constant.Uint64Val(b); ok && n < 40 {
					return constant.Shift(a, x.Op, uint(n))
				}
			}
		}
		return nil
	}
	v := eval(e)
	if v == nil {
		return -1
	}
	if n, ok := constant.Int64Val(v); ok {
		return int(n)
	}
	return -1
}

// DictString draws a string of the dictionary, without any of the given bytes.
func DictString(r *rand.Rand, without string) string {
	for k := 0; k < 4 && len(dictAll) > 0; k++ {
		l := dictAll
		if len(hotAll) > 0 && r.Intn(2) == 0 {
			l = hotAll
		}
		if s := l[r.Intn(len(l))]; !strings.ContainsAny(s, without) {
			return s
		}
	}
	return "x"
}

// DictWord draws a bareword of the dictionary.
func DictWord(r *rand.Rand) string {
	if len(dictWords) == 0 {
		return "xx"
	}
	if len(hotWords) > 0 && r.Intn(3) == 0 {
		return hotWords[r.Intn(len(hotWords))]
	}
	return dictWords[r.Intn(len(dictWords))]
}

// DictInt draws a number of the dictionary up to max, or one next to it.
func DictInt(r *rand.Rand, max int) int {
	l := dictInts
	if r.Intn(2) == 0 && len(hotInts) > 0 && hotInts[0] <= max {
		l = hotInts
	}
	n := sort.SearchInts(l, max+1)
	if n == 0 {
		return r.Intn(max + 1)
	}
	v := l[r.Intn(n)] + []int{-1, 0, 0, 1, 1, 2}[r.Intn(6)]
	if v > max {
		v = max
	}
	return v
}
