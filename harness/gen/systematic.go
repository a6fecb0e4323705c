package gen

import (
	"fmt"
	"math/rand"
	"strings"
)

// The systematic part of the workload: all short token sequences in a few
// contexts, all pairs of comment places in a text that has every construct,
// all characters in all kinds of literals, and a list of texts that were hard
// once.

type family struct {
	n   int
	get func(i int) string
}

var families []family
var total int

func add(n int, get func(i int) string) {
	families = append(families, family{n, get})
	total += n
}

// tuples enumerates all token sequences of length 0..k in a context.
func tuples(context string, toks []string, seps []string, k int) {
	n, p := 0, 1
	for l := 0; l <= k; l++ {
		n += p
		p *= len(toks)
	}
	for _, sep := range seps {
		sep := sep
		add(n, func(i int) string {
			l, p := 0, 1
			for i >= p {
				i -= p
				p *= len(toks)
				l++
			}
			parts := make([]string, l)
			for j := range parts {
				parts[j] = toks[i%len(toks)]
				i /= len(toks)
			}
			return strings.Replace(context, "%", strings.Join(parts, sep), 1)
		})
	}
}

// Skeleton has every construct once or twice; « marks nothing, the gaps are
// found by the reference model.
const Skeleton = `input { stdin { } } filter { if [a][b] == "x" and ! ( [c] in [ 1 , "two" ] ) or "s" not in [t] nand ! [d] xor [e] =~ /re/ { mutate { id => "m" add => { "k" => "v" k2 => [ 'a' , { 1 => 2 } ] } num => -1.5 arr => [ ] h => { } codec => json { x => y } } drop { } } else if [n] >= 5 { } else if ( /r/ !~ "s" ) { p { } } else { "quoted" { 'a' => bare } } last { } } output { } filter { a { b => [ c1 , d1 ] } }`

func init() {
	cond := []string{"[a]", "[a][b]", `"s"`, `'s'`, "1", "-1.5", "/r/", "==", "!=", "<", "<=", ">", ">=", "=~", "!~", "in", "not in", "not", "and", "or", "xor", "nand", "(", ")", "!", "[1,2]", `{"k"=>1}`, "word", "#c\n", "{ }"}
	tuples("filter{if % {}}", cond, []string{" "}, 3)
	tuples("filter{if % {}}", cond, []string{""}, 2)
	tuples("filter{if [x] == 1 % {} p{}}", cond, []string{" "}, 2)
	tuples("filter{if [x] % {} p{}}", cond, []string{" ", ""}, 2)
	attr := []string{"a", "aa", `"s"`, `'s'`, "=>", "1", "-", ".", "[", "]", "{", "}", ",", "#c\n", "\n", "p{}", "if"}
	tuples("filter{p{%}}", attr, []string{" "}, 3)
	tuples("filter{p{b=>%}}", attr, []string{" "}, 3)
	tuples("filter{p{bb => 1%}}", attr, []string{""}, 2)
	tuples("filter{p{bb => [%]}}", attr, []string{" "}, 3)
	tuples("filter{p{bb => {%}}}", attr, []string{" "}, 3)
	tuples("filter{p{bb => [1,{2=>[%]}]}}", attr, []string{""}, 2)
	block := []string{"if", "else", "else if", "1", "[f]", "p", "pp{}", "{", "}", "{}", "#c\n", "not", "in"}
	tuples("filter{%}", block, []string{" "}, 4)
	tuples("filter{if 1{}%}", block, []string{"", " "}, 3)
	top := []string{"input", "filter", "output", "{", "}", "{}", "#c\n", "p{}", "x", "\n", "#e"}
	tuples("%", top, []string{"", " "}, 4)
	tuples("input{}%", top, []string{""}, 3)
	num := []string{"1", "0", "9", "-", ".", "+", "e", "_", "x", " "}
	tuples("filter{p{b=>%}}", num, []string{""}, 4)
	tuples("filter{p{b=>[1%]}}", num, []string{""}, 3)
	name := []string{"a", "B", "_", "5", "-", ".", `"`, "'", "é", "@", "/", " "}
	tuples("filter{%{}}", name, []string{""}, 3)
	tuples("filter{pp{%=>1}}", name, []string{""}, 3)
	tuples("filter{pp{b=>%}}", name, []string{""}, 4)
	sel := []string{"[", "]", "a", ",", " ", "\n", `"`, "#", "5"}
	tuples("filter{if %{}}", sel, []string{""}, 5)
	esc := []string{`\`, `"`, "'", "/", "a", "\n", "#"}
	tuples(`filter{p{b=>"%"}}`, esc, []string{""}, 4)
	tuples(`filter{p{b=>'%'}}`, esc, []string{""}, 4)
	tuples(`filter{if [a] =~ /%/ {p{}}}`, esc, []string{""}, 4)
	com := []string{"#", "\n", "\r", " ", "a", "\"", "é", "\t"}
	tuples("filter{%\n}", com, []string{""}, 4)
	tuples("%\ninput{}", com, []string{""}, 4)
	tuples("input{}\n#%", com, []string{""}, 4)
	tuples("filter{p{b=>1%\n}}", com, []string{""}, 3)
	tuples("filter{p{b=>[%\n1]}}", com, []string{""}, 3)
	ws := []string{"#a\n", "#b\n", "\n", "  ", "\r\n"}
	for _, c := range []string{"filter{p{}%p{}}", "filter{%p{}%}", "filter{p{a=>1%b=>2}}", "filter{p{a=>[1,%2]}}", "filter{p{a=>{%k=>1}}}", "input{}%output{}", "filter{if 1{}%else{p{}}}", "filter{p{%}}", "filter{if 1{%}}", "filter{p{a=>[%]b=>{}}}", "filter{p{a=>{%}}}", "input{}%", "%input{}", "filter{if 1 {p{}}%else if 2{}}", "filter{if 1 {p{}}else if 2{%}}"} {
		tuples(c, ws, []string{""}, 5)
	}

	// Characters in literals.
	chars := []string{}
	for c := 0; c < 0x180; c++ {
		chars = append(chars, string(rune(c)))
	}
	for _, c := range []rune{0x7ff, 0x800, 0x2028, 0x2029, 0x3000, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff} {
		chars = append(chars, string(c))
	}
	for c := 0x80; c < 0x100; c++ {
		chars = append(chars, string([]byte{byte(c)}))
	}
	chars = append(chars, "\xc3\x28", "\xe2\x82", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x80")
	ctx := []string{`filter{p{b=>"a%b"}}`, `filter{p{b=>'a%b'}}`, `filter{if [a] =~ /a%b/ {p{}}}`, `filter{if [a%b] {p{}}}`, `filter{"a%b"{}}`, `filter{p{'a%b'=>1}}`, "filter{#a%b\np{}}", `filter{p{b=>a%b}}`, `filter{a%b{}}`, `filter{%p{}}`, `filter{p{b=>1%}}`, `%input{}`, "#%", `filter{if "a%b" in [c] {p{}}}`, "filter{p{b=>{\"%\"=>1}}}", "filter{if [x] % 1 {}}", "%", "filter{p{b % 1}}"}
	add(len(chars)*len(ctx), func(i int) string {
		return strings.Replace(ctx[i%len(ctx)], "%", chars[i/len(ctx)], 1)
	})

	add(len(Hard), func(i int) string { return Hard[i] })

	// Pairs of places in the skeleton.
	gaps := skeletonGaps()
	forms := []string{" # one \"\n", "#'{[\n", "\n\n # x\n\n\n# y\n\n"}
	add(len(gaps)*len(gaps)*len(forms), func(i int) string {
		f := forms[i%len(forms)]
		i /= len(forms)
		a, b := gaps[i%len(gaps)], gaps[i/len(gaps)]
		if a > b {
			a, b = b, a
		}
		if a == b {
			return Skeleton[:a] + f + Skeleton[a:]
		}
		return Skeleton[:a] + f + Skeleton[a:b] + strings.Replace(f, "#", "# second", 1) + Skeleton[b:]
	})
}

// skeletonGaps are the places of blanks outside literals; the skeleton has no
// blank inside a literal except in "not in".
func skeletonGaps() []int {
	var out []int
	for i := 0; i < len(Skeleton); i++ {
		if Skeleton[i] == ' ' {
			out = append(out, i, i+1)
		}
	}
	return append(out, len(Skeleton))
}

// NumSystematic is the number of systematic texts.
func NumSystematic() int { return total }

// Systematic returns the i-th one.
func Systematic(i int) string {
	for _, f := range families {
		if i < f.n {
			return f.get(i)
		}
		i -= f.n
	}
	return ""
}

// Hard texts.
var Hard = []string{
	"", " ", "#", "#\n", "\n#a\n\n#b", "input{}", "input{}input{}filter{}output{}input{}",
	"filter { if [a] =~ /\"/ { p { x => 'y' } } }",
	"filter { if [a] =~ /'/ { p { x => \"y\nz\" } } }",
	"filter { if [it's] { p { x => \"a\n b\" } } }",
	"filter { if [\n] { if [\nb] { p { } } } }",
	"filter { p { n => 9007199254740993 m => 1000000.5 o => 0.0000001 } }",
	"filter { p { n => 100000000000000000000000000 } }",
	"filter { p { a => [ x { } ] } }", "filter { p { a => [ 1, x { } ] } }", "filter { p { a => { k => x { } } } }",
	"#1\ninput{}\n#2\nfilter{}\n#3\noutput{}\n#4",
	"input{}\n\n\n#2\n\nfilter{}",
	"filter { if 1 == 1 { } else { } p { } }",
	"filter { if 1 == 1 { } else { # only a comment\n } }",
	"filter { if 1 == 1 { } else if 2 == 2 { } else { } }",
	"filter { p { a => \"line1\nline2 \\\" #x\n  line3\" b => 'x\n\ny' } }",
	"filter { p { a => [\"x\ny\", 'z\n'] h => { 'k\nl' => \"v\n\" } } }",
	"filter { p { c => q { d => r { e => \"f\ng\" } } } }",
	"filter { if \"a\nb\" in [c] and [d] =~ /x\ny/ { if 'x\n' == \"\n\" { p { } } } }",
	"filter { \"a\nb\" { 'c\nd' => 1 } }",
	"filter { p { a => -0 b => -0.0 c => 00012 d => 1. e => -5. } }",
	"\ufeffinput{}", "input{}\x00", "input{\x00}", "input {} \xff",
	"filter { if [a] not  in [b] {} }", "filter { if [a] not in [b] {} }", "filter { if [a] not#c\n in [b] {} }", "filter { if [a] notin [b] {} }",
	"filter { if[a]in[b]{} }", "filter { if([a])and([b]){} }", "filter { if ! [a] {} }", "filter { if !([a]) {} }", "filter{if!/a/{}}", "filter{if ((([a]))) {}}",
	"filter { if [a] == [b] == [c] {} }", "filter { if [a] and {} }", "filter { if {} {} }", "filter { if [] {} }", "filter { if [[a]] {} }", "filter { if [1] {} }", "filter { if [1,2] {} }", "filter { if [[1],[2]] in [x] {} }",
	"filter { ifx {} }", "filter { if x {} }", "filter { elsex {} }", "filter { if [a] {} elsex {} }", "filter { if [a] {} else if {} }", "filter { if [a] {} else iff {} }",
	"filter { p { a => 1 a => 2 a => 3 } }", "filter { p { a => 1b => 2 } }", "filter { p { a=>1\"b\"=>2'c'=>3 } }", "filter { p { a=>bc=>2 } }",
	"filter { p {} p{}p{}\"q\"{}'r'{} }", "inputfilter{}", "input{}output", "input{", "input{p{", "input{p{a=>\"", "input{p{a=>[", "input{p{a=>{", "input{p{a=>{1=>", "filter{if", "filter{if [a", "filter{if (", "filter{if [a] =~ /", "filter{if [a] {", "filter{if [a] {} else {",
	"filter {\r\n  # c1\r\n  p { # c2\r\n a => 1 # c3\r\n }\r\n}\r\n",
	"filter { p { a => 1 } # trailing\n # next\n q { } }",
	"filter { p { a => 1\n\n # x\n\n # y\n\n b => 2 } }",
	"filter { p { a => [ # f\n 1, # g\n 2 # h\n ] } }",
	"filter { p { a => { # f\n 1 => 2 # g\n 3 => 4 # h\n } } }",
	"filter { p { a => c { # x\n } } }", "filter { p { a => # exc\n c { x => 1 } } }", "filter { p { a # exc\n => 1 } }",
	"filter { if # a\n [x] # b\n == # c\n 1 # d\n and # e\n ( # f\n [y] # g\n ) # h\n { # i\n } # j\n else # k\n if # l\n 1 # m\n { } # n\n else # o\n { # p\n } # q\n }",
}

// Deep builds nested or repeated constructs; kinds counts them.
var deepKinds = []struct {
	name       string
	open, mid  string
	close      string
	pre, post  string
	incomplete bool
}{
	{"arrays", "[", "1", "]", "filter{p{a=>", "}}", false},
	{"hashes", "{k1=>", "1", "}", "filter{p{a=>", "}}", false},
	{"mixed", "[{1=>", "2", "}]", "filter{p{a=>", "}}", false},
	{"codecs", "cc{a=>", "1", "}", "filter{p{a=>", "}}", false},
	{"parens", "(", "[a]", ")", "filter{if ", "{}}", false},
	{"notparens", "!(", "[a]", ")", "filter{if ", "{}}", false},
	{"andparens", "([x]==1 and ", "[a]", ")", "filter{if ", "{}}", false},
	{"ifs", "if [a]{", "p{}", "}", "filter{", "}", false},
	{"elses", "if [a]{}else{", "p{}", "}", "filter{", "}", false},
	{"elseifs", "if [a]{}else if [b]{", "p{}", "}", "filter{", "}", false},
	{"condarrays", "[", "1", "]", "filter{if ", " in [x]{}}", false},
	{"selectors", "[a]", "", "", "filter{if [z]", "{}}", false},
	{"chain", "[a]==1 and ", "[b]", "", "filter{if ", "{}}", false},
	{"chainor", "[a] in [b] or ! [c] xor ", "[b]", "", "filter{if ", "{}}", false},
	{"elseifchain", "else if [a]==\"x\"{p{}}", "", "", "filter{if [q]{}", "}", false},
	{"ifelse", "if [a]{p{}}else{q{}}", "", "", "filter{", "}", false},
	{"plugins", "pp{a=>1}", "", "", "filter{", "}", false},
	{"attrs", "aa=>\"v\" ", "", "", "filter{p{", "}}", false},
	{"entries", "kk=>vv ", "", "", "filter{p{a=>{", "}}}", false},
	{"elements", "1,", "2", "", "filter{p{a=>[", "]}}", false},
	{"sections", "input{}", "", "", "", "", false},
	{"comments", "#c\n", "", "", "filter{", "}", false},
	{"blank", " \n\t", "", "", "filter{", "}", false},
	{"topcomments", "#c\n\n", "", "", "", "input{}", false},
	{"onlycomments", "#c\n ", "", "", "", "", false},
	{"backslashes", `\\`, "", "", `filter{p{a=>"`, `"}}`, false},
	{"escapedquotes", `\"`, "", "", `filter{p{a=>"`, `"}}`, false},
	{"digits", "7", "", "", "filter{p{a=>1.", "}}", false},
	{"bareword", "ab", "", "", "filter{p{a=>", "}}", false},
	{"exccomments", "#c\n", "", "", "filter{p{a ", "=>1}}", false},
}

// NumDeep is the number of nesting and repetition kinds.
func NumDeep() int { return len(deepKinds) * 4 }

// Deep returns kind k with n copies, and its name. Damage 0 is the complete
// text, 1 lacks the closing part, 2 has a wrong end, 3 a wrong middle.
func Deep(k, n int) (string, string) {
	d := deepKinds[k/4]
	var s string
	switch k % 4 {
	case 0:
		s = d.pre + strings.Repeat(d.open, n) + d.mid + strings.Repeat(d.close, n) + d.post
	case 1:
		s = d.pre + strings.Repeat(d.open, n)
	case 2:
		s = d.pre + strings.Repeat(d.open, n) + d.mid + strings.Repeat(d.close, n) + "\x01"
	case 3:
		s = d.pre + strings.Repeat(d.open, n) + "\x01" + strings.Repeat(d.close, n) + d.post
	}
	return s, fmt.Sprintf("%s/%d", d.name, k%4)
}

// InsertComments puts comments into randomly chosen gaps of a text.
func InsertComments(r *rand.Rand, s string, gaps [][2]int) string {
	if len(gaps) == 0 {
		return s
	}
	at := map[int]string{}
	for k := 1 + r.Intn(3); k > 0; k-- {
		g := gaps[r.Intn(len(gaps))]
		at[g[0]+r.Intn(g[1]-g[0]+1)] += []string{"#x\n", " # y\n", "\n# z\n\n", "#a\n\n#b\n", "\t#\n", "# ü \"\r\n"}[r.Intn(6)]
	}
	var b strings.Builder
	for i := 0; i <= len(s); i++ {
		b.WriteString(at[i])
		if i < len(s) {
			b.WriteByte(s[i])
		}
	}
	return b.String()
}
