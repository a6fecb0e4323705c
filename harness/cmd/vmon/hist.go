package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/ast/astutil"

	"verif/harness/gen"
	"verif/harness/ref"
)

// A job is one parse: text, options and file name.
type job struct {
	Text []byte
	Opts int
	Name string
}

const (
	optIgnore = 1 << iota
	optWarn
	optInvalid
	optMemo
)

func optList(bits int) []config.Option {
	var l []config.Option
	if bits&optIgnore != 0 {
		l = append(l, config.IgnoreComments(true))
	}
	if bits&optWarn != 0 {
		l = append(l, config.ExceptionalCommentsWarning(true))
	}
	if bits&optInvalid != 0 {
		l = append(l, config.AllowInvalidUTF8(true))
	}
	if bits&optMemo != 0 {
		l = append(l, config.Memoize(true))
	}
	return l
}

// answer is everything one parse and rendering shows.
type answer struct {
	Digest string // result with positions, comments and warnings, or error with report
	Out    string // rendered text
	Acc    string // what the methods of the nodes give
}

// Answers travel as bytes: JSON strings would lose invalid UTF-8.
func (a answer) MarshalJSON() ([]byte, error) {
	return json.Marshal([][]byte{[]byte(a.Digest), []byte(a.Out), []byte(a.Acc)})
}

func (a *answer) UnmarshalJSON(b []byte) error {
	var l [][]byte
	if err := json.Unmarshal(b, &l); err != nil || len(l) != 3 {
		return fmt.Errorf("no answer: %v", err)
	}
	a.Digest, a.Out, a.Acc = string(l[0]), string(l[1]), string(l[2])
	return nil
}

func plainOutcome(v interface{}, err error) outcome {
	o := outcome{v: v, err: err}
	if err == nil {
		o.cfg, _ = v.(ast.Config)
	}
	o.report, o.hasRep = config.GetFarthestFailure()
	return o
}

// accessors calls the methods without arguments of all nodes and describes the
// results.
func accessors(c ast.Config) string {
	var b strings.Builder
	left := 300
	accessorsOf(&b, reflect.ValueOf(c), 0, &left)
	return b.String()
}

func accessorsOf(b *strings.Builder, v reflect.Value, depth int, left *int) {
	if depth > 12 || *left <= 0 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return
		}
		if v.Kind() == reflect.Interface {
			accessorsOf(b, v.Elem(), depth, left)
			return
		}
	}
	typ := v.Type()
	ours := strings.HasSuffix(typ.PkgPath(), "logstash-config/ast") || typ.Kind() == reflect.Ptr && strings.HasSuffix(typ.Elem().PkgPath(), "logstash-config/ast")
	if ours {
		*left--
		for i := 0; i < v.NumMethod(); i++ {
			m := v.Method(i)
			if m.Type().NumIn() > 0 || m.Type().NumOut() == 0 {
				continue
			}
			fmt.Fprintf(b, "%s.%s:", typ, typ.Method(i).Name)
			for _, r := range m.Call(nil) {
				switch x := r.Interface().(type) {
				case error:
					fmt.Fprintf(b, " error %q %v", x, ast.IsNotFoundError(x))
				case string, float64, fmt.Stringer:
					s := fmt.Sprint(x)
					if len(s) > 60 {
						s = fmt.Sprintf("%d bytes %s", len(s), s[:60])
					}
					fmt.Fprintf(b, " %q", s)
				}
				if k := r.Kind(); k == reflect.Slice || k == reflect.Interface {
					accessorsOf(b, r, depth+1, left)
				}
			}
			b.WriteByte('\n')
		}
	}
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	switch v.Kind() {
	case reflect.Struct:
		if _, ok := v.Interface().(ast.Pos); ok {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				accessorsOf(b, v.Field(i), depth+1, left)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			accessorsOf(b, v.Index(i), depth+1, left)
		}
	}
}

func treeDigest(c ast.Config) string {
	o := outcome{cfg: c}
	return digest(o)
}

func (j job) run() answer {
	o := plainOutcome(config.Parse(j.Name, append([]byte{}, j.Text...), optList(j.Opts)...))
	a := answer{Digest: digest(o)}
	if o.err == nil {
		a.Acc = accessors(o.cfg)
		a.Out = o.cfg.String()
	}
	return a
}

// helperMain is a fresh process: it answers the jobs on its standard input in
// order.
func helperMain(args []string) {
	var jobs []job
	if err := json.NewDecoder(os.Stdin).Decode(&jobs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var out []answer
	if len(args) > 0 && args[0] == "together" {
		json.NewEncoder(os.Stdout).Encode(together(jobs))
		return
	}
	for _, j := range jobs {
		out = append(out, j.run())
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

// fresh runs jobs in a new process.
func (t *T) fresh(jobs ...job) []answer {
	in, _ := json.Marshal(jobs)
	c := exec.Command(os.Args[0], "helper")
	c.Stdin = bytes.NewReader(in)
	c.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=off")
	var stderr bytes.Buffer
	c.Stderr = &stderr
	b, err := c.Output()
	if err != nil {
		if strings.Contains(stderr.String(), "github.com/breml/logstash-config") {
			t.Note("stderr", stderr.String())
			t.Fail("parsing in a fresh process dies: %v", firstLine(stderr.String()))
		}
		t.Inconclusive("helper process: %v: %s", err, stderr.String())
	}
	var out []answer
	if err := json.Unmarshal(b, &out); err != nil || len(out) != len(jobs) {
		t.Inconclusive("helper process: %v", err)
	}
	t.Count("fresh_processes", 1)
	return out
}

func poolText(r *rand.Rand) string {
	switch r.Intn(9) {
	case 0:
		return gen.RandomBytes(r)
	case 1, 2, 3:
		return gen.Mutate(r, gen.Config(r))
	case 4:
		return gen.Systematic(r.Intn(gen.NumSystematic()))
	case 5:
		b := []byte(gen.Config(r))
		if len(b) > 0 {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
		return string(b)
	}
	return validText(r)
}

// live is a tree that must keep its digest.
type live struct {
	cfg    ast.Config
	digest string
	out    string
	what   string
	edited bool
}

// vandalise changes everything a tree gives access to.
func vandalise(r *rand.Rand, v reflect.Value, p float64, n *int) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		if e.Kind() == reflect.Ptr {
			vandalise(r, e, p, n)
			return
		}
		c := reflect.New(e.Type()).Elem()
		c.Set(e)
		vandalise(r, c, p, n)
		if v.CanSet() {
			v.Set(c)
		}
		if x, ok := e.Interface().(ast.Expression); ok && r.Float64() < p {
			x.SetBoolOperator(ast.BooleanOperator{Op: ast.Xor, Start: ast.Pos{Line: 77, Column: 77, Offset: 77}})
			*n++
		}
	case reflect.Ptr:
		if !v.IsNil() {
			vandalise(r, v.Elem(), p, n)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				vandalise(r, v.Field(i), p, n)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			vandalise(r, v.Index(i), p, n)
		}
		if v.Len() > 0 && v.CanSet() && r.Float64() < p {
			*n++
			switch r.Intn(4) {
			case 0:
				v.Index(r.Intn(v.Len())).Set(reflect.Zero(v.Type().Elem()))
			case 1:
				reflect.Copy(v, v.Slice(v.Len()/2, v.Len()))
			case 2: // into the capacity behind
				x := v.Slice(0, v.Len())
				reflect.Append(x, reflect.Zero(v.Type().Elem()))
			default:
				v.Set(v.Slice(0, v.Len()/2))
			}
		}
	case reflect.String:
		if v.CanSet() && r.Float64() < p {
			v.SetString("vandalised")
			*n++
		}
	case reflect.Int:
		if v.CanSet() && r.Float64() < p {
			v.SetInt(4711)
			*n++
		}
	case reflect.Bool:
		if v.CanSet() && r.Float64() < p {
			v.SetBool(!v.Bool())
			*n++
		}
	}
}

func c16Case(t *T, i int, r *rand.Rand) {
	n := 3 + r.Intn(4)
	file := []string{filepath.Join(t.Dir, "h1.conf"), filepath.Join(t.Dir, "h2.conf")}
	var jobs []job
	for k := 0; k < n; k++ {
		j := job{Text: []byte(poolText(r)), Opts: r.Intn(16), Name: []string{"", "a.conf", file[0], file[1], file[0]}[r.Intn(5)]}
		if r.Intn(3) > 0 {
			j.Opts = r.Intn(2) * optWarn
		}
		if k > 0 && r.Intn(4) == 0 { // the same text with other options or name
			j.Text = jobs[k-1].Text
		} else if k > 0 && r.Intn(4) == 0 { // a text of the same size, same name and options
			j = jobs[k-1]
			j.Text = append([]byte(nil), j.Text...)
			for q := 0; q < 20 && len(j.Text) > 0; q++ {
				b := &j.Text[r.Intn(len(j.Text))]
				if *b >= 'a' && *b <= 'y' {
					*b++
					break
				}
			}
		}
		jobs = append(jobs, j)
	}
	// What each job yields in a process of its own.
	var want []answer
	if r.Intn(8) == 0 {
		for _, j := range jobs {
			want = append(want, t.fresh(j)...)
		}
	} else {
		// One process, another order.
		perm := r.Perm(n)
		var l []job
		for _, p := range perm {
			l = append(l, jobs[p])
		}
		got := t.fresh(l...)
		want = make([]answer, n)
		for k, p := range perm {
			want[p] = got[k]
		}
	}
	var hist []string
	fail := func(format string, args ...interface{}) {
		for k, j := range jobs {
			t.Note(fmt.Sprintf("text %d (options %d, name %q)", k, j.Opts, j.Name), string(j.Text))
		}
		t.Note("history", strings.Join(hist, "\n"))
		t.Fail("after %d operations (last: %s): %s", len(hist), hist[len(hist)-1], fmt.Sprintf(format, args...))
	}
	var trees []*live
	shared := make([][]config.Option, 16)
	for b := range shared {
		shared[b] = optList(b)
	}
	verify := func(l *live) {
		if l.edited {
			return
		}
		t.Eval()
		if d := treeDigest(l.cfg); d != l.digest {
			fail("the tree of %s has changed: %s", l.what, ref.Diff(l.digest, d))
		}
	}
	buf := make([]byte, 0, 1<<16) // one buffer used again and again
	steps := 15 + r.Intn(25)
	t.sut("history", func() {
		for k := 0; k < steps; k++ {
			op := r.Intn(10)
			switch {
			case op < 5 || len(trees) == 0:
				x := r.Intn(n)
				j := jobs[x]
				hist = append(hist, fmt.Sprintf("parse text %d", x))
				var o outcome
				in := append(buf[:0], j.Text...)
				switch k := r.Intn(6); {
				case k >= 4 && filepath.IsAbs(j.Name):
					if err := os.WriteFile(j.Name, j.Text, 0o600); err != nil {
						t.Inconclusive("%v", err)
					}
					os.Chtimes(j.Name, oldTime, oldTime)
					hist[len(hist)-1] += " from a file"
					t.Count("files", 1)
					o = plainOutcome(config.ParseFile(j.Name, shared[j.Opts]...))
				case k == 0:
					o = plainOutcome(config.ParseReader(j.Name, bytes.NewReader(in), shared[j.Opts]...))
				case k == 1:
					rd := &chunkReader{s: string(j.Text), r: r, mode: r.Intn(5), err: io.EOF}
					o = plainOutcome(config.ParseReader(j.Name, rd, optList(j.Opts)...))
				default:
					o = plainOutcome(config.Parse(j.Name, in, shared[j.Opts]...))
				}
				t.Eval()
				t.Count("parses", 1)
				d := digest(o)
				if d != want[x].Digest {
					fail("parsing text %d gives another result than in a fresh process: %s", x, ref.Diff(want[x].Digest, d))
				}
				if o.err == nil {
					if r.Intn(4) == 0 {
						if a := accessors(o.cfg); a != want[x].Acc {
							fail("the methods of the nodes of text %d give something else than in a fresh process: %s", x, ref.Diff(want[x].Acc, a))
						}
						t.Count("trees_with_all_methods", 1)
					}
					l := &live{cfg: o.cfg, digest: treeDigest(o.cfg), out: want[x].Out, what: fmt.Sprintf("text %d (operation %d)", x, len(hist))}
					trees = append(trees, l)
					t.Count("trees", 1)
				} else {
					t.Count("rejected", 1)
				}
				// The input buffer belongs to the caller again.
				fill := byte("#\n \"]}\x00\xff"[r.Intn(8)])
				for b := range in {
					in[b] = fill
				}
				for _, l := range trees {
					verify(l)
				}
			case op < 7:
				l := trees[r.Intn(len(trees))]
				hist = append(hist, "render "+l.what)
				out := l.cfg.String()
				if !l.edited {
					t.Eval()
					t.Count("renderings", 1)
					if out != l.out {
						fail("rendering gives another text than in a fresh process: %s", ref.Diff(l.out, out))
					}
				}
				verify(l)
			case op < 8:
				l := trees[r.Intn(len(trees))]
				hist = append(hist, "inspect "+l.what)
				m := 0
				touch(reflect.ValueOf(l.cfg), &m)
				t.Count("nodes_inspected", m)
				verify(l)
			case op < 9:
				z := r.Intn(len(trees))
				l := trees[z]
				hist = append(hist, "edit "+l.what)
				l.edited = true
				m := 0
				if r.Intn(2) == 0 {
					trees = append(trees[:z:z], trees[z+1:]...)
					vandalise(r, reflect.ValueOf(&l.cfg), 0.2+0.6*r.Float64(), &m)
				} else {
					for _, sec := range [][]ast.PluginSection{l.cfg.Input, l.cfg.Filter, l.cfg.Output} {
						for q := range sec {
							sec[q].BranchOrPlugins = editAll(r, sec[q].BranchOrPlugins, &m)
						}
					}
				}
				t.Count("edits", m)
				for _, l := range trees {
					verify(l)
				}
			default:
				s := randomValue(r)
				hist = append(hist, "helper functions")
				e := astutil.Escape(s)
				astutil.Unescape(e)
				astutil.Quote(s, ast.DoubleQuoted)
				astutil.QuoteWithEscape(s, ast.SingleQuoted)
			}
			if len(trees) > 12 {
				trees = trees[1:]
			}
		}
		for _, l := range trees {
			verify(l)
			if !l.edited && l.cfg.String() != l.out {
				fail("rendering %s at the end gives another text", l.what)
			}
		}
	})
	t.Distinct(append(hist, string(jobs[0].Text))...)
	t.Sample("%d texts: %s", n, strings.Join(hist, "; "))
}

// editAll edits a tree of its own at random.
func editAll(r *rand.Rand, b body, n *int) body {
	return astutil.ApplyPlugins(b, func(c *astutil.Cursor) {
		if _, ok := c.Parent()[c.Index()].(ast.Plugin); !ok {
			return
		}
		*n++
		switch r.Intn(5) {
		case 0:
			c.InsertBefore(ast.NewPlugin("before"))
		case 1:
			c.InsertAfter(ast.NewPlugin("after"))
		case 2:
			c.Replace(ast.NewPlugin("other"))
		case 3:
			c.Delete()
		default:
			p := c.Plugin()
			for i := range p.Attributes {
				p.Attributes[i] = ast.NewStringAttribute("edited", "x", ast.DoubleQuoted)
			}
			p.Attributes = append(p.Attributes, ast.NewNumberAttribute("more", 1))
		}
	})
}

// ---- C15

type span struct {
	from, to time.Duration
	g        int
}

type stressText struct {
	job
	want   answer
	shared ast.Config // a tree that is only read
	ok     bool
}

// reportFits says whether a report describes a parse of the text.
func reportFits(rep, s string) bool {
	m := repLine.FindStringSubmatch(rep)
	if m == nil {
		return false
	}
	a, b := atoi(m[3]), atoi(m[4])
	if a < 0 || b < a || b > len(s) || !posOK(s, atoi(m[1]), atoi(m[2]), a) {
		return false
	}
	if strings.ReplaceAll(s[a:b], "\n", `\n`) != m[5] {
		return false
	}
	seen := map[string]bool{}
	for _, l := range strings.Split(strings.TrimSuffix(m[6], "\n"), "\n") {
		if seen[l] {
			return false
		}
		seen[l] = true
	}
	return true
}

// do carries out a job of a cold start. Its kind is in the upper bits of Opts.
func (j job) do() answer {
	s := string(j.Text)
	switch j.Opts >> 4 {
	case 1: // no tree at all
		return answer{Out: escapeAll(s)}
	case 2: // a tree made by hand
		p := ast.NewPlugin("p", ast.NewStringAttribute("a", s, ast.DoubleQuoted), ast.NewNumberAttribute("n", 1e21))
		p.Comment = ast.NewCommentBlock(ast.NewComment("c", true))
		_, err := p.ID()
		c := ast.NewConfig(nil, ast.NewPluginSections(ast.Filter, p, ast.NewBranch(ast.NewIfBlock(ast.NewCondition(), p), ast.NewElseBlock(p))), nil)
		n := 0
		l := astutil.ApplyPlugins(c.Filter[0].BranchOrPlugins, func(cu *astutil.Cursor) {
			if n++; n == 2 {
				cu.InsertAfter(p)
			}
		})
		return answer{Digest: fmt.Sprint(err, ast.IsNotFoundError(err), n, len(l)), Out: c.String()}
	case 3: // the smallest pieces
		// No fmt or other packages with locks, which would hide data races.
		out := ""
		for i := len(s) % 7; i < len(s)%7+7; i++ {
			for _, x := range []fmt.Stringer{ast.PluginType(i % 7), ast.CompareOperator{Op: i % 9}, ast.RegexpOperator{Op: i % 4}, ast.BooleanOperator{Op: i % 7}, ast.Pos{Line: i, Column: i, Offset: i},
				ast.NewComment(s, false), ast.NewNumberAttribute("n", float64(i)/3), ast.NewSelectorElement("e"), ast.NewRegexp("r"),
			} {
				out += x.String() + "\n"
			}
		}
		return answer{Out: out}
	case 4:
		o := plainOutcome(config.ParseReader(j.Name, bytes.NewReader(j.Text), optList(j.Opts)...))
		o.report = ""
		return answer{Digest: digest(o)}
	}
	o := plainOutcome(config.Parse(j.Name, append([]byte{}, j.Text...), optList(j.Opts)...))
	o.report = "" // may be that of another parse
	a := answer{Digest: digest(o)}
	if o.err == nil {
		a.Acc = accessors(o.cfg)
		a.Out = o.cfg.String()
	}
	return a
}

// together does all jobs at once.
func together(jobs []job) []answer {
	out := make([]answer, len(jobs))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for k := range jobs {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			<-start
			out[k] = jobs[k].do()
		}(k)
	}
	close(start)
	wg.Wait()
	return out
}

// coldStart lets goroutines use the package at the same time in a process in
// which nothing has been called before.
func (t *T) coldStart(r *rand.Rand) {
	jobs := make([]job, 2+r.Intn(7))
	kinds := r.Intn(4)
	text := poolText(r)
	for k := range jobs {
		j := job{Text: []byte(text), Opts: r.Intn(16)}
		if r.Intn(3) == 0 {
			j.Text = []byte(poolText(r))
		}
		switch kinds {
		case 0:
			j.Opts |= r.Intn(5) << 4
		case 1:
			j.Opts |= (1 + r.Intn(2)) << 4
		case 2:
			j.Opts |= 3 << 4
		}
		jobs[k] = j
	}
	in, _ := json.Marshal(jobs)
	c := exec.Command(os.Args[0], "helper", "together")
	c.Stdin = bytes.NewReader(in)
	c.Env = append(os.Environ(), "GOMAXPROCS=4", "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all")
	var stderr bytes.Buffer
	c.Stderr = &stderr
	b, err := c.Output()
	note := func() {
		t.Note("stderr", cutTo(stderr.String(), 8000))
		for k, j := range jobs {
			t.Note(fmt.Sprintf("job %d, options %d, kind %d", k, j.Opts&15, j.Opts>>4), string(j.Text))
		}
	}
	if err != nil {
		note()
		var ee *exec.ExitError
		switch {
		case errors.As(err, &ee) && ee.ExitCode() == 66:
			t.Fail("the race detector reports a data race between %d goroutines that use the package for the first time", len(jobs))
		case strings.Contains(stderr.String(), "github.com/breml/logstash-config"):
			t.Fail("a process in which %d goroutines use the package for the first time dies: %s", len(jobs), firstLine(stderr.String()))
		}
		t.Inconclusive("helper process: %v: %s", err, stderr.String())
	}
	var out []answer
	if err := json.Unmarshal(b, &out); err != nil || len(out) != len(jobs) {
		t.Inconclusive("helper process: %v", err)
	}
	for k, j := range jobs {
		var want answer
		t.sut("job", func() { want = j.do() })
		t.Eval()
		if d := ref.Diff(want.Digest+"\n"+want.Out+"\n"+want.Acc, out[k].Digest+"\n"+out[k].Out+"\n"+out[k].Acc); d != "" {
			note()
			t.Fail("goroutine %d of %d that use the package for the first time gets another result: %s", k, len(jobs), d)
		}
		t.Count(fmt.Sprintf("cold_job_kind_%d", j.Opts>>4), 1)
	}
	t.Distinct("cold", string(in))
	t.Count("cold_processes", 1)
}

func cutTo(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func c15Case(t *T, i int, r *rand.Rand) {
	if i%4 == 3 {
		t.coldStart(r)
		return
	}
	i = i/4*3 + i%4
	mode := i % 5
	n := 6 + r.Intn(8)
	pool := make([]*stressText, n)
	// In a cold case nothing has been looked at before the goroutines start
	// (whatever the code keeps for later, they are the first to fill it), and
	// the results are compared afterwards.
	cold := r.Intn(2) == 0
	expect := func(x *stressText) {
		o := plainOutcome(config.Parse(x.Name, append([]byte{}, x.Text...), optList(x.Opts)...))
		x.ok = o.err == nil
		o.report = ""
		x.want.Digest = digest(o)
		if x.ok {
			x.want.Out = o.cfg.String()
			x.want.Acc = accessors(o.cfg)
		}
	}
	t.sut("Parse", func() {
		for k := range pool {
			j := job{Text: []byte(poolText(r)), Opts: r.Intn(16)}
			if mode == 1 {
				j.Text = []byte(validText(r))
			}
			// Tell the texts apart in reports.
			j.Text = append([]byte(fmt.Sprintf("# text %d\n", k)), j.Text...)
			x := &stressText{job: j}
			o := plainOutcome(config.Parse(j.Name, append([]byte{}, j.Text...), optList(j.Opts)...))
			x.ok = o.err == nil
			x.shared = o.cfg
			if !cold {
				expect(x)
			}
			pool[k] = x
		}
	})
	values := make([]string, 8)
	wantEsc := make([]string, 8)
	t.sut("Escape", func() {
		for k := range values {
			values[k] = randomValue(r)
			if r.Intn(3) == 0 {
				values[k] = fmt.Sprintf("word_%d", r.Intn(1e9))
			}
			if !cold {
				wantEsc[k] = escapeAll(values[k])
			}
		}
	})
	shared := make([][]config.Option, 16)
	for b := range shared {
		shared[b] = optList(b)
	}
	gs := 2 + r.Intn(10)
	opsPer := 12
	if t.Tier == "thorough" {
		opsPer = 40
	}
	seeds := make([]int64, gs)
	for g := range seeds {
		seeds[g] = r.Int63()
	}
	// The goroutines share nothing but the pool; they keep notes of their own,
	// so that the monitor adds no synchronisation between them.
	type notes struct {
		fail  string
		spans []span
		count map[string]int
		edits int
		later []func() string
	}
	res := make([]notes, gs)
	start := make(chan struct{})
	var wg sync.WaitGroup
	t0 := time.Now()
	body := func(g int) {
		defer wg.Done()
		no := notes{count: map[string]int{}}
		defer func() {
			if e := recover(); e != nil {
				no.fail = fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
			}
			res[g] = no
		}()
		q := rand.New(rand.NewSource(seeds[g]))
		compare := func(f func() string) {
			if cold {
				no.later = append(no.later, f)
			} else {
				no.fail = f()
			}
		}
		<-start
		for k := 0; k < opsPer && no.fail == ""; k++ {
			x := pool[q.Intn(n)]
			op := q.Intn(12)
			switch mode {
			case 1: // render and inspect shared trees only
				op = 5 + q.Intn(3)
			case 2: // parse only
				op = q.Intn(4)
			case 3: // all goroutines work on the same text at the same time
				x = pool[k%n]
			}
			if q.Intn(4) == 0 {
				runtime.Gosched()
			}
			from := time.Since(t0)
			switch {
			case op < 5:
				var v interface{}
				var err error
				switch op {
				case 0:
					v, err = config.ParseReader(x.Name, &yieldReader{s: x.Text, r: q}, optList(x.Opts)...)
				case 1:
					v, err = config.Parse(x.Name, x.Text, shared[x.Opts]...)
				default:
					v, err = config.Parse(x.Name, append([]byte{}, x.Text...), optList(x.Opts)...)
				}
				o := outcome{v: v, err: err}
				if err == nil {
					o.cfg, _ = v.(ast.Config)
				}
				d := digest(o)
				compare(func() string {
					if d != x.want.Digest {
						return "a parse gives another result than alone: " + ref.Diff(x.want.Digest, d)
					}
					return ""
				})
				if err == nil && no.fail == "" {
					out := o.cfg.String()
					compare(func() string {
						if out != x.want.Out {
							return "rendering the own tree gives another text than alone: " + ref.Diff(x.want.Out, out)
						}
						return ""
					})
					if q.Intn(3) == 0 { // edit the own tree
						m := 0
						for _, sec := range [][]ast.PluginSection{o.cfg.Input, o.cfg.Filter, o.cfg.Output} {
							for z := range sec {
								sec[z].BranchOrPlugins = editAll(q, sec[z].BranchOrPlugins, &m)
							}
						}
						vandalise(q, reflect.ValueOf(&o.cfg), 0.5, &m)
						no.edits += m
					}
				}
				no.count["parses"]++
			case op < 7 && x.ok:
				out := x.shared.String()
				compare(func() string {
					if out != x.want.Out {
						return "rendering a shared tree gives another text: " + ref.Diff(x.want.Out, out)
					}
					return ""
				})
				no.count["renderings_of_shared_trees"]++
			case op < 8 && x.ok:
				m := 0
				touch(reflect.ValueOf(x.shared), &m)
				d := treeDigest(x.shared)
				acc := accessors(x.shared)
				compare(func() string {
					if acc != x.want.Acc {
						return "the methods of the nodes of a shared tree give something else: " + ref.Diff(x.want.Acc, acc)
					}
					if d != x.want.Digest {
						return "inspecting a shared tree shows something else: " + ref.Diff(x.want.Digest, d)
					}
					return ""
				})
				for _, sec := range x.shared.Filter {
					for _, b := range sec.BranchOrPlugins {
						if p, ok := b.(ast.Plugin); ok {
							_, err := p.ID()
							ast.IsNotFoundError(err)
						}
					}
				}
				no.count["inspections_of_shared_trees"]++
			case op < 10:
				if rep, ok := config.GetFarthestFailure(); ok {
					fits := false
					for _, y := range pool {
						if reportFits(rep, string(y.Text)) {
							fits = true
							break
						}
					}
					if !fits {
						no.fail = "a failure report describes no parse: " + rep
					}
					no.count["reports_read"]++
				} else if rep != "" {
					no.fail = "a report without failures: " + rep
				}
			default:
				k := q.Intn(len(values))
				e := escapeAll(values[k])
				compare(func() string {
					if e != wantEsc[k] {
						return "escaping gives another result than alone"
					}
					return ""
				})
				no.count["helper_functions"]++
			}
			no.spans = append(no.spans, span{from, time.Since(t0), g})
		}
	}
	t.sut("concurrent use", func() {
		wg.Add(gs)
		for g := 0; g < gs; g++ {
			go body(g)
		}
		close(start)
		wg.Wait()
	})
	if cold {
		t.Count("cold_cases", 1)
		other := false
		t.sut("Parse", func() {
			for _, x := range pool {
				ok := x.ok
				expect(x)
				other = other || ok != x.ok
			}
			for k := range values {
				wantEsc[k] = escapeAll(values[k])
			}
		})
		if other {
			t.Fail("a parse gives another result after the concurrent use")
		}
		for g := range res {
			for _, f := range res[g].later {
				if res[g].fail == "" {
					res[g].fail = f()
				}
			}
		}
	}
	var all []span
	for g := range res {
		if res[g].fail != "" {
			for k, x := range pool {
				t.Note(fmt.Sprintf("text %d (options %d)", k, x.Opts), string(x.Text))
			}
			t.Fail("goroutine %d of %d: %s", g, gs, res[g].fail)
		}
		all = append(all, res[g].spans...)
		for k, v := range res[g].count {
			t.Count(k, v)
		}
		t.Count("edits_of_own_trees", res[g].edits)
	}
	for _, x := range pool {
		if x.ok {
			if treeDigest(x.shared) != x.want.Digest {
				t.Fail("a shared tree has changed")
			}
		}
	}
	// What overlapped, and in which order the operations ended.
	sort.Slice(all, func(a, b int) bool { return all[a].to < all[b].to })
	h := fnv.New64a()
	overlaps := 0
	for k, s := range all {
		h.Write([]byte{byte(s.g)})
		for z := k + 1; z < len(all); z++ {
			if all[z].g != s.g && all[z].from < s.to {
				overlaps++
			}
		}
		t.Eval()
	}
	t.Count("overlapping_pairs_of_operations", overlaps)
	t.Count(fmt.Sprintf("goroutines_%02d", gs), 1)
	t.Distinct(fmt.Sprintf("order %d", h.Sum64()))
	t.Sample("mode %d, %d goroutines, %d operations, %d overlapping pairs", mode, gs, len(all), overlaps)
}

func escapeAll(s string) string {
	var b strings.Builder
	e := astutil.Escape(s)
	b.WriteString(e)
	b.WriteString(astutil.Unescape(e))
	b.WriteString(astutil.Unescape(s))
	for _, q := range quoteTypes {
		x, err := astutil.Quote(s, q.t)
		fmt.Fprintf(&b, "|%s %v|%s", x, err, astutil.QuoteWithEscape(s, q.t))
	}
	return b.String()
}

// yieldReader delivers pieces and lets other goroutines run in between.
type yieldReader struct {
	s []byte
	r *rand.Rand
	i int
}

func (y *yieldReader) Read(p []byte) (int, error) {
	runtime.Gosched()
	if y.i >= len(y.s) {
		return 0, io.EOF
	}
	n := 1 + y.r.Intn(50)
	n = copy(p, y.s[y.i:min(len(y.s), y.i+n)])
	y.i += n
	return n, nil
}

func init() {
	register(&Monitor{ID: "C15", Quick: 600, Thorough: 24000, Case: c15Case, MaxWorkers: 2,
		Need:   []string{"parses", "renderings_of_shared_trees", "inspections_of_shared_trees", "reports_read", "helper_functions", "edits_of_own_trees", "overlapping_pairs_of_operations", "cold_cases", "cold_processes"},
		Rule:   "each case: 2 to 11 goroutines under the race detector on a pool of 6 to 13 texts; evaluations: operations compared with their sequential result; distinct: orders in which the operations of a case ended",
		Assume: []string{"the race detector sees the executed schedules only", "walking a tree with ApplyPlugins counts as editing it"}})
	register(&Monitor{ID: "C16", Quick: 4000, Thorough: 150000, Case: c16Case,
		Need:   []string{"parses", "trees", "rejected", "renderings", "nodes_inspected", "edits", "fresh_processes"},
		Rule:   "each case: a history of 15 to 39 operations on 3 to 6 texts, compared with the answers of fresh processes; distinct: histories",
		Assume: []string{"the failure report is read before the input buffer is overwritten"}})
}
