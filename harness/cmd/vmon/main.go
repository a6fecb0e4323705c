// Command vmon runs one runtime monitor: it drives the real code of /repo with
// generated workloads and lets an oracle watch every execution.
//
//	vmon -prop C01 -tier quick -seed 1 -verif /verif [-cli mustache]
//	vmon -replay file
//
// The parent process splits the cases over worker processes. Case i of a
// property is a function of (seed, property, i) alone, so the verdict does not
// depend on timing. A worker that dies, or that spends a minute of processor
// time inside the code under test for one small case, is a violation of its
// own; the case is known from a progress file.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"verif/harness/gen"
	"verif/harness/shrink"
)

// A Monitor decides one property.
type Monitor struct {
	ID string
	// Quick and Thorough are the numbers of cases per tier.
	Quick, Thorough int
	// Case runs one case.
	Case func(t *T, i int, r *rand.Rand)
	// Text, if set, checks one text. Case defaults to one text from the
	// workload mix; failing texts are shrunk.
	Text func(t *T, s string)
	// Fixed runs once per check, in worker 0, before the cases.
	Fixed func(t *T)
	// Finish runs in the parent over the merged counters; it returns what is
	// missing for a verdict ("" if nothing is).
	Need   []string
	Rule   string
	Assume []string
	// MaxWorkers limits the number of worker processes (0: all cores).
	MaxWorkers int
	Exhaustive string
	// Stride: the quick tier takes every Stride-th systematic text.
	Stride int
}

var monitors = map[string]*Monitor{}

func register(m *Monitor) { monitors[m.ID] = m }

// T is what a case talks to.
type T struct {
	Mon     *Monitor
	Tier    string
	Seed    int64
	Index   int
	CLI     string
	Dir     string // scratch directory of the worker
	counts  map[string]int64
	seen    map[uint64]struct{}
	samples []string
	quiet   bool // counters off (shrinking)
	detail  map[string]string
	known   []known
}

// violation is the panic value of Fail.
type violation struct {
	msg    string
	input  string
	isText bool
	detail map[string]string
}

type inconclusive struct{ msg string }

// Fail reports a violation and ends the case.
func (t *T) Fail(format string, args ...interface{}) {
	panic(violation{msg: fmt.Sprintf(format, args...), detail: t.detail})
}

// FailText reports a violation shown by one text.
func (t *T) FailText(s, format string, args ...interface{}) {
	panic(violation{msg: fmt.Sprintf(format, args...), input: s, isText: true, detail: t.detail})
}

// Note keeps something for the replay file of the current case.
func (t *T) Note(k, v string) {
	if t.detail == nil {
		t.detail = map[string]string{}
	}
	if len(v) > 20000 {
		v = v[:20000] + "..."
	}
	t.detail[k] = v
}

// Inconclusive ends the run without a verdict.
func (t *T) Inconclusive(format string, args ...interface{}) {
	panic(inconclusive{fmt.Sprintf(format, args...)})
}

// Count adds to a counter of the evidence.
func (t *T) Count(k string, n int) {
	if !t.quiet {
		t.counts[k] += int64(n)
	}
}

// Eval counts an evaluation of the oracle.
func (t *T) Eval() { t.Count("evaluations", 1) }

// Distinct records a non-trivial observation by its content.
func (t *T) Distinct(parts ...string) {
	if t.quiet {
		return
	}
	h := uint64(14695981039346656037)
	for _, p := range parts {
		for i := 0; i < len(p); i++ {
			h = (h ^ uint64(p[i])) * 1099511628211
		}
		h = (h ^ 0x1ff) * 1099511628211
	}
	t.seen[h] = struct{}{}
}

// Sample offers a case for the evidence.
func (t *T) Sample(format string, args ...interface{}) {
	if t.quiet || len(t.samples) >= 6 {
		return
	}
	s := fmt.Sprintf(format, args...)
	if len(s) > 600 {
		return
	}
	t.samples = append(t.samples, s)
}

// ---- code under test

var sutSince int64 // unix nanoseconds since when the code under test runs, 0 if not

// sut runs f as code under test: a panic inside is a violation.
func (t *T) sut(what string, f func()) {
	atomic.StoreInt64(&sutSince, time.Now().UnixNano())
	defer atomic.StoreInt64(&sutSince, 0)
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case violation, inconclusive:
				panic(e)
			}
			st := string(debug.Stack())
			t.Note("stack", st)
			t.Fail("%s panics: %v", what, e)
		}
	}()
	f()
}

func cpuNow() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// ---- replay files

type replay struct {
	Property string            `json:"property"`
	Tier     string            `json:"tier"`
	Seed     int64             `json:"seed"`
	Index    int               `json:"index"`
	Kind     string            `json:"kind"` // text, case, crash, hang
	Input    []byte            `json:"input,omitempty"`
	Shown    string            `json:"input_quoted,omitempty"`
	Msg      string            `json:"message"`
	Detail   map[string]string `json:"detail,omitempty"`
}

type workerOut struct {
	Counts  map[string]int64
	Samples []string
	Known   []string
	Viol    *replay
	Inconcl string
}

// ---- worker

func caseRand(seed int64, prop string, i int) *rand.Rand {
	h := uint64(14695981039346656037)
	for _, c := range []byte(fmt.Sprintf("%d/%s/%d", seed, prop, i)) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return rand.New(rand.NewSource(int64(h)))
}

// run executes f and returns the violation it ends with, if any.
func (t *T) run(f func()) (v *violation, inc string) {
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case violation:
				v = &e
			case inconclusive:
				inc = e.msg
			default:
				st := string(debug.Stack())
				if panicsInSUT(st) {
					t.Note("stack", st)
					v = &violation{msg: fmt.Sprintf("the code under test panics: %v", e), detail: t.detail}
					return
				}
				inc = fmt.Sprintf("harness panic: %v\n%s", e, st)
			}
		}
	}()
	t.detail = nil
	f()
	return nil, ""
}

// panicsInSUT says whether the innermost function of a panicking stack that is
// not of the standard library belongs to the code under test.
func panicsInSUT(stack string) bool {
	i := strings.LastIndex(stack, "\npanic(")
	if i < 0 {
		return false
	}
	for _, l := range strings.Split(stack[i+1:], "\n")[1:] {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, "github.com/breml/logstash-config") {
			return true
		}
		if strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "verif/") {
			return false
		}
	}
	return false
}

// failsText says whether the text shows a violation (for shrinking).
func (t *T) failsText(s string) bool {
	q := t.quiet
	t.quiet = true
	defer func() { t.quiet = q }()
	v, _ := t.run(func() { t.Mon.Text(t, s) })
	return v != nil
}

func (t *T) oneCase(i int) {
	t.Index = i
	r := caseRand(t.Seed, t.Mon.ID, i)
	if t.Mon.Case != nil {
		t.Mon.Case(t, i, r)
		return
	}
	t.Mon.Text(t, textCase(t, i, r))
}

func (t *T) report(v *violation, index int) *replay {
	rp := &replay{Property: t.Mon.ID, Tier: t.Tier, Seed: t.Seed, Index: index, Kind: "case", Msg: v.msg, Detail: v.detail}
	if v.isText && t.Mon.Text != nil {
		rp.Kind = "text"
		in := v.input
		if t.failsText(in) {
			stop := time.Now().Add(40 * time.Second)
			in = shrink.Text(in, 4000, func(s string) bool { return time.Now().Before(stop) && t.failsText(s) })
			t.quiet = true
			if v2, _ := t.run(func() { t.Mon.Text(t, in) }); v2 != nil {
				rp.Msg, rp.Detail = v2.msg, v2.detail
			}
		}
		rp.Input, rp.Shown = []byte(in), strconv.Quote(in)
	} else if v.isText {
		rp.Shown = strconv.Quote(v.input)
	}
	return rp
}

func worker(t *T, k, n, cases int, out string) {
	debug.SetGCPercent(-1) // collect when 300 MB are in use
	debug.SetMemoryLimit(300 << 20)
	progress, err := os.OpenFile(filepath.Join(out, fmt.Sprintf("p%d", k)), os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var curCase int64 = -1
	go func() { // watchdog
		var since int64
		var cpu time.Duration
		for {
			time.Sleep(500 * time.Millisecond)
			s := atomic.LoadInt64(&sutSince)
			if s == 0 || s != since {
				since, cpu = s, cpuNow()
				continue
			}
			if cpuNow()-cpu > 60*time.Second {
				os.WriteFile(filepath.Join(out, fmt.Sprintf("hang%d", k)), []byte(strconv.FormatInt(atomic.LoadInt64(&curCase), 10)), 0o644)
				os.Exit(77)
			}
		}
	}()
	w := workerOut{Counts: t.counts}
	var buf [8]byte
	step := func(i int, f func()) bool {
		atomic.StoreInt64(&curCase, int64(i))
		binary.LittleEndian.PutUint64(buf[:], uint64(int64(i)))
		progress.WriteAt(buf[:], 0)
		v, inc := t.run(f)
		if v != nil {
			if kn := t.isKnown(v); kn != nil {
				t.Count("known_findings_met", 1)
				return true
			}
			w.Viol = t.report(v, i)
			return false
		}
		if inc != "" {
			w.Inconcl = fmt.Sprintf("case %d: %s", i, inc)
			return false
		}
		return true
	}
	ok := true
	if k == 0 {
		ok = step(-1, func() { w.Known = t.runKnown() })
		if ok && t.Mon.Fixed != nil {
			t.Index = -2
			ok = step(-2, func() { t.Mon.Fixed(t) })
		}
	}
	for b := 0; ok && b*n < cases; b++ { // diagonally: neighbouring cases have similar costs
		if i := b*n + (k+b+b/n)%n; i < cases {
			ok = step(i, func() { t.oneCase(i) })
		}
	}
	w.Samples = t.samples
	f, _ := os.Create(filepath.Join(out, fmt.Sprintf("h%d", k)))
	bw := bufio.NewWriter(f)
	for h := range t.seen {
		binary.LittleEndian.PutUint64(buf[:], h)
		bw.Write(buf[:])
	}
	bw.Flush()
	f.Close()
	b, _ := json.Marshal(w)
	os.WriteFile(filepath.Join(out, fmt.Sprintf("r%d.tmp", k)), b, 0o644)
	os.Rename(filepath.Join(out, fmt.Sprintf("r%d.tmp", k)), filepath.Join(out, fmt.Sprintf("r%d", k)))
	if !ok {
		os.Exit(1)
	}
}

// ---- parent

func newT(m *Monitor, tier string, seed int64, cli, dir, verif string) *T {
	return &T{Mon: m, Tier: tier, Seed: seed, CLI: cli, Dir: dir, counts: map[string]int64{}, seen: map[uint64]struct{}{}, known: readKnown(verif, m.ID)}
}

func main() {
	runtime.MemProfileRate = 0
	if len(os.Args) > 1 && os.Args[1] == "helper" {
		helperMain(os.Args[2:])
		return
	}
	src := os.Getenv("VMON_SRC")
	if src == "" {
		src = "/repo"
	}
	gen.LoadDict(src)
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	verif := flag.String("verif", "/verif", "directory with evidence and known findings")
	cli := flag.String("cli", "", "the mustache program")
	rep := flag.String("replay", "", "replay file")
	wk := flag.Int("worker", -1, "internal")
	of := flag.Int("of", 1, "internal")
	out := flag.String("out", "", "internal")
	cases := flag.Int("cases", 0, "number of cases (overrides the tier)")
	jobs := flag.Int("jobs", 0, "worker processes")
	text := flag.String("text", "", "check one text")
	dp := flag.String("deep", "", "internal")
	flag.Parse()
	if *dp != "" {
		deepChild(*dp)
		return
	}

	if *rep != "" {
		os.Exit(doReplay(*rep, *cli, *verif))
	}
	m := monitors[*prop]
	if m == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	n := m.Quick
	if *tier == "thorough" {
		n = m.Thorough
	}
	if *cases > 0 {
		n = *cases
	}
	if *text != "" {
		t := newT(m, *tier, *seed, *cli, os.TempDir(), *verif)
		v, inc := t.run(func() { m.Text(t, *text) })
		fmt.Println(v, inc, t.counts)
		return
	}
	if *wk >= 0 {
		t := newT(m, *tier, *seed, *cli, *out, *verif)
		t.Dir = filepath.Join(*out, fmt.Sprintf("w%d", *wk))
		os.MkdirAll(t.Dir, 0o777)
		worker(t, *wk, *of, n, *out)
		return
	}
	os.Exit(parent(m, *tier, *seed, *verif, *cli, n, *jobs))
}

func doReplay(file, cli, verif string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var rp replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	m := monitors[rp.Property]
	dir, _ := os.MkdirTemp("", "vmon")
	defer os.RemoveAll(dir)
	t := newT(m, rp.Tier, rp.Seed, cli, dir, verif)
	v, inc := t.run(func() {
		switch {
		case rp.Kind == "text":
			m.Text(t, string(rp.Input))
		case rp.Index == -2:
			m.Fixed(t)
		default:
			t.oneCase(rp.Index)
		}
	})
	switch {
	case v != nil:
		fmt.Printf("reproduced: property %s: %s\n", rp.Property, v.msg)
		for k, x := range v.detail {
			fmt.Printf("-- %s:\n%s\n", k, x)
		}
		return 1
	case inc != "":
		fmt.Println("inconclusive:", inc)
		return 3
	}
	fmt.Println("not reproduced")
	return 0
}

func parent(m *Monitor, tier string, seed int64, verif, cli string, n, jobs int) int {
	start := time.Now()
	if jobs == 0 {
		jobs = runtime.NumCPU()
		if jobs > 16 {
			jobs = 16
		}
		if jobs < 2 {
			jobs = 2
		}
	}
	if m.MaxWorkers > 0 && jobs > m.MaxWorkers {
		jobs = m.MaxWorkers
	}
	out, err := os.MkdirTemp("", "vmon")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	os.Chmod(out, 0o755)
	defer os.RemoveAll(out)
	type end struct {
		k   int
		err error
	}
	ends := make(chan end, jobs)
	procs := make([]*exec.Cmd, jobs)
	for k := 0; k < jobs; k++ {
		c := exec.Command(os.Args[0], "-prop", m.ID, "-tier", tier, "-seed", strconv.FormatInt(seed, 10), "-verif", verif, "-cli", cli,
			"-worker", strconv.Itoa(k), "-of", strconv.Itoa(jobs), "-out", out, "-cases", strconv.Itoa(n))
		gmp := "2"
		if m.MaxWorkers > 0 {
			gmp = strconv.Itoa(runtime.NumCPU())
		}
		c.Env = append(os.Environ(), "GOMAXPROCS="+gmp, "GORACE=halt_on_error=1 exitcode=66 history_size=3", "GOTRACEBACK=all")
		ef, _ := os.Create(filepath.Join(out, fmt.Sprintf("e%d", k)))
		c.Stderr, c.Stdout = ef, ef
		c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		if err := c.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		procs[k] = c
		go func(k int, c *exec.Cmd) { ends <- end{k, c.Wait()} }(k, c)
	}
	var viols []*replay
	var inconcl []string
	counts := map[string]int64{}
	hashes := map[uint64]struct{}{}
	var samples, knownLines []string
	stopped := false
	stopAll := func() {
		if stopped {
			return
		}
		stopped = true
		for _, p := range procs {
			syscall.Kill(-p.Process.Pid, syscall.SIGKILL)
		}
	}
	for range procs {
		e := <-ends
		b, rerr := os.ReadFile(filepath.Join(out, fmt.Sprintf("r%d", e.k)))
		if rerr == nil {
			var w workerOut
			if json.Unmarshal(b, &w) == nil {
				for k, v := range w.Counts {
					counts[k] += v
				}
				samples = append(samples, w.Samples...)
				knownLines = append(knownLines, w.Known...)
				if w.Viol != nil {
					viols = append(viols, w.Viol)
					stopAll()
				}
				if w.Inconcl != "" {
					inconcl = append(inconcl, w.Inconcl)
				}
				hb, _ := os.ReadFile(filepath.Join(out, fmt.Sprintf("h%d", e.k)))
				for i := 0; i+8 <= len(hb); i += 8 {
					hashes[binary.LittleEndian.Uint64(hb[i:])] = struct{}{}
				}
			}
			continue
		}
		if stopped {
			continue
		}
		// The worker died.
		errText, _ := os.ReadFile(filepath.Join(out, fmt.Sprintf("e%d", e.k)))
		if len(errText) > 12000 {
			errText = errText[:12000]
		}
		idx := -1
		if pb, err := os.ReadFile(filepath.Join(out, fmt.Sprintf("p%d", e.k))); err == nil && len(pb) >= 8 {
			idx = int(int64(binary.LittleEndian.Uint64(pb)))
		}
		rp := &replay{Property: m.ID, Tier: tier, Seed: seed, Index: idx, Kind: "crash", Detail: map[string]string{"output": string(errText)}}
		code := -1
		var ee *exec.ExitError
		if errors.As(e.err, &ee) {
			code = ee.ExitCode()
		}
		ws, _ := ee.Sys().(syscall.WaitStatus)
		switch {
		case code == 77:
			rp.Kind, rp.Msg = "hang", "the code under test does not finish within a minute of processor time"
		case code == 66:
			rp.Msg = "the race detector reports a data race"
		case ws.Signaled() && ws.Signal() == syscall.SIGKILL:
			inconcl = append(inconcl, fmt.Sprintf("worker %d was killed in case %d", e.k, idx))
			continue
		case strings.Contains(string(errText), "fatal error") || strings.Contains(string(errText), "panic"):
			rp.Msg = "the process dies: " + firstLine(string(errText))
		default:
			inconcl = append(inconcl, fmt.Sprintf("worker %d ended in case %d: %v %s", e.k, idx, e.err, errText))
			continue
		}
		viols = append(viols, rp)
		stopAll()
	}

	if len(viols) == 0 && len(inconcl) == 0 {
		for _, k := range m.Need {
			if counts[k] == 0 {
				inconcl = append(inconcl, "never observed: "+k)
			}
		}
		if counts["evaluations"] == 0 || len(hashes) == 0 {
			inconcl = append(inconcl, "nothing was evaluated")
		}
	}
	sort.Strings(samples)
	if len(samples) > 6 {
		samples = samples[:6]
	}
	cov := map[string]interface{}{
		"evaluations":         counts["evaluations"],
		"distinct_nontrivial": len(hashes),
		"rule":                m.Rule,
		"samples":             samples,
		"cases":               n,
		"workers":             jobs,
		"observed":            counts,
	}
	delete(counts, "evaluations")
	if m.Exhaustive != "" {
		cov["enumerated_completely"] = m.Exhaustive
	}
	if len(knownLines) > 0 {
		cov["known_findings"] = knownLines
	}
	if len(inconcl) > 0 {
		cov["inconclusive"] = inconcl
	}
	ev := map[string]interface{}{
		"property": m.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": m.Assume, "wall_s": time.Since(start).Seconds(), "violations": len(viols),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", m.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	for _, l := range knownLines {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", m.ID, l)
	}
	if len(viols) > 0 {
		rp := viols[0]
		for _, v := range viols[1:] { // prefer a shrunk text
			if v.Kind == "text" && (rp.Kind != "text" || len(v.Input) < len(rp.Input)) {
				rp = v
			}
		}
		os.MkdirAll(filepath.Join(verif, "replays"), 0o755)
		path := filepath.Join(verif, "replays", m.ID+".json")
		b, _ := json.MarshalIndent(rp, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Printf("%s: %s\n", m.ID, rp.Msg)
		if rp.Shown != "" && len(rp.Shown) < 2000 {
			fmt.Printf("input: %s\n", rp.Shown)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", m.ID, path)
		return 1
	}
	if len(inconcl) > 0 {
		for _, s := range inconcl {
			fmt.Fprintln(os.Stderr, "inconclusive:", s)
		}
		return 3
	}
	fmt.Printf("%s: held in %v evaluations, %d distinct (%.1fs)\n", m.ID, cov["evaluations"], len(hashes), time.Since(start).Seconds())
	return 0
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal error") || strings.HasPrefix(l, "panic") || strings.Contains(l, "runtime:") {
			return l
		}
	}
	return strings.SplitN(s, "\n", 2)[0]
}
