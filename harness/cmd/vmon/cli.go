package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"

	config "github.com/breml/logstash-config"

	"verif/harness/gen"
	"verif/harness/ref"
)

// ---- scenes: a scratch directory with files of every kind

// A cfile is one entry of the command line.
type cfile struct {
	arg  string
	kind string // valid, invalid, dir, unreadable
	text string
	m    ref.Result
	why  string // for unreadable: what the error must say
	// what the library says about an invalid text
	err, rep string
	hasRep   bool
	noWrite  string // why rewriting the file fails ("" if it does not)
}

type scene struct {
	t     *T
	r     *rand.Rand
	dir   string
	n     int
	list  []*cfile
	user  bool // run as an unprivileged user
	limit int  // file size limit in KiB, 0: none
	full  bool // standard output is a full device
	closd bool // standard output is closed
	hist  []string
	stdin *cfile // a pipe
	// free: flags in any place and spelling. The command has the flag
	// --write-to-source or --auto-fix-id.
	free, hasWrite, hasFix bool
	plain                  map[string]bool
	names                  []string // base names drawn
	strays                 []string // settings files without effect
}

func newScene(t *T, r *rand.Rand) *scene {
	dir := filepath.Join(t.Dir, "scene")
	os.RemoveAll(dir)
	if err := os.MkdirAll(filepath.Join(dir, "sub dir"), 0o777); err != nil {
		t.Inconclusive("%v", err)
	}
	os.Chmod(dir, 0o777)
	os.Chmod(filepath.Join(dir, "sub dir"), 0o777)
	return &scene{t: t, r: r, dir: dir}
}

var oldTime = time.Unix(1500000000, 0)

// name draws a file name, unique in the scene.
func (s *scene) name() string {
	s.n++
	if s.r.Intn(50) == 0 && !s.has("-") {
		s.names = append(s.names, "-") // not the standard input
		s.t.Count("files_named_dash", 1)
		return "-"
	}
	n := []string{"%d.conf", "f %d.conf", "sub dir/x%d", "é%d.conf", "%%s%%d%d.conf", "./r%d.conf", "q'\"%d", ".hidden%d", "a:%d:2 (3): b.conf", "UPPER%d.CONF", "w*%d"}[s.r.Intn(11)]
	if s.free && s.r.Intn(3) == 0 {
		n = []string{"-w%d", "--help%d", "--auto-fix-id=%d", "-%d", "true", "false", "check", "format", "lint", "help", "completion", "--help", "-w", "-h", "--write-to-source", "--auto-fix-id"}[s.r.Intn(16)]
		if !strings.Contains(n, "%d") && s.plain[n] {
			n = "x%d"
		}
		if !strings.Contains(n, "%d") {
			if s.plain == nil {
				s.plain = map[string]bool{}
			}
			s.plain[n] = true
			return n
		}
	}
	n = fmt.Sprintf(n, s.n)
	if s.r.Intn(12) == 0 {
		// A name with or like something the program mentions.
		d := gen.DictString(s.r, "/\x00")
		n = []string{d + strconv.Itoa(s.n), "f" + strconv.Itoa(s.n) + d, "f" + strconv.Itoa(s.n) + d}[s.r.Intn(3)]
		if strings.HasPrefix(n, "-") && !s.free {
			n = "./" + n
		}
	}
	if len(s.names) > 0 && s.r.Intn(10) == 0 {
		// A name much like another one.
		m := gen.Near(s.r, s.names[s.r.Intn(len(s.names))])
		_, err := os.Lstat(s.path(m))
		if m != "" && len(m) < 100 && os.IsNotExist(err) && !strings.ContainsAny(m, "/:\n\t\r") && m[0] != '-' && !strings.HasPrefix(m, "mustache.") && !s.has(m) {
			n = m
		}
	}
	for base := strings.TrimPrefix(n, "./"); s.has(base); base = n {
		n = base + "_"
	}
	if base := strings.TrimPrefix(n, "./"); !strings.Contains(base, "/") {
		s.names = append(s.names, base)
	}
	if s.r.Intn(5) == 0 {
		n = filepath.Join(s.dir, n)
	}
	return n
}

func (s *scene) has(name string) bool {
	for _, n := range s.names {
		if n == name {
			return true
		}
	}
	return false
}

func (s *scene) path(arg string) string {
	if filepath.IsAbs(arg) {
		return arg
	}
	return filepath.Join(s.dir, arg)
}

func (s *scene) write(arg, text string) {
	p := s.path(arg)
	if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
		s.t.Inconclusive("%v", err)
	}
	mode := []os.FileMode{0o644, 0o644, 0o600, 0o755, 0o664, 0o400, 0o606, 0o640}[s.r.Intn(8)]
	if s.user {
		mode = 0o666
	}
	os.Chmod(p, mode)
	os.Chtimes(p, oldTime, oldTime)
}

// valid returns a valid text inside the domain of the formatter.
func (s *scene) validText(big int) (string, ref.Result) {
	for k := 0; ; k++ {
		st := gen.RandomStyle(s.r)
		if s.r.Intn(4) > 0 {
			st.IDs = 0.3 + 0.7*s.r.Float64()
		}
		if s.r.Intn(2) == 0 {
			st.QuotedNames, st.OddNames = 0, 0
		}
		text := gen.ConfigStyle(s.r, st)
		switch s.r.Intn(12) {
		case 0:
			text = validText(s.r)
		case 1:
			text = []string{"", "\n", "input{}", "filter{a{}}", " \t\n", "input{}filter{}output{}"}[s.r.Intn(6)]
		}
		for big > 0 && len(text) < big {
			text += "\ninput { plug { id => \"x" + strconv.Itoa(len(text)) + "\" } if [a] { other { b => 1 } } }\n"
		}
		m := ref.Parse(text)
		if !m.OK || m.Disputed != "" || len(text) > 20000+2*big || strings.Contains(text, "\n\t* ") {
			continue
		}
		if confusable(m.Root) || !s.t.inFormatDomain(text, m) {
			continue
		}
		if (s.closd || s.full) && len(ref.Group(m.Root).Kids) == 0 {
			continue // writing nothing may fail or not
		}
		return text, m
	}
}

func (s *scene) invalidText() (string, ref.Result) {
	for {
		text := gen.Mutate(s.r, gen.Config(s.r))
		switch s.r.Intn(8) {
		case 0:
			text = gen.RandomBytes(s.r)
		case 1:
			text, _ = s.validText(0)
			b := []byte(text)
			b = append(b, 0xff)
			text = string(b)
		}
		if m := ref.Parse(text); !m.OK && m.Disputed == "" && len(text) < 20000 {
			return text, m
		}
	}
}

// large pads a text with ignorable text: to sizes which the program mentions,
// and to usual limits.
func (s *scene) large(text string, m ref.Result) (string, ref.Result) {
	if s.r.Intn(100) > 0 || s.limit > 0 {
		return text, m
	}
	n := []int{1 << 12, 1 << 15, 1 << 16, 1 << 16, 1 << 17, 1 << 20, 1 << 20}[s.r.Intn(7)]
	if s.r.Intn(2) == 0 {
		n = gen.DictInt(s.r, 1<<20)
	}
	n += s.r.Intn(100) - 50
	unit := []string{"\n", " ", "\r\n", "   \n\t", "# filled up\n", "#\n", "# " + strings.Repeat("x", 5000) + "\n"}[s.r.Intn(7)]
	if n < len(text) {
		return text, m
	}
	pad := strings.Repeat(unit, 1+(n-len(text))/len(unit))
	big := pad + text
	switch s.r.Intn(4) {
	case 0:
		big = text + "\n" + pad
	case 1:
		big += "\ninput { last {} }"
	}
	bm := ref.Parse(big)
	if bm.OK != m.OK || bm.Disputed != "" || m.OK && !s.t.inFormatDomain(big, bm) {
		return text, m
	}
	s.t.Count("large_files", 1)
	return big, bm
}

func (s *scene) addValid() *cfile {
	f := &cfile{arg: s.name(), kind: "valid"}
	f.text, f.m = s.large(s.validText(0))
	// Below a size limit the rewritten file has to be, with any ids added.
	for s.limit > 0 && 2*len(s.formatted(f))+60*strings.Count(f.text, "{") > s.limit*1024 {
		f.text, f.m = s.validText(0)
	}
	s.write(f.arg, f.text)
	s.list = append(s.list, f)
	return f
}

func (s *scene) addInvalid() *cfile {
	f := &cfile{arg: s.name(), kind: "invalid"}
	f.text, f.m = s.large(s.invalidText())
	s.write(f.arg, f.text)
	s.list = append(s.list, f)
	return f
}

// addAlias names a file again: directly, by a symbolic or by a hard link.
func (s *scene) addAlias() {
	if s.r.Intn(4) == 0 && (s.again("unreadable") || s.again("dir")) {
		return
	}
	var c []*cfile
	for _, f := range s.list {
		if f.kind == "valid" || f.kind == "invalid" {
			c = append(c, f)
		}
	}
	if len(c) == 0 {
		s.addValid()
		return
	}
	o := *c[s.r.Intn(len(c))]
	f := &o
	switch s.r.Intn(3) {
	case 0:
	case 1:
		n := s.name()
		if os.Symlink(s.path(f.arg), s.path(n)) == nil {
			f.arg = n
		}
	default:
		n := s.name()
		if os.Link(s.path(f.arg), s.path(n)) == nil {
			f.arg = n
		}
	}
	s.list = append(s.list, f)
}

// addStdin names the standard input.
func (s *scene) addStdin() {
	if s.user {
		return
	}
	f := &cfile{arg: "/dev/stdin", kind: "valid"}
	if s.r.Intn(2) == 0 {
		f.text, f.m = s.validText(0)
	} else {
		f.kind = "invalid"
		f.text, f.m = s.invalidText()
	}
	s.stdin = f
	k := s.r.Intn(len(s.list) + 1)
	s.list = append(s.list[:k:k], append([]*cfile{f}, s.list[k:]...)...)
	s.t.Count("standard_input_named", 1)
}

func (s *scene) addDir() {
	if s.r.Intn(4) == 0 && s.again("dir") {
		return
	}
	n := s.name()
	os.Mkdir(s.path(n), 0o755)
	os.WriteFile(filepath.Join(s.path(n), "inside.conf"), []byte("input {"), 0o644)
	switch s.r.Intn(8) {
	case 0: // by a symbolic link
		l := s.name()
		if os.Symlink(s.path(n), s.path(l)) == nil {
			n = l
		}
	case 1: // by a chain of links
		l, k := s.name(), s.name()
		if os.Symlink(s.path(l), s.path(k)) == nil && os.Symlink(s.path(n), s.path(l)) == nil {
			n = k
		}
	case 2:
		n += "/"
	case 3:
		n += "/."
	case 4:
		n = []string{".", "sub dir", "sub dir/..", "./"}[s.r.Intn(4)]
	}
	s.list = append(s.list, &cfile{arg: n, kind: "dir"})
}

// again names an earlier argument of a kind once more.
func (s *scene) again(kind string) bool {
	var c []*cfile
	for _, f := range s.list {
		if f.kind == kind {
			c = append(c, f)
		}
	}
	if len(c) == 0 {
		return false
	}
	o := *c[s.r.Intn(len(c))]
	s.list = append(s.list, &o)
	s.t.Count("repeated_"+kind, 1)
	return true
}

// addUnreadable adds a target that cannot be read.
func (s *scene) addUnreadable(k int) *cfile {
	n := s.name()
	f := &cfile{arg: n, kind: "unreadable"}
	p := s.path(n)
	switch k {
	case 0:
		f.why = "no such file"
		switch s.r.Intn(8) {
		case 0:
			f.arg = n + "/"
		case 1:
			f.arg = ""
		case 2:
			f.arg = n + "/../" + n
		case 3:
			f.arg = n + "?"
		}
	case 1:
		s.write(n, "input{}")
		f.arg, f.why = n+[]string{"/below.conf", "/", "/.", "//x"}[s.r.Intn(4)], "not a directory"
	case 2:
		os.Symlink(filepath.Base(p), p)
		f.why = "too many levels"
	case 3:
		f.arg, f.why = strings.Repeat("n", 300), "file name too long"
	case 4:
		l, err := net.ListenUnix("unix", &net.UnixAddr{Name: p, Net: "unix"})
		if err != nil {
			f.why = "no such file"
			break
		}
		l.SetUnlinkOnClose(false)
		l.Close()
		f.why = "no such device or address"
	case 5:
		os.Symlink("nowhere", p)
		f.why = "no such file"
	case 6:
		os.MkdirAll(p, 0o755)
		f.arg, f.why = n+"/missing/x.conf", "no such file"
	case 7: // needs the unprivileged user
		s.write(n, "input{}")
		os.Chmod(p, 0)
		f.why = "permission denied"
	case 8:
		os.MkdirAll(p, 0o755)
		os.WriteFile(filepath.Join(p, "x.conf"), []byte("input{}"), 0o666)
		os.Chmod(p, 0o600)
		f.arg, f.why = n+"/x.conf", "permission denied"
	}
	s.list = append(s.list, f)
	return f
}

func (s *scene) fill(n int) {
	for ; n > 0; n-- {
		switch k := s.r.Intn(12); {
		case k < 5:
			s.addValid()
		case k < 8:
			s.addInvalid()
		case k < 9:
			s.addDir()
		case k < 10:
			s.addUnreadable(s.r.Intn(7))
		default:
			s.addAlias()
		}
	}
	s.r.Shuffle(len(s.list), func(i, j int) { s.list[i], s.list[j] = s.list[j], s.list[i] })
}

// bystander adds a file that is not named on the command line.
func (s *scene) bystander() {
	os.WriteFile(filepath.Join(s.dir, "bystander.conf"), []byte("input{unformatted{}}"), 0o644)
	os.Chtimes(filepath.Join(s.dir, "bystander.conf"), oldTime, oldTime)
}

// ---- file system snapshots

type snap map[string]string // path: everything but the content
type shot struct {
	meta    snap
	content map[string]string
}

func (s *scene) snapshot() shot {
	sh := shot{snap{}, map[string]string{}}
	filepath.Walk(s.dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			s.t.Inconclusive("%v", err)
		}
		st := fi.Sys().(*syscall.Stat_t)
		m := fmt.Sprintf("%v ino %d nlink %d uid %d", fi.Mode(), st.Ino, st.Nlink, st.Uid)
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			m += " -> " + l
		case fi.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				s.t.Inconclusive("%v", err)
			}
			sh.content[p] = string(b)
		}
		sh.meta[p] = m
		return nil
	})
	return sh
}

// times lists the modification times, which show rewriting without a change.
func (s *scene) times() map[string]time.Time {
	l := map[string]time.Time{}
	filepath.Walk(s.dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			l[p] = fi.ModTime()
		}
		return nil
	})
	return l
}

// sameMeta checks that names, modes, links and owners are what they were.
func (s *scene) sameMeta(a, b shot) {
	for p, m := range a.meta {
		if b.meta[p] != m {
			s.fail("%q was %q and is %q", p, m, b.meta[p])
		}
	}
	for p := range b.meta {
		if _, ok := a.meta[p]; !ok {
			s.fail("%q was created", p)
		}
	}
}

// untouched checks that nothing at all has changed.
func (s *scene) untouched(a, b shot, ta, tb map[string]time.Time) {
	s.sameMeta(a, b)
	for p, c := range a.content {
		if b.content[p] != c {
			s.fail("the content of %q has changed from %q to %q", p, cut(c), cut(b.content[p]))
		}
		if !ta[p].Equal(tb[p]) {
			s.fail("%q was rewritten", p)
		}
	}
}

// inode identifies the regular file behind an argument or a path: a file may
// have several names.
func (s *scene) inode(path string) uint64 {
	fi, err := os.Stat(path)
	if err != nil {
		s.t.Inconclusive("%v", err)
	}
	return fi.Sys().(*syscall.Stat_t).Ino
}

func (s *scene) real(f *cfile) uint64 { return s.inode(s.path(f.arg)) }

// ---- running the program

type result struct {
	code           int
	stdout, stderr string
}

func (s *scene) fail(format string, args ...interface{}) {
	for _, f := range s.list {
		s.t.Note(fmt.Sprintf("file %q (%s)", f.arg, f.kind), f.text)
	}
	s.t.Note("commands", strings.Join(s.hist, "\n"))
	s.t.Fail("%s: %s", s.hist[len(s.hist)-1], fmt.Sprintf(format, args...))
}

// run runs the program on the files of the scene.
func (s *scene) run(args ...string) result {
	return s.exec(s.arguments(args)...)
}

// arguments puts together command, flags and files.
func (s *scene) arguments(args []string) []string {
	var files []string
	dash := false
	for _, f := range s.list {
		f := f.arg
		if strings.HasPrefix(f, "-") {
			if f == "-" {
				// an argument like any other
			} else if s.free {
				dash = true // has to stand behind "--"
			} else {
				f = "./" + f
			}
		}
		files = append(files, f)
	}
	if !s.free {
		if s.r.Intn(6) == 0 { // options may be ended explicitly
			args = append(args[:len(args):len(args)], "--")
		}
		return append(args[:len(args):len(args)], files...)
	}
	// Flags stand anywhere behind the command and before "--".
	end := len(files)
	if dash {
		for end = 0; !strings.HasPrefix(files[end], "-") || files[end] == "-"; end++ {
		}
	}
	if dash || s.r.Intn(3) == 0 {
		end = s.r.Intn(end + 1)
		dash = true
	}
	flags := s.flags(args[1:])
	out := []string{args[0]}
	for i := 0; i < end || len(flags) > 0; {
		if len(flags) > 0 && (i == end || s.r.Intn(2) == 0) {
			out, flags = append(out, flags[0]), flags[1:]
		} else {
			out = append(out, files[i])
			i++
		}
	}
	if dash {
		out = append(out, "--")
	}
	return append(out, files[end:]...)
}

// flags writes boolean flags in another way.
func (s *scene) flags(l []string) []string {
	names := []string{"-w", "--write-to-source"}
	if s.hasFix {
		names = []string{"--auto-fix-id"}
	} else if !s.hasWrite {
		return nil
	}
	on := len(l) > 0
	spell := func(v bool) string {
		f := names[s.r.Intn(len(names))]
		if v {
			return f + []string{"", "", "=true", "=1", "=T", "=TRUE", "=t", "=True"}[s.r.Intn(8)]
		}
		return f + []string{"=false", "=0", "=F", "=FALSE", "=f", "=False"}[s.r.Intn(6)]
	}
	var out []string
	for k := s.r.Intn(3); k > 0; k-- {
		out = append(out, spell(s.r.Intn(2) == 0))
	}
	if on || len(out) > 0 { // the last one counts
		out = append(out, spell(on))
	}
	return out
}

func (s *scene) home() string { return filepath.Join(s.t.Dir, "home") }

// exec runs the program.
func (s *scene) exec(args ...string) result {
	t := s.t
	shown := fmt.Sprintf("mustache %q", args)
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, t.CLI, args...)
	if s.limit > 0 {
		cmd = exec.CommandContext(ctx, "/bin/bash", append([]string{"-c", `ulimit -f "$0" && exec "$@"`, strconv.Itoa(s.limit), t.CLI}, args...)...)
		shown += fmt.Sprintf(" with a file size limit of %d KiB", s.limit)
	}
	home := s.home()
	os.MkdirAll(home, 0o755)
	cmd.Dir = s.dir
	cmd.Env = []string{"HOME=" + home, "XDG_CONFIG_HOME=" + home, "PATH=" + os.Getenv("PATH"), "GOTRACEBACK=all", "GOMAXPROCS=2"}
	if s.limit == 0 && s.r.Intn(3) == 0 {
		// Variables that have nothing to do with what is asked for.
		var l []string
		for k := 1 + s.r.Intn(6); k > 0; k-- {
			w := strings.ToUpper(strings.ReplaceAll(gen.DictWord(s.r), "-", "_"))
			if s.r.Intn(4) == 0 {
				w += "_" + strings.ToUpper(gen.DictWord(s.r))
			}
			v := []string{"1", "true", "true", "0", "x", "/"}[s.r.Intn(6)]
			switch s.r.Intn(6) {
			case 0, 1:
				w = "MUSTACHE_" + w
			case 2:
				l = append(l, []string{"NO_COLOR=1", "CI=true", "DEBUG=1", "VERBOSE=1", "LC_ALL=tr_TR.UTF-8", "LANG=C", "TZ=Asia/Kathmandu", "TERM=dumb", "COLUMNS=10", "MUSTACHE_AUTO_FIX_ID=true", "MUSTACHE_WRITE_TO_SOURCE=true", "AUTO_FIX_ID=true", "WRITE_TO_SOURCE=1"}[s.r.Intn(13)])
				continue
			}
			if !strings.HasPrefix(w, "GO") && !strings.HasPrefix(w, "LD_") && w != "HOME" && w != "PATH" && !strings.HasPrefix(w, "XDG") && !strings.HasPrefix(w, "COBRA") {
				l = append(l, w+"="+v)
			}
		}
		cmd.Env = append(cmd.Env, l...)
		shown = strings.Join(l, " ") + " " + shown
		t.Count("runs_with_other_environment", 1)
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if s.user {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: true}
		shown += " as an unprivileged user"
	}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if s.full {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			t.Inconclusive("%v", err)
		}
		defer f.Close()
		cmd.Stdout = f
		shown += " >/dev/full"
	}
	if s.closd {
		f, err := os.Open("/dev/null") // not open for writing
		if err != nil {
			t.Inconclusive("%v", err)
		}
		defer f.Close()
		cmd.Stdout = f
		shown += " with standard output not writable"
	}
	if s.stdin != nil {
		cmd.Stdin = strings.NewReader(s.stdin.text)
		shown += " with a pipe as standard input"
	}
	s.hist = append(s.hist, shown)
	err := cmd.Run()
	if cmd.ProcessState == nil {
		t.Inconclusive("cannot run the program: %v", err)
	}
	if ctx.Err() != nil {
		if cpu := cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime(); cpu > 50*time.Second {
			s.fail("the program does not finish within %v of processor time", cpu)
		}
		t.Inconclusive("the program was stopped after 200 s")
	}
	r := result{cmd.ProcessState.ExitCode(), out.String(), errb.String()}
	t.Note("exit status", strconv.Itoa(r.code))
	t.Note("stdout", r.stdout)
	t.Note("stderr", r.stderr)
	t.Count("runs", 1)
	t.Count(fmt.Sprintf("exit_%d", r.code), 1)
	if all := r.stdout + r.stderr; strings.Contains(all, "%!") {
		in := strings.Join(args, " ")
		for _, f := range s.list {
			in += f.text
		}
		if s.stdin != nil {
			in += s.stdin.text
		}
		if !strings.Contains(in, "%!") {
			s.fail("the output has a badly formed message: %q", cut(all[strings.Index(all, "%!"):]))
		}
	}
	if r.code != 0 && r.code != 1 || strings.Contains(r.stderr, "goroutine 1 [") {
		s.fail("the program crashes: status %d, %v, stderr %q", r.code, err, cut(r.stderr))
	}
	return r
}

// canSetuid says whether commands can be run as another user here.
var setuidState int

func (t *T) canSetuid() bool {
	if setuidState == 0 {
		c := exec.Command("/bin/true")
		c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: true}}
		setuidState = 1
		if c.Run() != nil {
			setuidState = 2
		}
	}
	return setuidState == 1
}

// ---- what the library says

// library parses the text of a file in this process.
func (s *scene) library(f *cfile, opts ...config.Option) {
	if f.kind != "invalid" {
		return
	}
	o := s.t.parse(f.arg, f.text, opts...)
	if o.err == nil {
		s.t.FailText(f.text, "an invalid text is accepted")
	}
	f.err, f.rep, f.hasRep = o.err.Error(), o.report, o.hasRep
}

func (s *scene) formatted(f *cfile) string {
	o := s.t.parse(f.arg, f.text)
	if o.err != nil {
		s.t.FailText(f.text, "a valid text is rejected: %v", o.err)
	}
	return s.t.render(f.text, o.cfg)
}

// ---- reading error output

var errHead = regexp.MustCompile(`^error: (\d+) errors? occurred:\n`)

// items splits the error list.
func (s *scene) items(r result) []string {
	if r.stderr == "" {
		return nil
	}
	m := errHead.FindStringSubmatch(r.stderr)
	if m == nil {
		s.fail("unexpected error output %q", cut(r.stderr))
	}
	rest := "\n" + r.stderr[len(m[0]):]
	parts := strings.Split(rest, "\n\t* ")
	var l []string
	for _, p := range parts[1:] {
		l = append(l, strings.ReplaceAll(strings.TrimRight(p, "\n"), "\n\t  ", "\n"))
	}
	if n, _ := strconv.Atoi(m[1]); n != len(l) || strings.TrimSpace(parts[0]) != "" {
		s.fail("%s errors are announced, %d are listed", m[1], len(l))
	}
	return l
}

// lines splits a message and removes the file name in front of lines.
func lines(msg, name string) []string {
	var l []string
	for _, x := range strings.Split(msg, "\n") {
		for strings.HasPrefix(x, name+": ") {
			x = x[len(name)+2:]
		}
		if strings.TrimSpace(x) != "" {
			l = append(l, x)
		}
	}
	return l
}

// parseItem checks the report of an invalid file.
func (s *scene) parseItem(f *cfile, item string) {
	if !strings.HasPrefix(item, f.arg) {
		s.fail("the error of %q does not start with its name: %q", f.arg, cut(item))
	}
	want := map[string]bool{}
	for _, l := range lines(f.err, f.arg) {
		want[l] = true
	}
	if f.hasRep {
		for _, l := range lines(f.rep, f.arg) {
			want[l] = true
		}
	}
	got := lines(item, f.arg)
	for _, l := range got {
		if !want[l] {
			s.fail("the error of %q contains %q, which is not part of its parse error %q or report %q", f.arg, cut(l), cut(f.err), cut(f.rep))
		}
	}
	for l := range want { // the report may be part of a line of the error
		if !strings.Contains(strings.Join(got, "\n"), l) {
			s.fail("the error of %q lacks %q: %q", f.arg, cut(l), cut(item))
		}
	}
	s.t.Count("invalid_files_reported", 1)
}

// ioItem checks the report of a file that cannot be read or written.
func (s *scene) ioItem(f *cfile, why, item string) {
	if !strings.Contains(item, f.arg) {
		s.fail("the error does not name %q: %q", f.arg, cut(item))
	}
	if !strings.Contains(item, why) {
		s.fail("the error of %q does not say %q: %q", f.arg, why, cut(item))
	}
	rest := strings.ReplaceAll(item, f.arg, "")
	for _, x := range []string{"Parsing error", "->", "no match found", "rule "} {
		if strings.Contains(rest, x) {
			s.fail("the error of %q, which cannot be read or written, reports a syntax error: %q", f.arg, cut(item))
		}
	}
	s.t.Count("unusable_files_reported", 1)
	s.t.Count("fault_"+strings.ReplaceAll(why, " ", "_"), 1)
}

func (s *scene) exit(r result, want int) {
	if r.code != want {
		s.fail("exit status %d, want %d; stderr %q", r.code, want, cut(r.stderr))
	}
}

func (s *scene) key() string {
	var l []string
	for _, f := range s.list {
		l = append(l, f.kind, f.why, f.noWrite, f.text)
	}
	return strings.Join(l, "\x00")
}

func (s *scene) show() string {
	var l []string
	for _, f := range s.list {
		x := f.kind
		if f.why != "" {
			x += " (" + f.why + ")"
		}
		l = append(l, x)
	}
	return strings.Join(l, ", ")
}

// ---- check

func (s *scene) check() {
	for _, f := range s.list {
		s.library(f, config.IgnoreComments(true))
	}
	a, ta := s.snapshot(), s.times()
	r := s.run("check")
	b, tb := s.snapshot(), s.times()
	s.t.Eval()
	items := s.items(r)
	next := func(f *cfile) string {
		if len(items) == 0 {
			s.fail("%q (%s) is not reported", f.arg, f.kind)
		}
		x := items[0]
		items = items[1:]
		return x
	}
	bad := 0
	for _, f := range s.list {
		switch f.kind {
		case "invalid":
			bad++
			s.parseItem(f, next(f))
		case "unreadable":
			bad++
			s.ioItem(f, f.why, next(f))
		}
	}
	if len(items) > 0 {
		s.fail("an error is reported that no file has: %q", cut(items[0]))
	}
	if r.stdout != "" {
		s.fail("the standard output is %q", cut(r.stdout))
	}
	if bad == 0 {
		s.exit(r, 0)
	} else {
		s.exit(r, 1)
	}
	s.untouched(a, b, ta, tb)
}

// ---- format

func (s *scene) format(write bool) {
	args := []string{"format"}
	if write {
		args = append(args, []string{"-w", "--write-to-source"}[s.r.Intn(2)])
	}
	for _, f := range s.list {
		s.library(f)
	}
	a, ta := s.snapshot(), s.times()
	r := s.run(args...)
	b, tb := s.snapshot(), s.times()
	s.t.Eval()
	var out strings.Builder
	now := map[uint64]string{} // expected contents of files rewritten
	var stop *cfile
	why := ""
	failing := uint64(0)
loop:
	for _, f := range s.list {
		switch f.kind {
		case "dir":
		case "unreadable":
			stop, why = f, f.why
			break loop
		case "invalid":
			stop = f
			break loop
		default:
			text := s.formatted(f)
			if !write {
				if text != "" && (s.full || s.closd) {
					stop, why = f, "no space left"
					if s.closd {
						why = "bad file descriptor"
					}
					break loop
				}
				out.WriteString(text)
				continue
			}
			p := s.real(f)
			if text2 := text; f.noWrite == "size" && len(text2) > s.limit*1024 {
				stop, why, failing = f, "file too large", p
				break loop
			}
			if f.noWrite == "permission" {
				stop, why, failing = f, "permission denied", p
				break loop
			}
			now[p] = text
		}
	}
	switch {
	case stop == nil:
		if r.stderr != "" {
			s.fail("error output %q although nothing failed", cut(r.stderr))
		}
		s.exit(r, 0)
	default:
		s.exit(r, 1)
		item, ok := strings.CutPrefix(r.stderr, "error: ")
		if !ok {
			s.fail("unexpected error output %q", cut(r.stderr))
		}
		if stop.kind == "invalid" {
			s.parseItem(stop, item)
		} else {
			s.ioItem(stop, why, item)
		}
		s.t.Count("stopped_runs", 1)
	}
	want := out.String()
	if s.full || s.closd {
		want = ""
	}
	if r.stdout != want {
		s.fail("the standard output is %q, want %q", cut(r.stdout), cut(want))
	}
	if !write {
		s.untouched(a, b, ta, tb)
		return
	}
	s.sameMeta(a, b)
	for p, c := range a.content {
		ino := s.inode(p)
		w, named := now[ino]
		switch {
		case ino == failing:
			if b.content[p] != c {
				s.t.Count("failed_targets_truncated", 1) // see known-findings.txt
			}
			continue
		case !named:
			w = c
			if !ta[p].Equal(tb[p]) {
				s.fail("%q was rewritten", p)
			}
		default:
			s.t.Count("files_formatted", 1)
			if len(w) < len(c) {
				s.t.Count("result_shorter", 1)
			}
			if len(w) > len(c) {
				s.t.Count("result_longer", 1)
			}
		}
		if b.content[p] != w {
			s.fail("%q contains %q, want %q", p, cut(b.content[p]), cut(w))
		}
	}
	// The files now have the new texts.
	for _, f := range s.list {
		if f.kind == "valid" && f.noWrite == "" {
			if w, ok := now[s.real(f)]; ok {
				f.text, f.m = w, ref.Parse(w)
			}
		}
	}
}

// ---- lint

type offender struct {
	entry string
	kind  string
}

// offenders lists what lint has to report for a text.
func offenders(m ref.Result) (noID, notString, dup []string, absent int) {
	seen := map[string]bool{}
	for _, sec := range ref.Group(m.Root).Kids {
		for _, n := range appendPlugins(nil, sec.Kids) {
			e := fmt.Sprintf("%d:%d [%d]: %s", n.Pos.Line, n.Pos.Col, n.Pos.Off, n.Text)
			id, kind := modelID(n)
			switch {
			case kind == "absent":
				absent++
				noID = append(noID, e)
			case kind == "not_a_string":
				noID = append(noID, e)
				notString = append(notString, e)
			case seen[id]:
				dup = append(dup, e)
			}
			if kind == "found" {
				seen[id] = true
			}
		}
	}
	return
}

func (s *scene) lint(fix bool) {
	args := []string{"lint"}
	if fix {
		args = append(args, "--auto-fix-id")
	}
	// A file named several times is fixed at the first time: keep the scene
	// simple.
	if fix {
		seen := map[uint64]bool{}
		var l []*cfile
		for _, f := range s.list {
			if f.kind == "valid" || f.kind == "invalid" {
				if k := s.real(f); seen[k] {
					continue
				} else {
					seen[k] = true
				}
			}
			l = append(l, f)
		}
		s.list = l
	}
	for _, f := range s.list {
		s.library(f, config.ExceptionalCommentsWarning(true))
	}
	a, ta := s.snapshot(), s.times()
	r := s.run(args...)
	b, tb := s.snapshot(), s.times()
	s.t.Eval()
	items := s.items(r)
	total := len(items)
	next := func(what string, f *cfile) string {
		if len(items) == 0 {
			s.fail("%s of %q is not reported", what, f.arg)
		}
		x := items[0]
		items = items[1:]
		return x
	}
	rewritten := map[uint64]*cfile{}
	for _, f := range s.list {
		switch f.kind {
		case "invalid":
			s.parseItem(f, next("the error", f))
		case "unreadable":
			s.ioItem(f, f.why, next("the error", f))
		case "valid":
			for _, off := range f.m.Warn {
				x := next("an exceptional comment", f)
				ok := false
				for _, p := range lineCols(f.text, off) {
					ok = ok || endsWithPos(x, p)
				}
				if !ok || strings.Contains(x, "\n") {
					s.fail("%q: want a line for the exceptional comment at %s, got %q", f.arg, lineCols(f.text, off)[0], cut(x))
				}
				s.t.Count("exceptional_comments_reported", 1)
			}
			no, ns, dup, absent := offenders(f.m)
			if fix {
				no = ns
			}
			for _, l := range []struct {
				word    string
				entries []string
			}{{"no id", no}, {"duplicate", dup}} {
				if len(l.entries) == 0 {
					continue
				}
				x := next("a list of plugins ("+l.word+")", f)
				head, rest, _ := strings.Cut(x, "\n")
				if !strings.HasPrefix(head, f.arg+":") || !strings.Contains(strings.ToLower(head[len(f.arg):]), l.word) {
					s.fail("%q: want a list of plugins (%s), got %q", f.arg, l.word, cut(x))
				}
				if w := strings.Join(l.entries, "\n"); strings.TrimRight(rest, "\n") != w {
					s.fail("%q: the plugins reported (%s) are %q, want %q", f.arg, l.word, cut(rest), cut(w))
				}
				s.t.Count(strings.ReplaceAll("plugins_reported_"+l.word, " ", "_"), len(l.entries))
			}
			if fix && absent > 0 {
				switch {
				case f.noWrite == "permission":
					s.ioItem(f, "permission denied", next("the failure to write", f))
				case f.noWrite == "size":
					s.ioItem(f, "file too large", next("the failure to write", f))
				}
				rewritten[s.real(f)] = f
			}
		}
	}
	if len(items) > 0 {
		s.fail("something is reported that no file has: %q", cut(items[0]))
	}
	if r.stdout != "" {
		s.fail("the standard output is %q", cut(r.stdout))
	}
	if total == 0 {
		s.exit(r, 0)
	} else {
		s.exit(r, 1)
	}
	if !fix {
		s.untouched(a, b, ta, tb)
		return
	}
	s.sameMeta(a, b)
	for p, c := range a.content {
		f := rewritten[s.inode(p)]
		if f == nil {
			if b.content[p] != c || !ta[p].Equal(tb[p]) {
				s.fail("%q lacks no id, but was changed to %q", p, cut(b.content[p]))
			}
			continue
		}
		if f.noWrite != "" {
			if b.content[p] != c {
				s.t.Count("failed_targets_truncated", 1) // see known-findings.txt
			}
			continue
		}
		s.fixed(f, b.content[p])
		f.text, f.m = b.content[p], ref.Parse(b.content[p])
		s.t.Count("files_fixed", 1)
	}
}

// fixed compares a file before and after adding ids.
func (s *scene) fixed(f *cfile, after string) {
	m := ref.Parse(after)
	if !m.OK {
		s.fail("%q is not valid any more: %q", f.arg, cut(after))
	}
	if o := s.t.parse("", after); o.err != nil {
		s.fail("%q is rejected: %v", f.arg, o.err)
	}
	was := ref.DropEmptyElse(ref.Group(f.m.Root))
	is := ref.DropEmptyElse(ref.Group(m.Root))
	pw, pi := appendPluginsOf(was), appendPluginsOf(is)
	if len(pw) != len(pi) {
		s.fail("%q had %d plugins and has %d", f.arg, len(pw), len(pi))
	}
	used := map[string]int{}
	for _, n := range pw {
		if id, kind := modelID(n); kind == "found" {
			used[id]++
		}
	}
	for k, n := range pi {
		_, kind := modelID(pw[k])
		if kind != "absent" {
			continue
		}
		if len(n.Kids) == 0 {
			s.fail("%q: plugin %s did not get an id", f.arg, n.Text)
		}
		last := n.Kids[len(n.Kids)-1]
		only := &ref.Node{Kind: "plugin", Kids: []*ref.Node{last}}
		id, kind := modelID(only)
		if kind != "found" {
			s.fail("%q: plugin %s did not get an id at its end, but %q", f.arg, n.Text, last.Text)
		}
		if len(last.Pre)+len(last.Kids[0].Pre) > 0 {
			s.fail("%q: the id added to plugin %s has comments", f.arg, n.Text)
		}
		if used[id] > 0 {
			s.fail("%q: the id %q added to plugin %s is in use already", f.arg, id, n.Text)
		}
		used[id]++
		n.Kids = n.Kids[:len(n.Kids)-1]
		s.t.Count("ids_added", 1)
	}
	op := ref.Opts{Comments: true}
	if d := ref.Diff(ref.Dump(was, op), ref.Dump(is, op)); d != "" {
		s.fail("%q has changed apart from ids: %s", f.arg, d)
	}
	// Canonical layout: formatting has nothing left to do.
	o := s.t.parse("", after)
	if o.err == nil {
		if again := s.t.render(after, o.cfg); again != after {
			s.fail("%q does not have canonical layout", f.arg)
		}
	}
}

func appendPluginsOf(root *ref.Node) []*ref.Node {
	var l []*ref.Node
	for _, sec := range root.Kids {
		l = appendPlugins(l, sec.Kids)
	}
	return l
}

// ---- the properties

func (s *scene) done() {
	s.t.Distinct(s.key())
	s.t.Count("files", len(s.list))
	if len(s.list) > 2 {
		s.t.Sample("%s on: %s", strings.Join(strings.Fields(s.hist[0])[:2], " "), s.show())
	}
}

func (s *scene) size() int {
	if s.r.Intn(25) == 0 {
		return 0
	}
	if s.r.Intn(40) == 0 {
		return 30
	}
	return 1 + s.r.Intn(6)
}

func c22Case(t *T, i int, r *rand.Rand) {
	s := newScene(t, r)
	if r.Intn(3) == 0 { // valid files only
		for k := s.size(); k > 0; k-- {
			s.addValid()
		}
		if r.Intn(2) == 0 {
			s.addDir()
		}
		t.Count("scenes_all_valid", 1)
	} else {
		s.crowd()
	}
	if r.Intn(10) == 0 {
		s.addStdin()
	}
	s.bystander()
	s.check()
	s.done()
}

// manyPlugins adds a file with many plugins of few names, many of which have
// ids like those given automatically.
func (s *scene) manyPlugins() {
	n := []int{9, 10, 11, 12, 40, 99, 100, 101, 102, 130, 256, 257, 300}[s.r.Intn(13)]
	switch s.r.Intn(6) {
	case 0, 1:
		n = 1 + gen.DictInt(s.r, 500)
	case 2, 3:
		n = 2 + s.r.Intn(8)
	}
	names := []string{"a", "mutate", "`a`", "'a'", "'mutate'", "a-1", "`x.y`", "a-2", "`a-1-1`", "a-1-1", "'a`b'", "`a'b`", "'`'", "`a b`", "'#'"}
	s.r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	names = names[:1+s.r.Intn(len(names))]
	var b strings.Builder
	b.WriteString("filter {\n")
	lack, auto := s.r.Float64(), 0.5+s.r.Float64()
	ifs := 0
	pool := 0 // draw the ids from a few
	if s.r.Intn(3) == 0 {
		pool, lack = 1+s.r.Intn(4), lack/4
	}
	odd := s.r.Float64() * float64(s.r.Intn(2)) // plugins with exceptional comments
	for k := 1; k <= n; k++ {
		name := strings.ReplaceAll(names[s.r.Intn(len(names))], "`", `"`)
		bare := name
		if strings.ContainsAny(name[:1], `"'`) {
			bare = name[1 : len(name)-1]
		}
		if s.r.Intn(30) == 0 {
			b.WriteString("if [x] {\n")
			ifs++
		}
		b.WriteString(name + " {")
		if s.r.Float64() >= lack && k < n {
			id := fmt.Sprintf("%s-%d", bare, s.r.Intn(n+1))
			switch {
			case pool > 0:
				id = fmt.Sprintf("%s-%d", bare, 1+s.r.Intn(pool))
				if s.r.Intn(2) == 0 {
					id = "own"
				}
			case s.r.Float64() > auto:
				id = fmt.Sprintf("own%d", s.r.Intn(2*n))
			case s.r.Intn(2) == 0:
				id = fmt.Sprintf("%s-%d", bare, n-s.r.Intn(1+n/8))
			case s.r.Intn(4) == 0:
				id += "-" + strconv.Itoa(1+s.r.Intn(3))
			}
			q := `"`
			if strings.Contains(id, q) {
				q = "'"
			}
			b.WriteString(" id => " + q + id + q + " ")
		}
		if s.r.Float64() < odd {
			b.WriteString(" k => # odd\n 1 ")
		}
		b.WriteString("}\n")
		if ifs > 0 && s.r.Intn(10) == 0 {
			b.WriteString("}\n")
			ifs--
		}
	}
	b.WriteString(strings.Repeat("}\n", ifs+1))
	f := &cfile{arg: s.name(), kind: "valid", text: b.String()}
	f.m = ref.Parse(f.text)
	if !f.m.OK {
		s.t.Inconclusive("the text %q is not valid", f.text)
	}
	s.write(f.arg, f.text)
	s.list = append(s.list, f)
	s.t.Count("files_with_many_plugins", 1)
}

// crowd fills the scene, sometimes with many files of which most are invalid.
func (s *scene) crowd() {
	if s.r.Intn(100) == 0 {
		k := 12 + s.r.Intn(150)
		if s.r.Intn(3) == 0 {
			k = gen.DictInt(s.r, 300)
		}
		for ; k > 0; k-- {
			if s.r.Intn(8) == 0 {
				s.addUnreadable(s.r.Intn(7))
			} else {
				s.addInvalid()
			}
		}
		s.t.Count("scenes_with_many_invalid_files", 1)
		return
	}
	s.fill(s.size())
}

func (s *scene) mostlyValid() {
	for k := s.size(); k > 0; k-- {
		switch s.r.Intn(6) {
		case 0:
			s.addAlias()
		case 1:
			if s.r.Intn(2) == 0 {
				s.addDir()
			} else {
				s.addValid()
			}
		default:
			s.addValid()
		}
	}
}

func c23Case(t *T, i int, r *rand.Rand) {
	s := newScene(t, r)
	if r.Intn(2) == 0 {
		s.mostlyValid()
	} else {
		s.crowd()
	}
	if r.Intn(10) == 0 {
		s.addStdin()
	}
	s.bystander()
	s.format(false)
	s.done()
}

func c24Case(t *T, i int, r *rand.Rand) {
	s := newScene(t, r)
	if r.Intn(2) == 0 {
		s.mostlyValid()
	} else {
		s.crowd()
	}
	s.bystander()
	s.format(true)
	s.format(true)
	s.done()
}

func c25Case(t *T, i int, r *rand.Rand) {
	s := newScene(t, r)
	if r.Intn(2) == 0 {
		s.mostlyValid()
	} else {
		s.crowd()
	}
	if r.Intn(10) == 0 {
		s.addStdin()
	}
	if r.Intn(12) == 0 {
		s.manyPlugins()
	}
	s.bystander()
	s.lint(false)
	s.done()
}

func c26Case(t *T, i int, r *rand.Rand) {
	s := newScene(t, r)
	if r.Intn(3) > 0 {
		s.mostlyValid()
	} else {
		s.crowd()
	}
	if r.Intn(6) == 0 {
		s.manyPlugins()
	}
	s.bystander()
	s.lint(true)
	s.done()
	// The second run finds nothing left to fix.
	n := t.counts["files_fixed"]
	s.lint(true)
	if t.counts["files_fixed"] != n {
		s.fail("a second run changes a file")
	}
	if r.Intn(3) == 0 {
		s.lint(false)
	}
}

const numFaults = 12

func c27Case(t *T, i int, r *rand.Rand) {
	s := newScene(t, r)
	cmd := i % 5
	fault := i / 5 % numFaults
	before, after := i/(5*numFaults)%4, i/(5*numFaults*4)%4
	if (fault == 7 || fault == 8 || fault == 9) && !t.canSetuid() {
		t.Count("skipped_cannot_change_user", 1)
		fault = 0
	}
	s.user = fault >= 7 && fault <= 9
	if fault == 11 {
		s.full = r.Intn(2) == 0
		s.closd = !s.full
	}
	other := func(n int) {
		for ; n > 0; n-- {
			switch k := r.Intn(8); {
			case k < 5:
				s.addValid()
			case k < 7 && cmd != 3 && cmd != 4 || k == 7 && r.Intn(3) == 0:
				s.addInvalid()
			default:
				s.addValid()
			}
		}
	}
	if fault == 10 {
		s.limit = 32
	}
	other(before)
	switch {
	case fault < 9:
		s.addUnreadable(fault)
	case fault == 9: // can be read, not written
		f := s.addValid()
		os.Chmod(s.path(f.arg), 0o444)
		f.noWrite = "permission"
	case fault == 10:
		f := &cfile{arg: s.name(), kind: "valid", noWrite: "size"}
		f.text, f.m = s.validText(40000)
		s.write(f.arg, f.text)
		s.list = append(s.list, f)
	case fault == 11:
		s.addValid()
	}
	other(after)
	s.bystander()
	t.Count(fmt.Sprintf("fault_kind_%02d", fault), 1)
	switch cmd {
	case 0:
		s.check()
	case 1:
		s.lint(false)
	case 2:
		s.lint(true)
	case 3:
		s.format(false)
	case 4:
		s.format(true)
	}
	s.done()
}

func init() {
	knownCases["failed-rewrite-truncates"] = func(t *T) string {
		s := newScene(t, rand.New(rand.NewSource(1)))
		text := strings.Repeat("input { plugin { id => 1 } }\n", 1500)
		s.list = []*cfile{{arg: "big.conf", kind: "valid", text: text, m: ref.Parse(text)}}
		s.write("big.conf", text)
		s.limit = 4
		s.run("format", "-w")
		if b, _ := os.ReadFile(s.path("big.conf")); string(b) != text {
			return "content lost"
		}
		return ""
	}
	asm := []string{"the expected texts and errors come from the library in this process; their correctness is decided by the other properties", "which texts are valid, and which plugins and ids they hold, comes from the reference model"}
	register(&Monitor{ID: "C22", Quick: 8000, Thorough: 80000, Case: c22Case, Assume: asm,
		Need: []string{"large_files", "scenes_all_valid", "invalid_files_reported", "unusable_files_reported", "exit_0", "exit_1"},
		Rule: "runs of the program on generated directories, with file system snapshots around each; distinct: lists of file kinds and contents"})
	register(&Monitor{ID: "C23", Quick: 8000, Thorough: 80000, Case: c23Case, Assume: asm,
		Need: []string{"large_files", "stopped_runs", "invalid_files_reported", "exit_0", "exit_1"},
		Rule: "runs of the program on generated directories, with file system snapshots around each; distinct: lists of file kinds and contents"})
	register(&Monitor{ID: "C24", Quick: 5000, Thorough: 60000, Case: c24Case, Assume: asm,
		Need: []string{"large_files", "files_formatted", "result_shorter", "result_longer", "stopped_runs", "exit_0", "exit_1"},
		Rule: "two runs of the program on generated directories, with file system snapshots around each; distinct: lists of file kinds and contents"})
	register(&Monitor{ID: "C25", Quick: 8000, Thorough: 80000, Case: c25Case, Assume: asm,
		Need: []string{"large_files", "files_with_many_plugins", "plugins_reported_no_id", "plugins_reported_duplicate", "exceptional_comments_reported", "invalid_files_reported", "unusable_files_reported", "exit_0", "exit_1"},
		Rule: "runs of the program on generated directories, with file system snapshots around each; distinct: lists of file kinds and contents"})
	register(&Monitor{ID: "C26", Quick: 4000, Thorough: 60000, Case: c26Case, Assume: asm,
		Need: []string{"large_files", "files_with_many_plugins", "files_fixed", "ids_added", "plugins_reported_no_id", "plugins_reported_duplicate", "exit_0", "exit_1"},
		Rule: "two or three runs of the program on generated directories, with file system snapshots around each; distinct: lists of file kinds and contents"})
	register(&Monitor{ID: "C27", Quick: 5 * numFaults * 16 * 3, Thorough: 5 * numFaults * 16 * 80, Case: c27Case, Assume: append(asm, "permission faults need a second user id; they are left out (and counted) where the sandbox does not allow it"),
		Need:       []string{"unusable_files_reported", "invalid_files_reported", "stopped_runs", "fault_no_such_file", "fault_file_too_large", "fault_no_space_left", "fault_no_such_device_or_address"},
		Rule:       "runs of the program with one injected fault; distinct: lists of file kinds, faults and contents",
		Exhaustive: "5 ways of calling the program, 12 faults, 0 to 3 files before and after the failing one"})
}
