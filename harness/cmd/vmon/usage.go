package main

import (
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"verif/harness/gen"
)

// ---- C31: commands, flags, help and settings files

// settings writes a settings file which the program finds.
func (s *scene) settings(broken bool) string {
	name, text := "mustache.yaml", []string{"auto-fix-id: true\nwrite-to-source: true\n", "", "check: {}\n"}[s.r.Intn(3)]
	switch s.r.Intn(4) {
	case 0:
		name, text = "mustache.json", `{"auto-fix-id": true, "write-to-source": true, "format": {"w": true}}`
	case 1:
		name, text = "mustache.toml", "auto-fix-id = true\nwrite-to-source = true\n[lint]\nauto-fix-id = true\n"
	}
	if s.r.Intn(2) == 0 { // entries with names that the program mentions
		name, text = "mustache.yaml", ""
		for _, w := range []string{"auto-fix-id", "write-to-source"} {
			if s.r.Intn(2) == 0 {
				text += w + ": true\n"
			}
		}
		seen := map[string]bool{}
		for k := s.r.Intn(12); k > 0; k-- {
			w := strings.ToLower(gen.DictWord(s.r))
			if s.r.Intn(4) == 0 {
				w += []string{"-", "_", "."}[s.r.Intn(3)] + strings.ToLower(gen.DictWord(s.r))
			}
			if !seen[w] {
				seen[w] = true
				text += strconv.Quote(w) + ": " + []string{"true", "true", "1", "x", "[a, b]"}[s.r.Intn(5)] + "\n"
			}
		}
	}
	if broken {
		text = "{[ " + text
	}
	dir := s.dir
	if s.r.Intn(2) == 0 {
		dir = filepath.Join(s.home(), "mustache")
		os.MkdirAll(dir, 0o755)
	}
	p := filepath.Join(dir, name)
	if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
		s.t.Inconclusive("%v", err)
	}
	return p
}

// stray writes broken settings to places where the program has not to look.
func (s *scene) stray() {
	for k := 1 + s.r.Intn(3); k > 0; k-- {
		dir := []string{s.home(), filepath.Join(s.home(), ".config", "mustache"), filepath.Join(s.home(), "other"), filepath.Join(s.dir, "sub dir"), filepath.Join(s.dir, "mustache"), filepath.Join(s.dir, "config"), s.t.Dir}[s.r.Intn(7)]
		name := []string{"mustache.yaml", "mustache.yml", "mustache.json", "mustache.toml"}[s.r.Intn(4)]
		if s.r.Intn(6) == 0 {
			dir, name = s.dir, []string{".mustache.yaml", "config.yaml", "mustache.conf.yaml", "mustache.yaml.bak", "mustaches.json"}[s.r.Intn(5)]
		}
		os.MkdirAll(dir, 0o755)
		p := filepath.Join(dir, name)
		if err := os.WriteFile(p, []byte("{[ broken"), 0o644); err != nil {
			s.t.Inconclusive("%v", err)
		}
		s.strays = append(s.strays, p)
		s.t.Note("stray settings file", p)
	}
	s.t.Count("stray_settings", 1)
}

func c31Case(t *T, i int, r *rand.Rand) {
	s := newScene(t, r)
	s.free = true
	os.RemoveAll(s.home())
	defer os.RemoveAll(s.home())
	if r.Intn(3) > 0 {
		s.mostlyValid()
	} else {
		s.fill(s.size())
	}
	s.bystander()
	if r.Intn(4) == 0 {
		s.stray()
		defer func() {
			for _, p := range s.strays {
				os.Remove(p)
			}
		}()
	}
	valid := ""
	if r.Intn(3) == 0 {
		valid = s.settings(false)
		t.Note("settings file", valid)
		t.Count("settings_files", 1)
	}
	if r.Intn(2) == 0 {
		t.Count("flag_layouts", 1)
		switch r.Intn(5) {
		case 0:
			s.check()
		case 1:
			s.hasWrite = true
			s.format(false)
		case 2:
			s.hasWrite = true
			s.format(true)
		case 3:
			s.hasFix = true
			s.lint(false)
		default:
			s.hasFix = true
			s.lint(true)
		}
		s.done()
		return
	}
	cmds := []string{"check", "format", "lint"}
	cmd := cmds[r.Intn(3)]
	pick := func(l ...string) string { return l[r.Intn(len(l))] }
	// What is wrong, and what the error has to name.
	var pre, flags []string
	named, help := "", ""
	switch k := r.Intn(10); k {
	case 0, 1: // unknown command
		cmd = pick("chek", "Check", "FORMAT", "fmt", "linter", "validate", "format -w", "check.conf", "é")
		if r.Intn(2) == 0 {
			// Something like a command, such as the start of its name.
			c := pick("check", "format", "lint", "help", "completion")
			n := c[:1+r.Intn(len(c)-1)]
			if r.Intn(2) == 0 {
				n = gen.Near(r, c)
			}
			if n != c && n != "" && n[0] != '-' && !strings.Contains(n, "\x00") {
				cmd = n
			}
		}
		named = cmd
		t.Count("unknown_commands", 1)
	case 2, 3: // unknown flag
		flags = []string{pick("--wirte", "--write", "-x", "--auto-fix", "--auto-fix-id-all", "--fix", "-q", "--version=1", "--stdin", "--Help", "-W", "-H", "-f", "-i")}
		if r.Intn(2) == 0 {
			f := pick("auto-fix-id", "write-to-source", "help")
			n := f[:1+r.Intn(len(f)-1)]
			if r.Intn(2) == 0 {
				n = gen.Near(r, f)
			}
			if n != f && n != "" && !strings.ContainsAny(n[:1], "-=") && !strings.Contains(n, "\x00") {
				flags[0] = "--" + n
			}
		}
		named = strings.TrimLeft(strings.SplitN(flags[0], "=", 2)[0], "-")
		t.Count("unknown_flags", 1)
	case 4: // a flag of another command
		switch cmd {
		case "check":
			flags = []string{pick("-w", "--write-to-source", "--auto-fix-id")}
		case "lint":
			flags = []string{pick("-w", "--write-to-source")}
		default:
			flags = []string{"--auto-fix-id"}
		}
		named = strings.TrimLeft(flags[0], "-")
		t.Count("foreign_flags", 1)
	case 5: // an impossible value
		cmd = pick("format", "lint")
		v := pick("maybe", "2", "yes", "on", "")
		if cmd == "format" {
			flags = []string{pick("-w=", "--write-to-source=") + v}
		} else {
			flags = []string{"--auto-fix-id=" + v}
		}
		named = strings.TrimLeft(strings.SplitN(flags[0], "=", 2)[0], "-")
		t.Count("impossible_values", 1)
	case 6:
		if valid != "" { // only one is read
			os.Remove(valid)
		}
		p := s.settings(true)
		t.Note("broken settings file", p)
		named = "config"
		switch {
		case cmd == "format" && r.Intn(2) == 0:
			flags = []string{"-w"}
		case cmd == "lint" && r.Intn(2) == 0:
			flags = []string{"--auto-fix-id"}
		}
		t.Count("broken_settings", 1)
	case 7: // help for a command
		flags = []string{pick("-h", "--help")}
		switch cmd {
		case "format":
			if r.Intn(2) == 0 {
				flags = append(flags, "-w")
			}
			help = "--write-to-source"
		case "lint":
			if r.Intn(2) == 0 {
				flags = append(flags, "--auto-fix-id")
			}
			help = "--auto-fix-id"
		default:
			help = "mustache check"
		}
		t.Count("help", 1)
	case 8:
		pre = [][]string{{"help", cmd}, {"--help"}, {"-h"}, {"help"}, {}}[r.Intn(5)]
		help = cmd
		cmd = ""
		t.Count("help", 1)
	default:
		pre = [][]string{{"--version"}, {"-v"}}[r.Intn(2)]
		help, cmd = "version", ""
		t.Count("version", 1)
	}
	var args []string
	if cmd == "" {
		args = pre
	} else {
		files := []string{}
		for _, f := range s.list {
			f := f.arg
			if strings.HasPrefix(f, "-") {
				f = "./" + f
			}
			files = append(files, f)
		}
		args = append(append([]string{cmd}, flags...), files...)
		for k := range flags { // among the files
			j := 1 + k + r.Intn(len(args)-1-k)
			if j > 1+k && r.Intn(2) == 0 {
				f := args[1+k]
				copy(args[1+k:], args[2+k:j+1])
				args[j] = f
				break
			}
		}
	}
	a, ta := s.snapshot(), s.times()
	res := s.exec(args...)
	b, tb := s.snapshot(), s.times()
	t.Eval()
	s.untouched(a, b, ta, tb)
	if named != "" {
		if res.code != 1 {
			s.fail("exit status %d", res.code)
		}
		if res.stdout != "" {
			s.fail("the standard output is %q", cut(res.stdout))
		}
		if q := strconv.Quote(named); !strings.Contains(res.stderr, named) && !strings.Contains(res.stderr, q[1:len(q)-1]) {
			s.fail("the error does not mention %q: %q", named, cut(res.stderr))
		}
	} else {
		if res.code != 0 {
			s.fail("exit status %d", res.code)
		}
		if !strings.Contains(res.stdout, help) {
			s.fail("the output does not mention %q: %q", help, cut(res.stdout))
		}
		if res.stderr != "" {
			s.fail("the error output is %q", cut(res.stderr))
		}
	}
	s.done()
}

func init() {
	register(&Monitor{ID: "C31", Quick: 5000, Thorough: 60000, Case: c31Case,
		Need: []string{"flag_layouts", "settings_files", "stray_settings", "unknown_commands", "unknown_flags", "foreign_flags", "impossible_values", "broken_settings", "help", "version", "exit_0", "exit_1"},
		Rule: "runs of the program with flags in any place and spelling, and with mistakes, on generated directories, with file system snapshots around each; distinct: lists of file kinds and contents"})
}
