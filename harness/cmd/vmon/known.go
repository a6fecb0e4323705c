package main

import (
	"bufio"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// known is an entry of known-findings.txt:
//
//	known: property=C07 input="..." what fails
//	known: property=C24 case=name what fails
//	fixed: property=C07 <commit> what failed
//
// A known entry covers exactly its input (a Go quoted string) or its named
// case; fixed entries cover nothing.
type known struct {
	input  string
	isText bool
	name   string
	what   string
	line   string
}

func readKnown(verif, prop string) []known {
	f, err := os.Open(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := sc.Text()
		rest, ok := strings.CutPrefix(l, "known: property="+prop+" ")
		if !ok {
			continue
		}
		k := known{line: l}
		if r, ok := strings.CutPrefix(rest, "input="); ok {
			q, err := strconv.QuotedPrefix(r)
			if err != nil {
				continue
			}
			k.input, _ = strconv.Unquote(q)
			k.isText = true
			k.what = strings.TrimSpace(r[len(q):])
		} else if r, ok := strings.CutPrefix(rest, "case="); ok {
			k.name, k.what, _ = strings.Cut(r, " ")
		} else {
			continue
		}
		out = append(out, k)
	}
	return out
}

func (t *T) isKnown(v *violation) *known {
	for i := range t.known {
		k := &t.known[i]
		if k.isText && v.isText && k.input == v.input {
			return k
		}
	}
	return nil
}

// KnownCase says whether a named case is listed.
func (t *T) KnownCase(name string) bool {
	for _, k := range t.known {
		if k.name == name {
			return true
		}
	}
	return false
}

// knownCases are the named cases: each returns a description of the failure it
// still observes, or "".
var knownCases = map[string]func(t *T) string{}

// strict runs a text monitor without the exclusions that stem from a listed
// finding.
var strict bool

// runKnown runs the listed findings and returns the lines of those that still
// fail.
func (t *T) runKnown() []string {
	var out []string
	for _, k := range t.known {
		fails := ""
		if k.isText && t.Mon.Text != nil {
			strict, t.quiet = true, true
			if v, _ := t.run(func() { t.Mon.Text(t, k.input) }); v != nil {
				fails = "input=" + strconv.Quote(k.input)
			}
			strict, t.quiet = false, false
		} else if f := knownCases[k.name]; f != nil {
			if s := f(t); s != "" {
				fails = "case=" + k.name
			}
		}
		if fails != "" {
			out = append(out, fails+" "+k.what)
		}
	}
	return out
}
