package remote

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"finchverif/fakedb"
	"finchverif/report"
	"finchverif/simnet"
	"finchverif/vsched"
)

// contents of trx files: each statement says which file it is from. The id is put in
// place of @.
func fileContent(kind int, id string) string {
	st := func(n int) string { return fmt.Sprintf("SELECT '%s' FROM t%d", id, n) }
	switch kind {
	case 0: // one line
		return st(1) + "\n"
	case 1: // no newline at the end
		return st(1) + "\n\n" + st(2)
	case 2: // a bit of everything
		return "-- prepare\n" + st(1) + "\n  WHERE a = 'x%20y &amp; \"é\" \\\\ + 100%'\n\n" + st(2) + "\n\n\n" + st(3) + "\n"
	case 3: // larger than buffers
		s := ""
		for i := 0; i < 40; i++ {
			s += st(i) + "\n"
			for j := 0; j < 30; j++ {
				s += fmt.Sprintf("  , (%d, '%s')\n", j, strings.Repeat(string(rune('a'+j%26)), 70))
			}
			s += "\n"
		}
		return s
	case 4: // DOS line ends are kept
		return st(1) + "\r\n\r\n" + st(2) + "\r\n"
	}
	s := "" // many statements
	for i := 0; i < 12; i++ {
		s += st(i) + "\n\n"
	}
	return s
}

// fileSpec: files of a stage by position (path, kind of content)
type fileSpec struct {
	path string
	kind int
}

func withFiles(s spec, fs []fileSpec) spec {
	s.files = map[string]string{}
	s.order = nil
	s.names = nil
	for i, f := range fs {
		if _, ok := s.files[f.path]; !ok {
			s.files[f.path] = fileContent(f.kind, fmt.Sprintf("file %d", i))
		}
		s.order = append(s.order, f.path)
		s.names = append(s.names, fmt.Sprintf("trx%d", i))
	}
	return s
}

// sent: statements of trx files that instances executed, in order.
// expectedSQL is the list of statements of the files.
func (s spec) expectedSQL() []string {
	var l []string
	for _, f := range s.order {
		var cur []string
		flush := func() {
			if len(cur) > 0 {
				l = append(l, strings.Join(cur, " "))
			}
			cur = nil
		}
		for _, line := range strings.Split(s.files[f], "\n") {
			line = strings.TrimSpace(line)
			if line == "" {
				flush()
			} else if !strings.HasPrefix(line, "-- ") { // not a modifier {
				cur = append(cur, line)
			}
		}
		flush()
	}
	return l
}

func norm(s string) string { return strings.Join(strings.Fields(s), " ") }

// sameFiles: instances executed the server's files.
func (w *world) sameFiles() string {
	want := w.expectedSQL()
	for who, l := range w.sent() {
		if who == "server" && w.noLocal {
			return "executed on the server"
		}
		for i, q := range l {
			if x := norm(want[i%len(want)]); norm(q) != x {
				return fmt.Sprintf("%s executed\n%.300s\nexpected statement %d\n%.300s", who, q, i+1, x)
			}
		}
		if len(l)%len(want) != 0 && !w.dead[who] {
			return fmt.Sprintf("%s executed %d statements, the files have %d", who, len(l), len(want))
		}
	}
	// copies are removed
	for _, e := range w.log {
		if tag := e.who; e.kind == "exit" {
			if l, _ := os.ReadDir(filepath.Join(w.dir, tag, "tmp")); len(l) > 0 {
				return fmt.Sprintf("%s is done and leaves %d temporary files", tag, len(l))
			}
		}
	}
	// the server's files
	for p, c := range w.trxFiles() {
		b, err := os.ReadFile(filepath.Join(w.dir, "server", p))
		if w.gone[p] {
			continue
		}
		if err != nil || string(b) != c {
			return fmt.Sprintf("the server's file %s was changed (%v)", p, err)
		}
	}
	return ""
}

// ran: all instances executed all files.
func (w *world) ran() string {
	if w.hung {
		return "the server did not return"
	}
	if w.serverErr != nil {
		return fmt.Sprintf("server returned error %v", w.serverErr)
	}
	want := w.stages * w.iters * len(w.expectedSQL())
	n := map[string]int{}
	for who, l := range w.sent() {
		n[name(who)] += len(l)
	}
	inst := 0
	for _, k := range n {
		if k != want {
			return fmt.Sprintf("%d statements were executed, expected %d", k, want)
		}
		inst++
	}
	if inst != w.n {
		return fmt.Sprintf("run by %d instances, expected %d", inst, w.n)
	}
	return ""
}

func filesAndRan(w *world) string {
	if b := w.sameFiles(); b != "" {
		return b
	}
	return w.ran()
}

var transferFaults = []simnet.Fault{
	{},
	{Name: "request lost", NoServe: true, Err: true},
	{Name: "no answer", NoServe: true, Hang: true},
	{Name: "response lost", Err: true},
	{Name: "half of the body, reset", Cut: true},
	{Name: "half of the body, then nothing", Stall: true},
	{Name: "status 500", NoServe: true, Status: 500, Body: []byte("error 1")},
	{Name: "status 502 by a proxy", NoServe: true, Status: 502, Body: []byte("SELECT 'bad gateway'\n")},
	{Name: "delayed beyond the timeout", Late: -1},
}

func TestC21(t *testing.T) {
	one := spec{n: 2, stages: 1, iters: 1, delay: 10 * ms}
	only := spec{n: 1, noLocal: true, stages: 1, iters: 1, delay: 10 * ms}
	two := spec{n: 3, stages: 1, iters: 1, delay: 10 * ms}
	twice := spec{n: 2, stages: 2, iters: 2, delay: 10 * ms}
	nkinds := 6
	paths := [][]string{
		{"trx/a.sql", "trx/b.sql", "trx/c.sql"},
		{"a/trx.sql", "b/trx.sql", "c/trx.sql"},    // same base names
		{"trx.sql", "trx/trx.sql", "trx/trx.sql2"}, // and one in the directory of the stage
		{"dir one/é & ü.sql", "x%20y=1?.sql", "0"},
		{"a.sql", "a.sql", "b/a.sql"}, // a file used twice
		{"0-a.sql", "a.sql", "1-a.sql"},
		{"a.sql", "b/a.sql", "1-a.sql"},
	}
	us := []report.Unit{}
	for pi, ps := range paths {
		ps := ps
		us = append(us, report.Unit{Name: fmt.Sprintf("files %d", pi), Run: func(c *report.Ctx) {
			for _, s := range []spec{one, only, two, twice} {
				for n := 1; n <= 3; n++ {
					if n == 3 && s.n != 2 && !c.Thorough() {
						continue
					}
					kinds := make([]int, n)
					for {
						var fs []fileSpec
						for i := range kinds {
							fs = append(fs, fileSpec{ps[i], kinds[i]})
						}
						x := withFiles(s, fs)
						if !explore(c, x, vsched.Opts{Name: fmt.Sprint("files ", fs)}, nil, 2*time.Minute, nil, filesAndRan) || c.TimeUp() {
							return
						}
						i := 0
						for i < n {
							kinds[i]++
							if kinds[i] < nkinds {
								break
							}
							kinds[i] = 0
							i++
						}
						if i == n {
							break
						}
					}
					if s.stages > 1 && n == 2 && !c.Thorough() {
						break
					}
				}
			}
		}})
	}
	fetch := func(a *simnet.Attempt) bool { return a.Path == "/file" }
	for _, fs := range [][]fileSpec{
		{{"a/trx.sql", 3}, {"b/trx.sql", 1}},
		{{"a.sql", 1}, {"b.sql", 5}},
		{{"a.sql", 0}},
	} {
		fs := fs
		for _, s := range []spec{one, two, twice} {
			s := withFiles(s, fs)
			us = append(us,
				report.Unit{Name: fmt.Sprintf("faults: %s %v", s, fs), Run: func(c *report.Ctx) {
					explore(c, s, vsched.Opts{Name: "faults in a transfer"}, withKinds(c.Pick(2, 3), transferFaults, fetch), 5*time.Minute, nil, filesAndRan)
				}},
				report.Unit{Name: fmt.Sprintf("files removed: %s %v", s, fs), Run: func(c *report.Ctx) {
					// a file of the server disappears, or cannot be read, from a request on
					explore(c, s, vsched.Opts{Name: "file removed"}, func(w *world) {
						w.gone = map[string]bool{}
						w.plan = func(a *simnet.Attempt) simnet.Fault {
							if a.Path == "/file" && len(w.gone) == 0 {
								if k := vsched.Choose(1 + len(w.order)); k > 0 {
									p := filepath.Join("/work", w.order[k-1])
									w.gone[p] = true
									os.Remove(filepath.Join(w.dir, "server", p))
								}
							}
							return simnet.Fault{}
						}
					}, 1*time.Minute, nil, func(w *world) string {
						if b := w.sameFiles(); b != "" {
							return b
						}
						if len(w.gone) == 0 {
							return w.ran()
						}
						return ""
					})
				}},
				report.Unit{Name: fmt.Sprintf("schedules: %s %v", s, fs), Run: func(c *report.Ctx) {
					s := s
					if !c.Thorough() && s.stages > 1 {
						return
					}
					explore(c, s, vsched.Opts{Name: "schedules", Bound: 1, SiteCap: 1}, nil, 2*time.Minute, nil, filesAndRan)
				}},
			)
		}
	}
	us = append(us, report.Unit{Name: "sizes", Run: func(c *report.Ctx) {
		for n := 4; n <= c.Pick(24, 110); n++ {
			var same, base, dup []fileSpec
			for i := 0; i < n; i++ {
				same = append(same, fileSpec{fmt.Sprintf("f%d.sql", i), i % 6})
				base = append(base, fileSpec{fmt.Sprintf("d%d/trx.sql", i), (i + n) % 6})
				dup = append(dup, fileSpec{fmt.Sprintf("d/f%d.sql", i%3), i % 3})
			}
			for i, fs := range [][]fileSpec{same, base, dup} {
				s := []spec{one, two, twice}[(n+i)%3]
				if !explore(c, withFiles(s, fs), vsched.Opts{Name: fmt.Sprint("files ", len(fs))}, nil, 5*time.Minute, nil, filesAndRan) || c.TimeUp() {
					return
				}
			}
		}
	}})
	report.Main(t, report.Check{
		ID:          "C21",
		Level:       "fault_enumeration",
		Rule:        "evaluation = one set of files, one choice of transfer faults, or one interleaving of a cluster of the real server and real clients; distinct = by history of observed events",
		Assumptions: assumptions,
		Units:       us,
	})
}

var _ = fakedb.Answer{}
