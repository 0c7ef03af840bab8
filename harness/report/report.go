// Package report runs the units of a check (in parallel worker processes),
// confirms violations, and writes the evidence file.
package report

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"finchverif/vsched"
)

// Unit is one independent part of a check; it runs in its own process.
type Unit struct {
	Name string
	// Thorough units run only with VERIF_TIER=thorough.
	Thorough bool
	Run      func(c *Ctx)
}

// Check decides one property.
type Check struct {
	ID          string
	Level       string // model_checking, exploration, fault_enumeration
	Rule        string
	Assumptions []string
	Units       []Unit
}

// Violation of the property, by key (what fails) and message.
type Violation struct {
	Key    string      `json:"key"`
	Msg    string      `json:"msg"`
	Replay interface{} `json:"replay,omitempty"`
	Unit   string      `json:"unit"`
}

// Result of one unit.
type Result struct {
	Unit       string
	Evals      int
	Nontrivial int
	States     int
	Trans      int
	Traces     int
	Exhaustive bool
	Explored   []map[string]interface{} `json:",omitempty"`
	Samples    []interface{}
	Violations []Violation
	Notes      []string
}

// Ctx is what a unit works with.
type Ctx struct {
	T        *testing.T
	Tier     string
	Seed     int64
	Deadline time.Time
	res      *Result
	seen     map[string]bool
	vkeys    map[string]bool
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q on the quick tier, t on the thorough one.
func (c *Ctx) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

func (c *Ctx) TimeUp() bool {
	if time.Now().After(c.Deadline) {
		if c.res.Exhaustive {
			c.res.Exhaustive = false
			c.Note("time budget reached in unit %s", c.res.Unit)
		}
		return true
	}
	return false
}

func (c *Ctx) Note(f string, v ...interface{}) {
	c.res.Notes = append(c.res.Notes, fmt.Sprintf(f, v...))
}

var beat atomic.Uint64

// Case counts one evaluated case; key identifies the distinct behaviour it
// exercised ("" = trivial).
func (c *Ctx) Case(key string) {
	beat.Add(1)
	c.res.Evals++
	if key == "" {
		return
	}
	h := vsched.Hash(key)
	if !c.seen[h] {
		c.seen[h] = true
		c.res.Nontrivial++
		if len(c.res.Samples) < 3 {
			if len(key) > 600 {
				key = key[:600]
			}
			c.res.Samples = append(c.res.Samples, key)
		}
	}
}

// State counts explored states/transitions of an explicit-state search.
func (c *Ctx) State(states, trans, traces int) {
	beat.Add(1)
	c.res.States += states
	c.res.Trans += trans
	c.res.Traces += traces
}

// Violate reports a violation; key identifies what fails.
func (c *Ctx) Violate(key, msg string, replay interface{}) {
	if c.vkeys[key] {
		return
	}
	c.vkeys[key] = true
	c.res.Violations = append(c.res.Violations, Violation{Key: key, Msg: msg, Replay: replay, Unit: c.res.Unit})
}

func (c *Ctx) Violated() bool { return len(c.res.Violations) > 0 }

// Explore explores scenario s within its bounds and records the result.
func (c *Ctx) Explore(s *vsched.Scenario) {
	if s.Deadline.IsZero() {
		s.Deadline = c.Deadline
	}
	st, f := vsched.Explore(c.T, s)
	c.res.Evals += st.Executions
	c.res.States += st.States
	c.res.Trans += st.Transitions
	c.res.Traces += st.Executions
	for o := range st.Outcomes {
		if !c.seen[o] {
			c.seen[o] = true
			c.res.Nontrivial++
		}
	}
	if !st.Exhaustive {
		c.res.Exhaustive = false
	}
	if st.Sample != nil && len(c.res.Samples) < 3 {
		c.res.Samples = append(c.res.Samples, st.Sample)
	}
	c.res.Explored = append(c.res.Explored, map[string]interface{}{
		"scenario": st.Name, "executions": st.Executions, "transitions": st.Transitions, "tree_nodes": st.States,
		"deviation_bound_completed": st.Bound, "deviation_bound_asked": st.BoundAsked,
		"executions_per_bound": st.PerBound, "distinct_outcomes": len(st.Outcomes), "max_steps": st.MaxSteps,
		"exhaustive_within_bound": st.Exhaustive, "wall_s": st.Wall.Seconds(),
	})
	if f != nil {
		key := f.Msg
		if i := strings.IndexByte(key, '\n'); i > 0 {
			key = key[:i]
		}
		c.Violate(s.Name+": "+key, f.Msg, map[string]interface{}{"scenario": f.Scenario, "choices": f.Choices, "trace": f.Trace})
	}
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Main runs the check: as parent, every unit in a worker process.
func Main(t *testing.T, ck Check) {
	if w := os.Getenv("VERIF_UNIT"); w != "" {
		worker(t, ck, w)
		return
	}
	parent(t, ck)
}

func budget() time.Duration {
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			return time.Duration(n) * time.Second
		}
	}
	if env("VERIF_TIER", "quick") == "thorough" {
		return 40 * time.Minute
	}
	return 240 * time.Second
}

func worker(t *testing.T, ck Check, name string) {
	if os.Getenv("VERIF_LOG") == "" {
		log.SetOutput(io.Discard)
		if f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
			os.Stdout = f
		}
	}
	seed, _ := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	end, _ := strconv.ParseInt(os.Getenv("VERIF_DEADLINE"), 10, 64)
	res := &Result{Unit: name, Exhaustive: true}
	c := &Ctx{T: t, Tier: env("VERIF_TIER", "quick"), Seed: seed, Deadline: time.Unix(end, 0), res: res, seen: map[string]bool{}, vkeys: map[string]bool{}}
	if end == 0 {
		c.Deadline = time.Now().Add(budget())
	}
	go watchdog()
	for _, u := range ck.Units {
		if u.Name == name {
			u.Run(c)
			b, err := json.Marshal(res)
			if err != nil {
				t.Fatal(err)
			}
			if err := os.WriteFile(os.Getenv("VERIF_OUT"), b, 0644); err != nil {
				t.Fatal(err)
			}
			return
		}
	}
	t.Fatalf("no unit %s", name)
}

const hangAfter = 60 * time.Second

// watchdog ends the process when nothing was explored for a long time: the code
// under test spins or blocks outside the scheduler's reach.
func watchdog() {
	last, since := uint64(0), time.Now()
	for {
		time.Sleep(time.Second)
		n := beat.Load() + vsched.Progress()
		if n != last {
			last, since = n, time.Now()
			continue
		}
		if time.Since(since) > hangAfter {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "VERIF-HANG\n%s\n", buf)
			os.Exit(97)
		}
	}
}

type proc struct {
	res  *Result
	code int
	out  string
}

func runUnit(ck Check, u string, tmp string, n int, deadline time.Time) proc {
	out := filepath.Join(tmp, fmt.Sprintf("u%d.json", n))
	os.Remove(out)
	args := []string{"-test.run", "^" + "Test" + ck.ID + "$", "-test.timeout", "0", "-test.count", "1"}
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = append(os.Environ(), "VERIF_UNIT="+u, "VERIF_OUT="+out, fmt.Sprintf("VERIF_DEADLINE=%d", deadline.Unix()), "GOTRACEBACK=all")
	dir := filepath.Join(tmp, fmt.Sprintf("w%d", n))
	os.MkdirAll(dir, 0755)
	cmd.Dir = dir
	cmd.Env = append(cmd.Env, "TMPDIR="+dir)
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	err := cmd.Run()
	p := proc{out: buf.String()}
	if cmd.ProcessState != nil {
		p.code = cmd.ProcessState.ExitCode()
	}
	b, rerr := os.ReadFile(out)
	if rerr == nil {
		r := &Result{}
		if json.Unmarshal(b, r) == nil {
			p.res = r
		}
	}
	if err != nil && p.res == nil && p.code == 0 {
		p.code = 98
	}
	return p
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func parent(t *testing.T, ck Check) {
	start := time.Now()
	tier := env("VERIF_TIER", "quick")
	seed, _ := strconv.Atoi(env("VERIF_SEED", "1"))
	root := env("VERIF_ROOT", "/verif")
	tmp, err := os.MkdirTemp("", "verif-"+ck.ID+"-")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(tmp)
	var units []string
	only := os.Getenv("VERIF_ONLY")
	for _, u := range ck.Units {
		if u.Thorough && tier != "thorough" {
			continue
		}
		if only != "" && !strings.Contains(u.Name, only) {
			continue
		}
		units = append(units, u.Name)
	}
	par := runtime.NumCPU()
	if par > len(units) {
		par = len(units)
	}
	total := budget()
	deadline := start.Add(total)
	// units beyond the first wave share the time
	waves := (len(units) + par - 1) / max(par, 1)
	per := total / time.Duration(max(waves, 1))
	results := make([]proc, len(units))
	var next atomic.Int64
	var wg sync.WaitGroup
	for i := 0; i < par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				n := int(next.Add(1)) - 1
				if n >= len(units) {
					return
				}
				// time left, divided by the waves left
				left := (len(units) - n + par - 1) / par
				d := time.Until(deadline) / time.Duration(left)
				if d < per/2 {
					d = per / 2
				}
				if quick := env("VERIF_TIER", "quick") == "quick" && os.Getenv("VERIF_BUDGET") == ""; quick && d < 120*time.Second {
					// quick units are small: leave slow machines time
					d = min(120*time.Second, time.Until(start.Add(12*time.Minute)))
				}
				p := runUnit(ck, units[n], tmp, n, time.Now().Add(d))
				if p.res == nil { // crashed: same again?
					q := runUnit(ck, units[n], tmp, n, time.Now().Add(d))
					if q.res != nil {
						p = q
					} else if q.code == p.code {
						p = q
					}
				}
				results[n] = p
				if p.res != nil && os.Getenv("VERIF_FIRST") != "" { // mutation testing: the first violation will do
					k := loadKnown(filepath.Join(root, "known-findings.txt"), ck.ID)
					for _, v := range p.res.Violations {
						if k.match(v.Key) == "" {
							fmt.Printf("%s\nVIOLATION property=%s replay=none\n", head(v.Msg, 300), ck.ID)
							os.Exit(1)
						}
					}
				}
			}
		}()
	}
	wg.Wait()

	known := loadKnown(filepath.Join(root, "known-findings.txt"), ck.ID)
	sum := Result{Exhaustive: true}
	var vio []Violation
	broken := false
	perUnit := []map[string]interface{}{}
	for i, p := range results {
		if p.res == nil {
			finch := strings.Contains(p.out, "github.com/square/finch/")
			what := "crash"
			if p.code == 97 {
				what = "hang"
			}
			if finch {
				vio = append(vio, Violation{Key: units[i] + ": " + what, Msg: what + " with code under test on the stack (twice): " + head(p.out, 6000), Unit: units[i]})
			} else {
				broken = true
				fmt.Printf("unit %s failed (exit %d):\n%s\n", units[i], p.code, tail(p.out, 6000))
			}
			continue
		}
		r := p.res
		if p.code != 0 && len(r.Violations) == 0 {
			broken = true
			fmt.Printf("unit %s failed (exit %d):\n%s\n", units[i], p.code, tail(p.out, 6000))
		}
		sum.Evals += r.Evals
		sum.Nontrivial += r.Nontrivial
		sum.States += r.States
		sum.Trans += r.Trans
		sum.Traces += r.Traces
		sum.Exhaustive = sum.Exhaustive && r.Exhaustive
		if len(sum.Samples) < 6 {
			for k, s := range r.Samples {
				if k < 1 {
					sum.Samples = append(sum.Samples, map[string]interface{}{"unit": r.Unit, "case": s})
				}
			}
		}
		sum.Notes = append(sum.Notes, r.Notes...)
		vio = append(vio, r.Violations...)
		m := map[string]interface{}{"unit": r.Unit, "evaluations": r.Evals, "distinct": r.Nontrivial, "exhaustive": r.Exhaustive}
		if len(r.Explored) > 0 {
			if len(r.Explored) > 12 {
				r.Explored = append(r.Explored[:12], map[string]interface{}{"more": len(r.Explored) - 12})
			}
			m["explored"] = r.Explored
		}
		perUnit = append(perUnit, m)
		if os.Getenv("VERIF_VERBOSE") != "" {
			b, _ := json.Marshal(m)
			fmt.Println(string(b))
			if strings.TrimSpace(p.out) != "PASS" {
				fmt.Println(tail(p.out, 3000))
			}
		}
	}
	sort.Slice(vio, func(i, j int) bool { return vio[i].Key < vio[j].Key })
	nv := 0
	for i, v := range vio {
		if k := known.match(v.Key); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.ID, k)
			continue
		}
		nv++
		path := filepath.Join(root, "evidence", "replay", fmt.Sprintf("%s-%d.json", ck.ID, i))
		os.MkdirAll(filepath.Dir(path), 0755)
		b, _ := json.MarshalIndent(map[string]interface{}{"property": ck.ID, "unit": v.Unit, "key": v.Key, "message": v.Msg, "replay": v.Replay,
			"reproduce": fmt.Sprintf("cd /verif && VERIF_ONLY=%q ./run.sh %s", v.Unit, ck.ID)}, "", " ")
		os.WriteFile(path, b, 0644)
		fmt.Printf("%s\n", head(v.Msg, 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, path)
	}
	cov := map[string]interface{}{
		"samples": sum.Samples, "exhaustive": sum.Exhaustive, "units": perUnit, "rule": ck.Rule,
		"evaluations": sum.Evals, "distinct_nontrivial": sum.Nontrivial,
	}
	if ck.Level == "model_checking" {
		cov["states"] = sum.States
		cov["transitions"] = sum.Trans
		cov["traces_validated_against_impl"] = sum.Traces
	}
	if len(sum.Notes) > 0 {
		if len(sum.Notes) > 50 {
			sum.Notes = sum.Notes[:50]
		}
		cov["notes"] = sum.Notes
	}
	ev := map[string]interface{}{
		"property": ck.ID, "tier": tier, "seed": seed, "level": ck.Level, "coverage": cov,
		"assumptions": ck.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": nv,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(root, "evidence", ck.ID+".json"), b, 0644); err != nil {
		fmt.Println(err)
		broken = true
	}
	fmt.Printf("%s %s: %d evaluations, %d distinct, %d transitions, exhaustive=%v, %d violations, %.1fs\n", ck.ID, tier, sum.Evals, sum.Nontrivial, sum.Trans, sum.Exhaustive, nv, time.Since(start).Seconds())
	os.RemoveAll(tmp)
	if nv > 0 {
		os.Exit(1)
	}
	if broken {
		os.Exit(2)
	}
}

type knownList []struct{ pat, desc string }

// known-findings.txt lines: "known: property=<id> key=<substring of the violation key> -- <what fails>"
func loadKnown(path, id string) (k knownList) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		p := "known: property=" + id + " key="
		if !strings.HasPrefix(l, p) {
			continue
		}
		l = l[len(p):]
		i := strings.Index(l, " -- ")
		if i < 0 {
			continue
		}
		k = append(k, struct{ pat, desc string }{l[:i], l[i+4:]})
	}
	return
}

func (k knownList) match(key string) string {
	for _, e := range k {
		if e.pat == key {
			return e.desc
		}
	}
	return ""
}

// Flags keeps the flag package linked for test binaries.
var _ = flag.CommandLine
