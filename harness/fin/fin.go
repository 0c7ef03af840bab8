// Package fin drives the finch pipeline (config file -> trx -> workload ->
// clients -> stage) against a fake database.
package fin

import (
	"context"
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"

	"github.com/square/finch/config"
	"github.com/square/finch/data"
	"github.com/square/finch/stage"
	"github.com/square/finch/stats"

	"finchverif/fakedb"
	"finchverif/vsched"
)

// Write writes files (name -> content) into a new scratch dir.
func Write(t *testing.T, files map[string]string) string {
	dir, err := os.MkdirTemp("", "fin")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.RemoveAll(dir) })
	for n, c := range files {
		p := filepath.Join(dir, n)
		os.MkdirAll(filepath.Dir(p), 0755)
		if err := os.WriteFile(p, []byte(c), 0644); err != nil {
			t.Fatal(err)
		}
	}
	return dir
}

// Load loads the stage config s.yaml written with the given trx files.
func Load(t *testing.T, yaml string, trx map[string]string) config.Stage {
	files := map[string]string{"s.yaml": yaml}
	for n, c := range trx {
		files[n] = c
	}
	dir := Write(t, files)
	st, err := config.Load([]string{filepath.Join(dir, "s.yaml")}, nil, "", "")
	if err != nil {
		t.Fatalf("config.Load: %s\n%s", err, yaml)
	}
	for i := range st[0].Trx {
		if !filepath.IsAbs(st[0].Trx[i].File) {
			st[0].Trx[i].File = filepath.Join(dir, st[0].Trx[i].File)
		}
	}
	return st[0]
}

// Clone deep-copies a stage config (finch modifies it while preparing).
func Clone(c config.Stage) config.Stage {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	var r config.Stage
	if err := json.Unmarshal(b, &r); err != nil {
		panic(err)
	}
	return r
}

// RunStage prepares and runs one stage.
func RunStage(ctx context.Context, cfg config.Stage, gds *data.Scope, st *stats.Collector) error {
	s := stage.New(Clone(cfg), gds, st)
	if err := s.Prepare(ctx); err != nil {
		return err
	}
	s.Run(ctx)
	return nil
}

// Who is the data generator "who": it says which client asked, in which
// iteration, trx, statement and connection.
func init() {
	data.Register("who", whoFactory{})
	data.Register("tick", tickFactory{})
}

type whoFactory struct{}

func (whoFactory) Make(name, key string, params map[string]string) (data.Generator, error) {
	return &who{}, nil
}

type who struct{}

func (g *who) Format() (uint, string)     { return 1, "%v" }
func (g *who) Copy() data.Generator       { return &who{} }
func (g *who) Scan(any interface{}) error { return nil }
func (g *who) Name() string               { return "who" }
func (g *who) Values(rc data.RunCount) []interface{} {
	return []interface{}{fmt.Sprintf("s%d.e%d.g%d.c%d.conn%d.i%d.t%d.q%d", rc[data.STAGE], rc[data.EXEC_GROUP], rc[data.CLIENT_GROUP], rc[data.CLIENT], rc[data.CONN], rc[data.ITER], rc[data.TRX], rc[data.STATEMENT])}
}

// Who is a parsed who value.
type Who struct{ Stage, EG, CG, C, Conn, Iter, Trx, Stmt int }

func ParseWho(s string) (w Who, ok bool) {
	n, _ := fmt.Sscanf(s, "s%d.e%d.g%d.c%d.conn%d.i%d.t%d.q%d", &w.Stage, &w.EG, &w.CG, &w.C, &w.Conn, &w.Iter, &w.Trx, &w.Stmt)
	return w, n == 8
}

func (w Who) Client() string { return fmt.Sprintf("s%d.e%d.g%d.c%d", w.Stage, w.EG, w.CG, w.C) }

// Tick is the data generator "tick": every call returns a value never returned
// before ("<instance>:<n>") and is recorded. It may be shared by clients: it is
// safe for concurrent use.
type Tick struct {
	mu    sync.Mutex
	Made  int
	Calls []TickCall
}

type TickCall struct {
	Key  string
	Inst int
	N    int
	RC   data.RunCount
	Val  string
}

// Ticks records the calls of the current execution.
var Ticks = &Tick{}

func ResetTicks() { Ticks = &Tick{} }

type tickFactory struct{}

func (tickFactory) Make(name, key string, params map[string]string) (data.Generator, error) {
	t := Ticks
	return &tick{t: t, key: key}, nil
}

type tick struct {
	t    *Tick
	key  string
	inst int
	n    int
}

func (g *tick) Format() (uint, string) { return 1, "%v" }
func (g *tick) Copy() data.Generator {
	g.t.mu.Lock()
	defer g.t.mu.Unlock()
	g.t.Made++
	return &tick{t: g.t, key: g.key, inst: g.t.Made}
}
func (g *tick) Scan(any interface{}) error { return nil }
func (g *tick) Name() string               { return "tick" }
func (g *tick) Values(rc data.RunCount) []interface{} {
	vsched.Point()
	g.t.mu.Lock()
	g.n++
	v := fmt.Sprintf("%s#%d:%d", strings.TrimPrefix(g.key, "@"), g.inst, g.n)
	g.t.Calls = append(g.t.Calls, TickCall{Key: g.key, Inst: g.inst, N: g.n, RC: rc, Val: v})
	g.t.mu.Unlock()
	vsched.Point()
	return []interface{}{v}
}

// OneRow is an answer with one row of values.
func OneRow(v ...interface{}) fakedb.Answer {
	r := make([]driver.Value, len(v))
	cols := make([]string, len(v))
	for i := range v {
		r[i] = v[i]
		cols[i] = fmt.Sprintf("c%d", i)
	}
	return fakedb.Answer{Cols: cols, Rows: [][]driver.Value{r}}
}
