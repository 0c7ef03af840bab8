// Package fakedb is an in-memory MySQL stand-in behind database/sql: it records
// every connection and statement in order and answers from a script.
package fakedb

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"fmt"
	"io"
	"strings"
	"sync"
	"time"

	"github.com/go-sql-driver/mysql"

	"finchverif/vsched"
)

// Event is one call that reached the database.
type Event struct {
	Seq  int
	At   time.Time
	G    string // goroutine
	Tag  string // of the goroutine
	Conn int    // connection number, 1-based; 0 for connect attempts that failed
	Kind string // connect, exec, query, prepare, sexec, squery, sclose, close, ping
	SQL  string
	Args []string
	Err  error
	Done time.Time
	Stmt int // prepared statement number
}

func (e Event) String() string {
	s := fmt.Sprintf("c%d %s", e.Conn, e.Kind)
	if e.SQL != "" {
		s += " " + e.SQL
	}
	if len(e.Args) > 0 {
		s += " " + strings.Join(e.Args, ",")
	}
	if e.Err != nil {
		s += " -> " + e.Err.Error()
	}
	return s
}

// Answer is what the database does with an event.
type Answer struct {
	Err      error
	Cols     []string
	Rows     [][]driver.Value
	RowErr   error // error returned after the rows instead of EOF
	Affected int64
	LastId   int64
	Delay    time.Duration
	NoCtx    bool // ignore ctx during Delay
}

// DB is the fake server.
type DB struct {
	mu     sync.Mutex
	Log    []Event
	nconn  int
	nstmt  int
	Answer func(e *Event) Answer // called for every event with mu held
	DSN    string
	Open   int // open connections
}

func MyErr(n uint16) error { return &mysql.MySQLError{Number: n, Message: fmt.Sprintf("error %d", n)} }

// Sql returns a *sql.DB connected to d.
func (d *DB) Sql() *sql.DB { return sql.OpenDB(&connector{d}) }

func (d *DB) OpenFn() func(string, string) (*sql.DB, error) {
	return func(_, dsn string) (*sql.DB, error) {
		d.mu.Lock()
		d.DSN = dsn
		d.mu.Unlock()
		return d.Sql(), nil
	}
}

func (d *DB) event(ctx context.Context, e Event) (Answer, *Event) {
	if vsched.Current() != nil && vsched.Dead() && !vsched.TryPoint() {
		return Answer{Err: context.Canceled}, &e
	}
	d.mu.Lock()
	e.Seq = len(d.Log)
	e.At = time.Now()
	e.Done = e.At
	e.G = vsched.Self()
	e.Tag = vsched.Tag()
	a := Answer{}
	if d.Answer != nil {
		a = d.Answer(&e)
	}
	e.Err = a.Err
	d.Log = append(d.Log, e)
	i := e.Seq
	d.mu.Unlock()
	if a.Delay > 0 {
		var done <-chan struct{}
		if ctx != nil && !a.NoCtx {
			done = ctx.Done()
		}
		tm := time.NewTimer(a.Delay)
		select {
		case <-tm.C:
		case <-done:
			a.Err = ctx.Err()
		case <-vsched.Killed():
			a.Err = context.Canceled
		}
		tm.Stop()
		if !vsched.TryPoint() {
			a.Err = context.Canceled
		}
		d.mu.Lock()
		d.Log[i].Done = time.Now()
		d.Log[i].Err = a.Err
		d.mu.Unlock()
	}
	return a, &e
}

// Events returns a copy of the log.
func (d *DB) Events() []Event {
	d.mu.Lock()
	defer d.mu.Unlock()
	return append([]Event{}, d.Log...)
}

type connector struct{ d *DB }

func (c *connector) Connect(ctx context.Context) (driver.Conn, error) {
	c.d.mu.Lock()
	c.d.nconn++
	n := c.d.nconn
	c.d.mu.Unlock()
	a, _ := c.d.event(ctx, Event{Kind: "connect", Conn: n})
	if a.Err != nil {
		return nil, a.Err
	}
	c.d.mu.Lock()
	c.d.Open++
	c.d.mu.Unlock()
	return &conn{d: c.d, n: n}, nil
}
func (c *connector) Driver() driver.Driver { return drv{} }

type drv struct{}

func (drv) Open(string) (driver.Conn, error) { return nil, fmt.Errorf("not used") }

type conn struct {
	d      *DB
	n      int
	closed bool
}

func (c *conn) Prepare(q string) (driver.Stmt, error) {
	return c.PrepareContext(context.Background(), q)
}
func (c *conn) PrepareContext(ctx context.Context, q string) (driver.Stmt, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	c.d.mu.Lock()
	c.d.nstmt++
	n := c.d.nstmt
	c.d.mu.Unlock()
	a, _ := c.d.event(ctx, Event{Kind: "prepare", Conn: c.n, SQL: q, Stmt: n})
	if a.Err != nil {
		return nil, a.Err
	}
	return &stmt{c: c, q: q, n: n}, nil
}
func (c *conn) Close() error {
	c.d.event(nil, Event{Kind: "close", Conn: c.n})
	c.d.mu.Lock()
	c.d.Open--
	c.d.mu.Unlock()
	c.closed = true
	return nil
}
func (c *conn) Begin() (driver.Tx, error) { return nil, fmt.Errorf("not used") }
func (c *conn) Ping(ctx context.Context) error {
	a, _ := c.d.event(ctx, Event{Kind: "ping", Conn: c.n})
	return a.Err
}
func (c *conn) CheckNamedValue(nv *driver.NamedValue) error { return resolve(nv) }

// resolve calls Valuers, like the MySQL driver.
func resolve(nv *driver.NamedValue) (err error) {
	if v, ok := nv.Value.(driver.Valuer); ok {
		nv.Value, err = v.Value()
	}
	return
}

func (c *conn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	a, _ := c.d.event(ctx, Event{Kind: "exec", Conn: c.n, SQL: q, Args: strs(args)})
	if a.Err != nil {
		return nil, a.Err
	}
	return result{a}, nil
}
func (c *conn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	a, _ := c.d.event(ctx, Event{Kind: "query", Conn: c.n, SQL: q, Args: strs(args)})
	if a.Err != nil {
		return nil, a.Err
	}
	return &rows{a: a}, nil
}

type stmt struct {
	c *conn
	q string
	n int
}

func (s *stmt) Close() error {
	s.c.d.event(nil, Event{Kind: "sclose", Conn: s.c.n, SQL: s.q, Stmt: s.n})
	return nil
}
func (s *stmt) NumInput() int                               { return -1 }
func (s *stmt) CheckNamedValue(nv *driver.NamedValue) error { return resolve(nv) }
func (s *stmt) Exec(args []driver.Value) (driver.Result, error) {
	return nil, fmt.Errorf("not used")
}
func (s *stmt) Query(args []driver.Value) (driver.Rows, error) { return nil, fmt.Errorf("not used") }
func (s *stmt) ExecContext(ctx context.Context, args []driver.NamedValue) (driver.Result, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	a, _ := s.c.d.event(ctx, Event{Kind: "sexec", Conn: s.c.n, SQL: s.q, Args: strs(args), Stmt: s.n})
	if a.Err != nil {
		return nil, a.Err
	}
	return result{a}, nil
}
func (s *stmt) QueryContext(ctx context.Context, args []driver.NamedValue) (driver.Rows, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	a, _ := s.c.d.event(ctx, Event{Kind: "squery", Conn: s.c.n, SQL: s.q, Args: strs(args), Stmt: s.n})
	if a.Err != nil {
		return nil, a.Err
	}
	return &rows{a: a}, nil
}

func strs(args []driver.NamedValue) []string {
	var r []string
	for _, a := range args {
		switch v := a.Value.(type) {
		case []byte:
			r = append(r, string(v))
		default:
			r = append(r, fmt.Sprint(v))
		}
	}
	return r
}

type result struct{ a Answer }

func (r result) LastInsertId() (int64, error) { return r.a.LastId, nil }
func (r result) RowsAffected() (int64, error) { return r.a.Affected, nil }

// rows reuses one buffer for every []byte of a result set, as drivers do, and
// overwrites it when the next row is read or the result set closed.
type rows struct {
	a       Answer
	i       int
	buf     []byte
	drained bool
}

func (r *rows) scribble() {
	for i := range r.buf {
		r.buf[i] = 'X'
	}
}

func (r *rows) Columns() []string {
	if r.a.Cols == nil {
		return []string{"c"}
	}
	return r.a.Cols
}
func (r *rows) Close() error {
	r.scribble()
	if !r.drained {
		r.drained = true
		return r.a.RowErr // the driver reads the rest of the result set
	}
	return nil
}
func (r *rows) Next(dest []driver.Value) error {
	r.scribble()
	if r.i >= len(r.a.Rows) {
		r.drained = true
		if r.a.RowErr != nil {
			return r.a.RowErr
		}
		return io.EOF
	}
	n := 0
	for _, v := range r.a.Rows[r.i] {
		if b, ok := v.([]byte); ok {
			n += len(b)
		}
	}
	if cap(r.buf) < n {
		r.buf = make([]byte, n)
	}
	r.buf = r.buf[:cap(r.buf)]
	k := 0
	for i, v := range r.a.Rows[r.i] {
		if b, ok := v.([]byte); ok && b != nil {
			copy(r.buf[k:], b)
			v = r.buf[k : k+len(b) : k+len(b)]
			k += len(b)
		}
		dest[i] = v
	}
	r.i++
	return nil
}
