// Package vsched is the runtime of the controlled scheduler: instrumented finch
// code (see /verif/instr) calls it at every scheduling point, lock, channel
// operation, select and goroutine start. When no execution is being explored
// every call falls through to the plain operation.
package vsched

import (
	"context"
	"database/sql"
	"fmt"
	"net"
	"net/http"
	"os"
	"os/signal"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func getg() uintptr

// G is one goroutine the scheduler controls.
type G struct {
	ID     int
	Name   string
	Tag    string // inherited from the goroutine that started it
	ch     chan struct{}
	parked bool
	dying  bool
	drain  int // TryPoint calls after the end
	yield  int // >=0: waits for a lock; value of Exec.prog when it last found it taken
	done   bool
	free   int             // >0: points are skipped (NoPreempt section)
	sites  map[uintptr]int // hits per program site since the last Op (with SiteCap)
}

// Panic is a panic of a controlled goroutine.
type Panic struct {
	G     string
	Val   interface{}
	Stack string
}

// Exec is one execution under control.
type Exec struct {
	mu       sync.Mutex
	gs       []*G
	byG      map[uintptr]*G
	wake     chan struct{}
	killed   bool
	kill     chan struct{}
	Panics   []Panic
	Fatals   []string
	Servers  []*http.Server
	signals  []sigChan
	dbs      []*sql.DB
	Choose   func(kind string, n int) int // data choices (select order, map order, harness)
	OpenDB   func(driver, dsn string) (*sql.DB, error)
	steps    int
	prog     int // bumped whenever a step did more than find a lock taken
	cleanups []func()
	siteCap  int
}

var cur atomic.Pointer[Exec]

func Current() *Exec { return cur.Load() }

func newExec() *Exec {
	return &Exec{
		byG:  map[uintptr]*G{},
		wake: make(chan struct{}, 1),
		kill: make(chan struct{}),
	}
}

func (e *Exec) me() *G {
	e.mu.Lock()
	g := e.byG[getg()]
	e.mu.Unlock()
	return g
}

// spawn starts f in a controlled goroutine that first waits to be scheduled.
func (e *Exec) spawn(name string, f func()) *G {
	e.mu.Lock()
	g := &G{ID: len(e.gs), Name: name, ch: make(chan struct{}), yield: -1}
	if name == "" {
		g.Name = fmt.Sprintf("g%d", g.ID)
	}
	if p := e.byG[getg()]; p != nil {
		g.Tag = p.Tag
	}
	e.gs = append(e.gs, g)
	e.mu.Unlock()
	go func() {
		p := getg()
		e.mu.Lock()
		e.byG[p] = g
		e.mu.Unlock()
		defer func() {
			r := recover()
			e.mu.Lock()
			if r != nil {
				e.Panics = append(e.Panics, Panic{G: g.Name, Val: r, Stack: string(debug.Stack())})
			}
			g.done = true
			delete(e.byG, p)
			e.mu.Unlock()
			e.signal()
		}()
		e.park(g)
		f()
	}()
	return g
}

func (e *Exec) signal() {
	select {
	case e.wake <- struct{}{}:
	default:
	}
}

func (e *Exec) park(g *G) {
	e.mu.Lock()
	if e.killed {
		e.mu.Unlock()
		Exit()
	}
	g.parked = true
	e.mu.Unlock()
	e.signal()
	<-g.ch
	if e.killed {
		g.dying = true
		runtime.Goexit()
	}
}

// Point is a scheduling point.
func Point() {
	e := cur.Load()
	if e == nil {
		return
	}
	g := e.me()
	if g == nil {
		if e.isKilled() {
			Exit()
		}
		return
	}
	if g.free > 0 && !e.killed {
		return
	}
	if e.siteCap > 0 && !e.killed {
		var pc [2]uintptr
		runtime.Callers(2, pc[:])
		k := pc[0]*31 + pc[1]
		if g.sites == nil {
			g.sites = map[uintptr]int{}
		}
		g.sites[k]++
		if g.sites[k] > e.siteCap {
			return
		}
	}
	e.park(g)
}

// TryPoint is a scheduling point that returns false, rather than end the goroutine,
// when the execution is over: for callers whose callers hold locks.
func TryPoint() bool {
	e := cur.Load()
	if e == nil {
		return true
	}
	g := e.me()
	if g == nil || g.dying {
		return !e.isKilled()
	}
	e.mu.Lock()
	if e.killed {
		if g.drain++; g.drain > 1000 {
			e.mu.Unlock()
			Exit()
		}
		if g.drain > 1 {
			e.mu.Unlock()
			return false
		}
	} else if g.free > 0 {
		e.mu.Unlock()
		return true
	} else if e.siteCap > 0 {
		var pc [2]uintptr
		runtime.Callers(2, pc[:])
		k := pc[0]*31 + pc[1]
		if g.sites == nil {
			g.sites = map[uintptr]int{}
		}
		g.sites[k]++
		if g.sites[k] > e.siteCap {
			e.mu.Unlock()
			return true
		}
	}
	g.parked = true
	e.mu.Unlock()
	e.signal()
	<-g.ch
	if e.isKilled() {
		g.drain++
		return false
	}
	return true
}

// Op starts a new operation of the calling goroutine: with Opts.SiteCap every
// scheduling point counts again.
func Op() {
	if e := cur.Load(); e != nil {
		if g := e.me(); g != nil {
			g.sites = nil
		}
	}
}

// NoPreempt runs f without scheduling points (harness bookkeeping).
func NoPreempt(f func()) {
	e := cur.Load()
	if e == nil {
		f()
		return
	}
	g := e.me()
	if g == nil {
		f()
		return
	}
	g.free++
	defer func() { g.free-- }()
	f()
}

func (e *Exec) isKilled() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.killed
}

// KillPoint ends the goroutine once the execution is over; it is not a
// scheduling point.
func KillPoint() {
	e := cur.Load()
	if e != nil && e.isKilled() {
		Exit()
	}
}

// Yield: a lock is taken; run others until something changed.
func Yield() {
	e := cur.Load()
	if e == nil {
		runtime.Gosched()
		return
	}
	g := e.me()
	if g == nil {
		if e.isKilled() {
			Exit()
		}
		runtime.Gosched()
		return
	}
	e.mu.Lock()
	g.yield = e.prog
	e.mu.Unlock()
	e.park(g)
}

// After parks the goroutine right after it was woken from a blocking operation.
func After() { Point() }

// Go starts f; if an execution is running, under control.
func Go(f func()) {
	e := cur.Load()
	if e == nil {
		go f()
		return
	}
	e.spawn("", f)
}

func killc() chan struct{} {
	e := cur.Load()
	if e == nil {
		return nil
	}
	return e.kill
}

// Killed is closed when the execution is over.
func Killed() <-chan struct{} { return killc() }

// Exit ends the calling goroutine: when the execution is over, one after the other,
// because deferred functions run.
func Exit() {
	e := cur.Load()
	if e != nil {
		if g := e.me(); g != nil {
			e.mu.Lock()
			if e.killed && !g.dying {
				g.dying = true
				g.parked = true
				e.mu.Unlock()
				e.signal()
				<-g.ch
			} else {
				e.mu.Unlock()
			}
		}
	}
	runtime.Goexit()
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	var v T
	var ok bool
	select {
	case v, ok = <-ch:
	default:
		select {
		case v, ok = <-ch:
		case <-killc():
			Exit()
		}
		Point()
	}
	return v, ok
}

func Send[T any](ch chan<- T, v T) {
	select {
	case ch <- v:
	default:
		select {
		case ch <- v:
		case <-killc():
			Exit()
		}
	}
	Point()
}

func Zero[T any](ch <-chan T) (z T) { return }
func As[T any](ch chan<- T, v T) T  { return v }

type num interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64
}

func AddTo[T num](p *T, v T) {
	t := *p
	Point()
	*p = t + v
}

func SubTo[T num](p *T, v T) {
	t := *p
	Point()
	*p = t - v
}

// Sleep sleeps, then waits to be scheduled (goroutines that wake at the same
// instant must not run at the same time).
func Sleep(d time.Duration) {
	e := cur.Load()
	if e == nil {
		time.Sleep(d)
		return
	}
	tm := time.NewTimer(d)
	defer tm.Stop()
	select {
	case <-tm.C:
	case <-e.kill:
		Exit()
	}
	Point()
}

// Self names the calling goroutine ("" if not controlled).
func Self() string {
	e := cur.Load()
	if e == nil {
		return ""
	}
	if g := e.me(); g != nil {
		return g.Name
	}
	return ""
}

// SetTag tags the calling goroutine and those it starts from now on.
func SetTag(t string) {
	if e := cur.Load(); e != nil {
		if g := e.me(); g != nil {
			g.Tag = t
		}
	}
}

// Tag is the tag of the calling goroutine.
func Tag() string {
	e := cur.Load()
	if e == nil {
		return ""
	}
	if g := e.me(); g != nil {
		return g.Tag
	}
	return ""
}

// Dead reports if the execution is over (events from here on are not part of it).
func Dead() bool {
	e := cur.Load()
	return e == nil || e.isKilled()
}

// Mid is a scheduling point between reading and writing back a value.
func Mid[T any](v T) T {
	Point()
	return v
}

func choose(kind string, n int) int {
	e := cur.Load()
	if e == nil || e.Choose == nil || n <= 1 {
		return 0
	}
	if e.me() == nil {
		return 0
	}
	return e.Choose(kind, n)
}

// Order returns the order in which the n ready-checks of a select are tried:
// the choice is which one comes first.
func Order(n int) []int {
	k := choose("select", n)
	o := make([]int, 0, n)
	o = append(o, k)
	for i := 0; i < n; i++ {
		if i != k {
			o = append(o, i)
		}
	}
	return o
}

// Choose lets harness code running inside a controlled goroutine make a
// recorded choice.
func Choose(n int) int { return choose("data", n) }

type Pair[M ~map[K]V, K comparable, V any] struct {
	m M
	K K
	V V
}

func (p *Pair[M, K, V]) Load() bool {
	v, ok := p.m[p.K]
	p.V = v
	return ok
}

// MapOrder, when set, explores map iteration order: 0 ascending, 1 descending,
// 2.. rotations. Otherwise ascending.
func MapPairs[M ~map[K]V, K comparable, V any](m M) []*Pair[M, K, V] {
	l := make([]*Pair[M, K, V], 0, len(m))
	for k := range m {
		l = append(l, &Pair[M, K, V]{m: m, K: k})
	}
	sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i].K) < fmt.Sprint(l[j].K) })
	if MapChoice != nil && len(l) > 1 {
		perm := MapChoice(len(l))
		r := make([]*Pair[M, K, V], len(l))
		for i, j := range perm {
			r[i] = l[j]
		}
		return r
	}
	return l
}

// MapChoice, if not nil, returns the permutation of a map of n keys (sorted)
// that the next map iteration uses.
var MapChoice func(n int) []int

// ---------------------------------------------------------------- stand-ins

// OpenDB, if set, replaces sql.Open in instrumented packages.
var OpenDB func(driver, dsn string) (*sql.DB, error)

func SQLOpen(driver, dsn string) (*sql.DB, error) {
	open := OpenDB
	e := cur.Load()
	if e != nil && e.OpenDB != nil {
		open = e.OpenDB
	}
	if open == nil {
		return sql.Open(driver, dsn)
	}
	db, err := open(driver, dsn)
	if e != nil && db != nil {
		e.mu.Lock()
		e.dbs = append(e.dbs, db)
		e.mu.Unlock()
	}
	return db, err
}

// OnServe, if set, is told about every http.Server that starts serving.
var OnServe func(*http.Server)

func serve(s *http.Server) error {
	if OnServe != nil {
		OnServe(s)
	}
	e := cur.Load()
	if e == nil {
		select {}
	}
	e.mu.Lock()
	e.Servers = append(e.Servers, s)
	e.mu.Unlock()
	<-e.kill
	Exit()
	return nil
}

func ListenAndServe(s *http.Server) error        { return serve(s) }
func Serve(s *http.Server, _ net.Listener) error { return serve(s) }

type fakeListener struct{ addr string }

func (l fakeListener) Accept() (net.Conn, error) { return nil, net.ErrClosed }
func (l fakeListener) Close() error              { return nil }
func (l fakeListener) Addr() net.Addr            { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 33075} }

func NetListen(network, addr string) (net.Listener, error) { return fakeListener{addr}, nil }

// OnExit, if set, is told when a process with a tag exits; if it returns true, the
// execution goes on (there are other processes).
var OnExit func(tag, why string) bool

func fatal(s string) {
	e := cur.Load()
	if e == nil {
		panic("log.Fatal: " + s)
	}
	if OnExit != nil && OnExit(Tag(), s) {
		Exit()
	}
	e.mu.Lock()
	e.Fatals = append(e.Fatals, s)
	e.mu.Unlock()
	Exit()
}

func Fatal(v ...interface{})            { fatal(strings.TrimSpace(fmt.Sprintln(v...))) }
func Fatalf(f string, v ...interface{}) { fatal(fmt.Sprintf(f, v...)) }
func OSExit(code int)                   { fatal(fmt.Sprintf("exit %d", code)) }

// ---------------------------------------------------------------- signals

type sigChan struct {
	c   chan<- os.Signal
	tag string
}

// SignalNotify registers c for Interrupt.
func SignalNotify(c chan<- os.Signal, sig ...os.Signal) {
	e := cur.Load()
	if e == nil {
		signal.Notify(c, sig...)
		return
	}
	tag := Tag()
	for _, s := range sig {
		if s != os.Interrupt {
			continue
		}
		e.mu.Lock()
		e.signals = append(e.signals, sigChan{c, tag})
		e.mu.Unlock()
	}
	if len(sig) == 0 {
		e.mu.Lock()
		e.signals = append(e.signals, sigChan{c, tag})
		e.mu.Unlock()
	}
}

// SignalNotifyContext is done when Interrupt is called.
func SignalNotifyContext(ctx context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	if cur.Load() == nil {
		return signal.NotifyContext(ctx, sig...)
	}
	c := make(chan os.Signal, 1)
	SignalNotify(c, sig...)
	ctx, cancel := context.WithCancel(ctx)
	go func() {
		select {
		case <-c:
		case <-ctx.Done():
		case <-Killed():
		}
		cancel()
	}()
	return ctx, func() { SignalStop(c); cancel() }
}

func SignalStop(c chan<- os.Signal) {
	e := cur.Load()
	if e == nil {
		signal.Stop(c)
		return
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	for i := range e.signals {
		if e.signals[i].c == c {
			e.signals = append(e.signals[:i:i], e.signals[i+1:]...)
			return
		}
	}
}

func SignalReset(sig ...os.Signal) {
	if e := cur.Load(); e != nil {
		e.mu.Lock()
		e.signals = nil
		e.mu.Unlock()
		return
	}
	signal.Reset(sig...)
}

func SignalIgnore(sig ...os.Signal) {
	if cur.Load() == nil {
		signal.Ignore(sig...)
		return
	}
	SignalNotify(make(chan os.Signal, 1000), sig...)
}

// Interrupt sends the process CTRL-C; false if nobody catches it, which would end
// the process.
func Interrupt() bool {
	e := cur.Load()
	e.mu.Lock()
	defer e.mu.Unlock()
	for _, s := range e.signals {
		select {
		case s.c <- os.Interrupt:
		default:
		}
	}
	return len(e.signals) > 0
}

// InterruptTag sends CTRL-C to the process whose goroutines have a tag.
func InterruptTag(tag string) (caught bool) {
	e := cur.Load()
	e.mu.Lock()
	defer e.mu.Unlock()
	for _, s := range e.signals {
		if s.tag != tag {
			continue
		}
		caught = true
		select {
		case s.c <- os.Interrupt:
		default:
		}
	}
	return
}
