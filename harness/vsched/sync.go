package vsched

import (
	"context"
	"net"
	"net/http"
	"sync"
	"sync/atomic"
	"time"
)

// What blocks in package sync and is not seen by the bubble, so that the scheduler
// knows who waits. (WaitGroup.Wait is seen.)

func controlled() bool {
	e := Current()
	return e != nil && e.me() != nil
}

// Lock locks l without blocking the scheduler.
func Lock(l sync.Locker) {
	t, ok := l.(interface{ TryLock() bool })
	if !ok || !controlled() {
		l.Lock()
		return
	}
	for !t.TryLock() {
		Yield()
	}
}

// WGGo is w.Go(f).
func WGGo(w *sync.WaitGroup, f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// one lock per sync.Once and queue per sync.Cond
var (
	onces sync.Map
	conds sync.Map
)

// OnceDo is o.Do(f).
func OnceDo(o *sync.Once, f func()) {
	if !controlled() {
		o.Do(f)
		return
	}
	Point()
	l, _ := onces.LoadOrStore(o, &sync.Mutex{})
	mu := l.(*sync.Mutex)
	Lock(mu)
	defer mu.Unlock()
	o.Do(f)
}

func OnceFunc(f func()) func() {
	var o sync.Once
	return func() { OnceDo(&o, f) }
}

func OnceValue[T any](f func() T) func() T {
	var o sync.Once
	var v T
	return func() T {
		OnceDo(&o, func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o sync.Once
	var v T
	var u U
	return func() (T, U) {
		OnceDo(&o, func() { v, u = f() })
		return v, u
	}
}

type condq struct {
	mu sync.Mutex
	q  []*atomic.Bool
}

func queue(c *sync.Cond) *condq {
	q, _ := conds.LoadOrStore(c, &condq{})
	return q.(*condq)
}

func CondWait(c *sync.Cond) {
	f := &atomic.Bool{}
	q := queue(c)
	q.mu.Lock()
	q.q = append(q.q, f)
	q.mu.Unlock()
	c.L.Unlock()
	for !f.Load() {
		Yield()
	}
	Lock(c.L)
}

func condWake(c *sync.Cond, n int) {
	Point()
	q := queue(c)
	q.mu.Lock()
	for ; n != 0 && len(q.q) > 0; n-- {
		q.q[0].Store(true)
		q.q = q.q[1:]
	}
	q.mu.Unlock()
}

func CondSignal(c *sync.Cond)    { condWake(c, 1) }
func CondBroadcast(c *sync.Cond) { condWake(c, -1) }

// AfterFunc runs f under control, later.
func AfterFunc(d time.Duration, f func()) *time.Timer {
	tag := Tag()
	return time.AfterFunc(d, func() {
		Go(func() {
			SetTag(tag)
			f()
		})
	})
}

func ContextAfterFunc(ctx context.Context, f func()) func() bool {
	tag := Tag()
	return context.AfterFunc(ctx, func() {
		Go(func() {
			SetTag(tag)
			f()
		})
	})
}

func HTTPListenAndServe(addr string, h http.Handler) error {
	return serve(&http.Server{Addr: addr, Handler: h})
}

func HTTPServe(_ net.Listener, h http.Handler) error { return serve(&http.Server{Handler: h}) }

func Fatalln(v ...interface{}) { Fatal(v...) }
