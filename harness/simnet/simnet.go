// Package simnet is the network between finch's HTTP client and server: an
// http.RoundTripper that hands requests to an http.Handler in the same process,
// under the control of vsched, in virtual time, with faults chosen per attempt.
package simnet

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net/http"
	"net/url"
	"sync"
	"time"

	"finchverif/vsched"
)

// Attempt is one request put on the wire.
type Attempt struct {
	N        int // from 0
	Method   string
	Host     string
	Path     string
	RawQuery string
	Query    url.Values
	Body     []byte
	At       time.Time
	End      time.Time // response read, or failed
	Fault    Fault
	Status   int // what the client saw (0: error)
	Resp     []byte
	Served   bool // handler was called
	G        string
	Tag      string
	Deadline time.Time
	HasDL    bool
}

// Fault says what happens to an attempt; the zero value: nothing, the handler's
// response arrives at once.
type Fault struct {
	Name  string
	Delay time.Duration // time on the way to the server
	Back  time.Duration // time on the way back
	// NoServe: the request does not reach the server.
	NoServe bool
	// Late: the request reaches the server this long after it was sent, whether or not
	// the client still waits.
	Late time.Duration
	Err  bool // client gets an error (after Delay and, if served, the handler's answer)
	Hang bool // client gets no answer until its context is done
	// After, if set, is called when the handler has answered, before the client learns.
	After func()
	// Status and Body replace the server (with NoServe).
	Status int
	Body   []byte
	// Cut: only half of the body arrives, then an error; Stall: then nothing.
	Cut, Stall bool
}

// Net is the network.
type Net struct {
	Handler http.Handler
	Plan    func(a *Attempt) Fault
	// Seen, if set, is called for every answer a client got.
	Done func(a *Attempt)

	// ServerTag tags the goroutines that serve requests.
	ServerTag string

	mu   sync.Mutex
	Log  []*Attempt
	down chan struct{}
}

// Up connects the server.
func (n *Net) Up(h http.Handler) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.Handler, n.down = h, make(chan struct{})
}

// Down: the server is gone, requests it has not answered fail.
func (n *Net) Down() {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.down != nil {
		close(n.down)
	}
	n.Handler, n.down = nil, nil
}

func (n *Net) up() (http.Handler, chan struct{}) {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.Handler, n.down
}

var ErrNet = errors.New("simnet: connection reset by peer")

// Client is what finch.MakeHTTPClient returns.
func (n *Net) Client() *http.Client { return &http.Client{Transport: n} }

func (n *Net) Attempts() []*Attempt {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]*Attempt{}, n.Log...)
}

func wait(ctx context.Context, d time.Duration) error {
	if d <= 0 {
		return ctx.Err()
	}
	tm := time.NewTimer(d)
	defer tm.Stop()
	var err error
	select {
	case <-tm.C:
	case <-ctx.Done():
		err = ctx.Err()
	case <-vsched.Killed():
		err = context.Canceled
	}
	vsched.Point()
	return err
}

type response struct {
	h    http.Header
	code int
	buf  bytes.Buffer
}

func (r *response) Header() http.Header { return r.h }
func (r *response) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}
func (r *response) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	return r.buf.Write(b)
}

// serve runs the handler like a server does: in its own goroutine, which goes on
// when the client is gone.
func (n *Net) serve(a *Attempt, req *http.Request, after time.Duration, ctx context.Context) chan *response {
	out := make(chan *response, 1)
	sctx, cancel := context.WithCancel(context.Background())
	r2, err := http.NewRequestWithContext(sctx, req.Method, req.URL.String(), bytes.NewReader(a.Body))
	if err != nil {
		panic(err)
	}
	r2.RequestURI = req.URL.RequestURI()
	r2.RemoteAddr = "192.0.2.1:1234"
	r2.Host = req.URL.Host
	vsched.Go(func() {
		defer cancel()
		vsched.SetTag(n.ServerTag)
		if after > 0 {
			vsched.Sleep(after)
		}
		h, down := n.up()
		if h == nil { // nobody listens
			out <- &response{code: -1}
			return
		}
		go func() { // the client hangs up, or the server ends
			if ctx == nil {
				t := time.NewTimer(time.Millisecond)
				defer t.Stop()
				<-t.C
				cancel()
				return
			}
			select {
			case <-ctx.Done():
			case <-down:
			case <-sctx.Done():
			case <-vsched.Killed():
			}
			cancel()
		}()
		w := &response{h: http.Header{}}
		defer func() {
			if r := recover(); r != nil {
				if r != http.ErrAbortHandler {
					w.code = -1
					out <- w
					panic(r)
				}
				w.code = -1
			}
			out <- w
		}()
		a.Served = true
		h.ServeHTTP(w, r2)
		if w.code == 0 {
			w.code = 200
		}
	})
	return out
}

// Replay lets a copy of an earlier request reach the server now.
func (n *Net) Replay(a *Attempt) {
	b := Attempt{Method: a.Method, Host: a.Host, Path: a.Path, RawQuery: a.RawQuery, Body: a.Body, At: time.Now(), Tag: a.Tag}
	u := &url.URL{Scheme: "http", Host: a.Host, Path: a.Path, RawQuery: a.RawQuery}
	n.serve(&b, &http.Request{Method: a.Method, URL: u}, 0, nil)
}

func (n *Net) RoundTrip(req *http.Request) (*http.Response, error) {
	ctx := req.Context()
	if err := ctx.Err(); err != nil {
		if req.Body != nil {
			req.Body.Close()
		}
		return nil, err // like net/http: nothing is sent
	}
	if vsched.Current() != nil && vsched.Dead() {
		return nil, context.Canceled
	}
	var body []byte
	if req.Body != nil {
		var err error
		body, err = io.ReadAll(req.Body)
		req.Body.Close()
		if err != nil {
			return nil, err
		}
		if req.ContentLength > 0 && int64(len(body)) != req.ContentLength {
			return nil, errors.New("simnet: body length differs from ContentLength")
		}
	}
	a := &Attempt{Method: req.Method, Host: req.URL.Host, Path: req.URL.Path, RawQuery: req.URL.RawQuery, Query: req.URL.Query(), Body: body, At: time.Now(), G: vsched.Self(), Tag: vsched.Tag()}
	a.Deadline, a.HasDL = ctx.Deadline()
	n.mu.Lock()
	a.N = len(n.Log)
	n.Log = append(n.Log, a)
	n.mu.Unlock()
	if n.Plan != nil {
		a.Fault = n.Plan(a)
	}
	f := a.Fault
	end := func(err error) (*http.Response, error) {
		a.End = time.Now()
		if n.Done != nil {
			n.Done(a)
		}
		return nil, err
	}
	if f.Late > 0 {
		n.serve(a, req, f.Late, nil)
		if f.Err {
			return end(ErrNet)
		}
		<-orKilled(ctx)
		vsched.Point()
		return end(ctxErr(ctx))
	}
	if err := wait(ctx, f.Delay); err != nil {
		return end(err)
	}
	var w *response
	if !f.NoServe {
		_, down := n.up()
		ch := n.serve(a, req, 0, ctx)
		vsched.Point()
		select {
		case w = <-ch:
		case <-ctx.Done():
			vsched.Point()
			return end(ctx.Err())
		case <-down:
			vsched.Point()
			return end(ErrNet)
		case <-vsched.Killed():
			vsched.Exit()
		}
		vsched.Point()
		if w.code == -1 {
			return end(ErrNet)
		}
		if f.After != nil {
			f.After()
		}
		if err := wait(ctx, f.Back); err != nil {
			return end(err)
		}
	} else {
		w = &response{h: http.Header{}, code: f.Status}
		w.buf.Write(f.Body)
	}
	if f.Err {
		return end(ErrNet)
	}
	if f.Hang {
		<-orKilled(ctx)
		vsched.Point()
		return end(ctxErr(ctx))
	}
	a.Status = w.code
	a.Resp = w.buf.Bytes()
	b := &bodyReader{n: n, a: a, ctx: ctx, rest: a.Resp, f: f}
	if f.Cut || f.Stall {
		b.rest = b.rest[:len(b.rest)/2]
	}
	return &http.Response{
		Status: http.StatusText(w.code), StatusCode: w.code, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: w.h, Body: b, ContentLength: int64(len(a.Resp)), Request: req,
	}, nil
}

func ctxErr(ctx context.Context) error {
	if err := ctx.Err(); err != nil {
		return err
	}
	return context.Canceled
}

// orKilled is closed when ctx is done or the execution is over.
func orKilled(ctx context.Context) <-chan struct{} {
	k := vsched.Killed()
	if k == nil {
		return ctx.Done()
	}
	select {
	case <-ctx.Done():
	case <-k:
	}
	c := make(chan struct{})
	close(c)
	return c
}

// bodyReader: a response body; once the request's context is done it cannot be
// read any more (net/http closes the connection then).
type bodyReader struct {
	n      *Net
	a      *Attempt
	ctx    context.Context
	rest   []byte
	f      Fault
	closed bool
}

func (b *bodyReader) done() {
	if !b.closed {
		b.closed = true
		b.a.End = time.Now()
		if b.n.Done != nil {
			b.n.Done(b.a)
		}
	}
}

func (b *bodyReader) Read(p []byte) (int, error) {
	if err := b.ctx.Err(); err != nil && len(b.a.Resp) > 0 {
		b.a.Status = 0
		b.done()
		return 0, err
	}
	if len(b.rest) > 0 {
		n := copy(p, b.rest)
		b.rest = b.rest[n:]
		return n, nil
	}
	if b.f.Stall {
		<-orKilled(b.ctx)
		vsched.Point()
		b.a.Status = 0
		b.done()
		return 0, ctxErr(b.ctx)
	}
	if b.f.Cut {
		b.a.Status = 0
		b.done()
		return 0, io.ErrUnexpectedEOF
	}
	b.done()
	return 0, io.EOF
}

func (b *bodyReader) Close() error {
	b.done()
	return nil
}
