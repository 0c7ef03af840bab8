package remote

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/square/finch"
	"github.com/square/finch/proto"

	"finchverif/report"
	"finchverif/simnet"
	"finchverif/vsched"
)

var realHTTP = finch.MakeHTTPClient

// one way an attempt can end
type outcome struct {
	name string
	ok   bool
	hang bool // ends at the timeout
	f    simnet.Fault
	size int
}

func blob(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%26)
	}
	return b
}

const rtt = 10 * time.Millisecond

func status(code, size int) outcome {
	return outcome{name: fmt.Sprintf("%d/%d", code, size), ok: code == 200 || code == 205, size: size, f: simnet.Fault{NoServe: true, Delay: rtt, Status: code, Body: blob(size)}}
}

func with(o outcome, name string, ok, hang bool, f func(*simnet.Fault)) outcome {
	f(&o.f)
	o.name, o.ok, o.hang = name, ok, hang
	return o
}

var (
	outcomes = []outcome{
		status(200, 0), status(200, 1), status(200, 5000), status(200, 300000),
		status(205, 0),
		status(500, 0), status(410, 20), status(412, 0),
		with(status(0, 0), "refused", false, false, func(f *simnet.Fault) { f.Err = true }),
		with(status(0, 0), "no answer", false, true, func(f *simnet.Fault) { f.Hang = true }),
		with(status(200, 5000), "cut", false, false, func(f *simnet.Fault) { f.Cut = true }),
		with(status(200, 5000), "stalled", false, true, func(f *simnet.Fault) { f.Stall = true }),
		with(status(200, 3), "slow", true, false, func(f *simnet.Fault) { f.Delay = 400 * time.Millisecond }),
		with(status(200, 3), "too slow", false, true, func(f *simnet.Fault) { f.Delay = 1100 * time.Millisecond }),
	}
	moreOutcomes = append(append([]outcome{}, outcomes...),
		status(400, 30), status(404, 0), status(503, 5000), status(405, 0), status(502, 1),
		with(status(500, 5000), "500 cut", false, false, func(f *simnet.Fault) { f.Cut = true }),
		with(status(200, 1<<20), "1M cut", false, false, func(f *simnet.Fault) { f.Cut = true }),
	)
	few = []outcome{outcomes[0], outcomes[2], outcomes[5], outcomes[8], outcomes[9], outcomes[10]}
)

const (
	ctimeout = time.Second
	cwait    = 100 * time.Millisecond
)

// request is one call of the protocol client.
type request struct {
	name   string
	client string
	addr   string
	stage  string
	path   string
	params [][]string
	post   bool
	data   interface{}
}

type payload struct {
	A string
	B []int
	M map[string]float64
}

var requests = []request{
	{name: "get", client: "h1", addr: "http://server:33075", path: "/run"},
	{name: "get params", client: "h 1&x=y", addr: "http://server:33075", stage: "s1", path: "/file", params: [][]string{{"stage", "a b&c=d+e%20/é"}, {"i", "3"}}},
	{name: "post nothing", client: "h1", addr: "http://server:33075", stage: "s1", path: "/run", post: true},
	{name: "post string", client: "h1", addr: "http://server:33075", stage: "s1", path: "/boot", post: true, data: "error: \"x\" <&> é\n"},
	{name: "post big", client: "h1", addr: "http://server:33075", stage: "s1", path: "/stats", post: true, data: payload{A: string(blob(200000)), B: []int{1, 2}, M: map[string]float64{"a": 1.5, "b": 2}}},
}

// wellFormed: what arrived is exactly the request.
func (q request) wellFormed(method, host, path string, query url.Values, body []byte) string {
	m := "GET"
	if q.post {
		m = "POST"
	}
	if method != m || path != q.path {
		return fmt.Sprintf("sent %s %s, expected %s %s", method, path, m, q.path)
	}
	if host != "" && "http://"+host != q.addr {
		return fmt.Sprintf("sent to %s, expected %s", host, q.addr)
	}
	want := url.Values{"name": {q.client}, "stage-id": {q.stage}}
	for _, p := range q.params {
		want[p[0]] = append(want[p[0]], p[1])
	}
	if query.Encode() != want.Encode() {
		return fmt.Sprintf("sent parameters %v, expected %v", query, want)
	}
	if q.data == nil {
		if len(body) > 0 {
			return fmt.Sprintf("sent body %q, expected none", cut(body))
		}
		return ""
	}
	b, _ := json.Marshal(q.data)
	if !bytes.Equal(bytes.TrimSpace(body), b) {
		return fmt.Sprintf("sent body %q, expected %q", cut(body), cut(b))
	}
	return ""
}

func cut(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("%s... (%d bytes)", b[:60], len(b))
	}
	return string(b)
}

func (q request) do(ctx context.Context, tries int, timeout, wait time.Duration) (*http.Response, []byte, error) {
	c := proto.NewClient(q.client, q.addr)
	c.StageId = q.stage
	r := proto.R{Timeout: timeout, Wait: wait, Tries: tries}
	if q.post {
		return nil, nil, c.Send(ctx, q.path, q.data, r)
	}
	return c.Get(ctx, q.path, q.params, r)
}

// retries20 explores every sequence of outcomes of one request.
// cancels: also cancel at every chosen point.
func retries20(q request, tries int, abc []outcome, limit int, cancels bool) func(*report.Ctx) {
	return func(c *report.Ctx) {
		c.Explore(&vsched.Scenario{
			Opts: vsched.Opts{Name: fmt.Sprintf("%s, %d tries, %d outcomes, cancel %v", q.name, tries, len(abc), cancels), Bound: 0, MaxSteps: 20000, Horizon: time.Hour},
			New: func() (func(), func(vsched.Run) (string, string)) {
				n := &simnet.Net{}
				var plan []outcome
				cancelAt, canceled := "", time.Time{}
				var t0, t1 time.Time
				var resp *http.Response
				var got []byte
				var err error
				returned := false
				body := func() {
					ctx, cancel := context.WithCancel(context.Background())
					defer cancel()
					cancelIn := func(d time.Duration) {
						vsched.Go(func() {
							vsched.Sleep(d)
							canceled = time.Now()
							cancel()
						})
					}
					n.Plan = func(a *simnet.Attempt) simnet.Fault {
						i := 0
						if limit == 0 || len(plan) < limit {
							i = vsched.Choose(len(abc))
						} else {
							i = 0 // success
						}
						o := abc[i]
						plan = append(plan, o)
						if cancels && cancelAt == "" && (limit == 0 || len(plan) <= limit) {
							switch vsched.Choose(4) {
							case 1:
								cancelAt = fmt.Sprintf("during attempt %d", len(plan))
								cancelIn(rtt / 2)
							case 2:
								cancelAt = fmt.Sprintf("after attempt %d", len(plan))
								d := rtt
								if o.hang {
									d = ctimeout
								} else if o.f.Delay > d {
									d = o.f.Delay
								}
								cancelIn(d + cwait/2)
							case 3:
								if o.hang {
									cancelAt = fmt.Sprintf("late in attempt %d", len(plan))
									cancelIn(ctimeout - rtt)
								}
							}
						}
						return o.f
					}
					finch.MakeHTTPClient = n.Client
					if cancels && vsched.Choose(2) == 1 {
						cancelAt = "before"
						cancel()
						canceled = time.Now()
					}
					t0 = time.Now()
					resp, got, err = q.do(ctx, tries, ctimeout, cwait)
					t1 = time.Now()
					returned = true
				}
				return body, func(r vsched.Run) (string, string) {
					var names []string
					for _, o := range plan {
						names = append(names, o.name)
					}
					what := strings.Join(names, ", ")
					if cancelAt != "" {
						what += " cancelled " + cancelAt
					}
					bad := func(f string, v ...interface{}) (string, string) {
						return "", what + ": " + fmt.Sprintf(f, v...)
					}
					if len(r.Panics) > 0 {
						return bad("panic: %v", r.Panics[0])
					}
					if !returned {
						return bad("the request did not return")
					}
					as := n.Attempts()
					if tries >= 0 && len(as) > tries {
						return bad("%d attempts, allowed %d", len(as), tries)
					}
					// what should have happened
					at := t0
					wantOK := -1
					for i, o := range plan {
						if i >= len(as) {
							break
						}
						a := as[i]
						if b := q.wellFormed(a.Method, a.Host, a.Path, a.Query, a.Body); b != "" {
							return bad("attempt %d: %s", i+1, b)
						}
						if d := a.At.Sub(at); d > time.Millisecond || d < -time.Millisecond {
							return bad("attempt %d started %s after the call, expected %s", i+1, a.At.Sub(t0), at.Sub(t0))
						}
						took := o.f.Delay
						if o.hang {
							took = ctimeout
						}
						end := a.At.Add(took)
						if !canceled.IsZero() && canceled.Before(end) {
							// ended by the cancellation
							if i != len(as)-1 {
								return bad("attempt %d made after cancellation", len(as))
							}
							break
						}
						if o.ok {
							wantOK = i
							if i != len(as)-1 {
								return bad("attempt %d made after success", i+2)
							}
							break
						}
						at = end.Add(cwait)
						if !canceled.IsZero() && canceled.Before(at) && i != len(as)-1 {
							return bad("attempt %d made after cancellation", len(as))
						}
					}
					if canceled.IsZero() && wantOK < 0 && tries >= 0 && len(as) != tries {
						return bad("gave up after %d attempts of %d", len(as), tries)
					}
					if wantOK >= 0 {
						o := plan[wantOK]
						if err != nil {
							return bad("failed (%v) although attempt %d succeeded", err, wantOK+1)
						}
						if !q.post {
							if resp == nil || resp.StatusCode != o.f.Status {
								return bad("response is %v, the server sent status %d", resp, o.f.Status)
							}
							if o.f.Status == 200 && !bytes.Equal(got, o.f.Body) {
								return bad("body has %d bytes, the server sent %d (or they differ)", len(got), len(o.f.Body))
							}
						}
						if d := t1.Sub(as[wantOK].At.Add(o.f.Delay)); d > time.Millisecond {
							return bad("returned %s after the response", d)
						}
					} else {
						if err == nil {
							return bad("success reported although no attempt succeeded")
						}
						last := at
						if !canceled.IsZero() {
							last = canceled.Add(cwait)
						}
						if t1.Sub(last) > time.Millisecond {
							return bad("returned %s after the last attempt or cancellation", t1.Sub(last))
						}
					}
					return fmt.Sprintf("%s: %v, %d attempts", what, err == nil, len(as)), ""
				}
			},
		})
	}
}

// loopback20 runs sequences of outcomes over real connections with net/http, to show
// that the simulated network behaves like it.
func loopback20(depth int) func(*report.Ctx) {
	return func(c *report.Ctx) {
		finch.MakeHTTPClient = realHTTP
		abc := []outcome{status(200, 0), status(200, 1), status(200, 5000), status(200, 300000), status(205, 0), status(500, 0), status(410, 20), status(503, 300000),
			{name: "refused", f: simnet.Fault{Err: true}},
			with(status(200, 300000), "cut", false, false, func(f *simnet.Fault) { f.Cut = true }),
		}
		hang := []outcome{{name: "no answer", hang: true, f: simnet.Fault{Hang: true}}, with(status(200, 300000), "stalled", false, true, func(f *simnet.Fault) { f.Stall = true })}
		run := func(q request, plan []outcome, timeout time.Duration) {
			var mu sync.Mutex
			n := 0
			bad := ""
			release := make(chan bool)
			srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				b, _ := io.ReadAll(r.Body)
				mu.Lock()
				i := n
				n++
				if m := q.wellFormed(r.Method, "", r.URL.Path, r.URL.Query(), b); m != "" && bad == "" {
					bad = fmt.Sprintf("attempt %d: %s", i+1, m)
				}
				mu.Unlock()
				if i >= len(plan) {
					w.WriteHeader(500)
					return
				}
				o := plan[i]
				switch {
				case o.f.Err:
					conn, _, _ := w.(http.Hijacker).Hijack()
					conn.(*net.TCPConn).SetLinger(0)
					conn.Close()
				case o.f.Hang:
					select {
					case <-release:
					case <-r.Context().Done():
					}
				case o.f.Cut, o.f.Stall:
					w.Header().Set("Content-Length", fmt.Sprint(len(o.f.Body)))
					w.WriteHeader(o.f.Status)
					w.Write(o.f.Body[:len(o.f.Body)/2])
					w.(http.Flusher).Flush()
					if o.f.Stall {
						select {
						case <-release:
						case <-r.Context().Done():
						}
					}
					conn, _, err := w.(http.Hijacker).Hijack()
					if err == nil {
						conn.Close()
					}
				default:
					w.WriteHeader(o.f.Status)
					if o.f.Status != 205 {
						w.Write(o.f.Body)
					}
				}
			}))
			srv.Config.SetKeepAlivesEnabled(false) // net/http itself resends on reused connections
			q.addr = srv.URL
			resp, got, err := q.do(context.Background(), len(plan), timeout, time.Millisecond)
			close(release)
			srv.CloseClientConnections()
			srv.Close()
			var names []string
			for _, o := range plan {
				names = append(names, o.name)
			}
			what := "net/http: " + q.name + ": " + strings.Join(names, ", ")
			mu.Lock()
			defer mu.Unlock()
			wantOK, wantN := false, len(plan)
			for i, o := range plan {
				if o.ok {
					wantOK, wantN = true, i+1
					break
				}
			}
			switch {
			case bad != "":
				c.Violate(what, what+": "+bad, names)
			case n != wantN:
				c.Violate(what, fmt.Sprintf("%s: %d attempts, expected %d", what, n, wantN), names)
			case (err == nil) != wantOK:
				c.Violate(what, fmt.Sprintf("%s: error %v, expected success: %v", what, err, wantOK), names)
			case wantOK && !q.post:
				o := plan[wantN-1]
				if resp == nil || resp.StatusCode != o.f.Status || (o.f.Status == 200 && !bytes.Equal(got, o.f.Body)) {
					c.Violate(what, fmt.Sprintf("%s: response differs from what the server sent (%d bytes of %d)", what, len(got), len(o.f.Body)), names)
				}
			}
			c.Case(what)
			c.State(0, 0, 1)
		}
		for _, q := range requests {
			var rec func(pre []outcome)
			rec = func(pre []outcome) {
				if len(pre) > 0 {
					if c.TimeUp() || c.Violated() {
						return
					}
					if len(pre) == depth || pre[len(pre)-1].ok {
						run(q, pre, 30*time.Second)
					}
				}
				if len(pre) == depth || (len(pre) > 0 && pre[len(pre)-1].ok) {
					return
				}
				for _, o := range abc {
					rec(append(append([]outcome{}, pre...), o))
				}
			}
			rec(nil)
			for _, o := range hang {
				if c.Violated() {
					return
				}
				run(q, []outcome{o, o}, 150*time.Millisecond)
			}
		}
	}
}

func TestC20(t *testing.T) {
	us := []report.Unit{}
	for i := range requests {
		q := requests[i]
		us = append(us,
			report.Unit{Name: q.name + ": all outcomes", Run: func(c *report.Ctx) {
				for tries := 1; tries <= 3; tries++ {
					retries20(q, tries, outcomes, 0, false)(c)
				}
				retries20(q, -1, outcomes, 3, false)(c)
			}},
			report.Unit{Name: q.name + ": cancellation", Run: func(c *report.Ctx) {
				for tries := 1; tries <= c.Pick(2, 3); tries++ {
					retries20(q, tries, outcomes, 0, true)(c)
				}
				retries20(q, -1, outcomes, 2, true)(c)
				retries20(q, 0, few, 0, true)(c)
			}},
			report.Unit{Name: q.name + ": long", Run: func(c *report.Ctx) {
				retries20(q, 10, []outcome{outcomes[8]}, 0, false)(c)
				retries20(q, 5, few, 0, false)(c)
				retries20(q, -1, []outcome{outcomes[0], outcomes[8]}, 10, false)(c)
			}},
			report.Unit{Name: q.name + ": more outcomes", Thorough: true, Run: func(c *report.Ctx) {
				retries20(q, 3, moreOutcomes, 0, false)(c)
				retries20(q, 4, outcomes, 0, false)(c)
				retries20(q, 3, few, 0, true)(c)
			}})
	}
	us = append(us, severalUnits()...)
	us = append(us, report.Unit{Name: "loopback", Run: func(c *report.Ctx) { loopback20(c.Pick(2, 3))(c) }})
	report.Main(t, report.Check{
		ID:    "C20",
		Level: "fault_enumeration",
		Rule:  "evaluation = one request with one sequence of outcomes of its attempts (and point of cancellation), on the real protocol client; distinct = by sequence and result",
		Assumptions: []string{"a response body cannot be read once the request's context is done (net/http closes the connection; small bodies may already be buffered)",
			"status 201-204 and 206-399 are not used by finch and not explored"},
		Units: us,
	})
}
