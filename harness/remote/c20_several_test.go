package remote

import (
	"bytes"
	"context"
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/square/finch"
	"github.com/square/finch/proto"

	"finchverif/report"
	"finchverif/simnet"
	"finchverif/vsched"
)

// Several requests of one protocol client, one after another or at the same time
// (a client pings while it sends its result): none is changed by another.

func several20(qs []request, tries int, abc []outcome, together bool, bound int) func(*report.Ctx) {
	return func(c *report.Ctx) {
		var names []string
		for _, q := range qs {
			names = append(names, q.name)
		}
		c.Explore(&vsched.Scenario{
			Opts: vsched.Opts{Name: fmt.Sprintf("%s, %d tries, %d outcomes, together %v", strings.Join(names, ", "), tries, len(abc), together), Bound: bound, SiteCap: 1, MaxSteps: 20000, Horizon: time.Hour},
			New: func() (func(), func(vsched.Run) (string, string)) {
				type result struct {
					resp *http.Response
					body []byte
					err  error
					done bool
				}
				n := &simnet.Net{}
				res := make([]result, len(qs))
				plan := make([][]outcome, len(qs))
				atts := make([][]*simnet.Attempt, len(qs))
				next := 0 // one after another: the request that is made
				body := func() {
					n.Plan = func(a *simnet.Attempt) simnet.Fault {
						i := next
						if together {
							for i = range qs {
								if qs[i].path == a.Path {
									break
								}
							}
						}
						o := abc[vsched.Choose(len(abc))]
						plan[i], atts[i] = append(plan[i], o), append(atts[i], a)
						return o.f
					}
					finch.MakeHTTPClient = n.Client
					cl := proto.NewClient("h1", "http://server:33075")
					cl.StageId = "s1"
					ch := make(chan bool, len(qs))
					for i := range qs {
						i := i
						do := func() {
							q, r := qs[i], proto.R{Timeout: ctimeout, Wait: cwait, Tries: tries}
							x := &res[i]
							if q.post {
								x.err = cl.Send(context.Background(), q.path, q.data, r)
							} else {
								x.resp, x.body, x.err = cl.Get(context.Background(), q.path, q.params, r)
							}
							x.done = true
							ch <- true
						}
						if together {
							vsched.Go(do)
						} else {
							next = i
							do()
						}
					}
					for range qs {
						select {
						case <-ch:
						case <-vsched.Killed():
							vsched.Exit()
						}
						vsched.Point()
					}
				}
				return body, func(r vsched.Run) (string, string) {
					var what string
					for i, p := range plan {
						what += qs[i].name + ":"
						for _, o := range p {
							what += " " + o.name
						}
						what += "; "
					}
					if b := broken(r); b != "" {
						return "", what + b
					}
					for i, q := range qs {
						x := res[i]
						bad := func(f string, v ...interface{}) (string, string) {
							return "", what + q.name + ": " + fmt.Sprintf(f, v...)
						}
						if !x.done {
							return bad("the request did not return")
						}
						if len(atts[i]) > tries {
							return bad("%d attempts, allowed %d", len(atts[i]), tries)
						}
						ok := -1
						for k, a := range atts[i] {
							if b := q.wellFormed(a.Method, a.Host, a.Path, a.Query, a.Body); b != "" {
								return bad("attempt %d: %s", k+1, b)
							}
							if ok >= 0 {
								return bad("attempt %d made after success", k+1)
							}
							if plan[i][k].ok {
								ok = k
							}
						}
						switch {
						case ok < 0 && len(atts[i]) != tries:
							return bad("gave up after %d attempts of %d", len(atts[i]), tries)
						case (ok >= 0) != (x.err == nil):
							return bad("error %v, expected success: %v", x.err, ok >= 0)
						case ok >= 0 && !q.post:
							o := plan[i][ok]
							if x.resp == nil || x.resp.StatusCode != o.f.Status {
								return bad("response is %v, the server sent status %d", x.resp, o.f.Status)
							}
							if o.f.Status == 200 && !bytes.Equal(x.body, o.f.Body) {
								return bad("body has %d bytes, the server sent %d (or they differ)", len(x.body), len(o.f.Body))
							}
						}
					}
					return what, ""
				}
			},
		})
	}
}

var severalRequests = []request{
	{name: "ping", path: "/ping"},
	{name: "file", path: "/file", params: [][]string{{"stage", "a b"}, {"i", "3"}}},
	{name: "run", path: "/run", post: true, data: "error: x"},
	{name: "stats", path: "/stats", post: true, data: payload{A: string(blob(3000)), B: []int{1}}},
	{name: "boot", path: "/boot", post: true},
}

func severalUnits() (us []report.Unit) {
	for i := range severalRequests {
		severalRequests[i].client, severalRequests[i].addr, severalRequests[i].stage = "h1", "http://server:33075", "s1"
	}
	two := []outcome{outcomes[2], outcomes[8]}
	us = append(us, report.Unit{Name: "one client: many failures", Run: func(c *report.Ctx) {
		for _, a := range severalRequests {
			var qs []request
			for len(qs) < 5 {
				qs = append(qs, a)
				several20(qs, 10, outcomes[8:9], false, 0)(c)
				several20(append(qs[:len(qs):len(qs)], severalRequests...), 25, outcomes[5:6], false, 0)(c)
			}
		}
	}})
	for _, a := range severalRequests {
		for _, b := range severalRequests {
			a, b := a, b
			us = append(us, report.Unit{Name: "one client: " + a.name + ", " + b.name, Run: func(c *report.Ctx) {
				several20([]request{a, b}, 1, outcomes, false, 0)(c)
				several20([]request{a, b}, 2, few, false, 0)(c)
				for _, x := range severalRequests {
					several20([]request{a, b, x}, 2, two, false, 0)(c)
				}
				if a.path != b.path {
					several20([]request{a, b}, 2, two, true, c.Pick(1, 2))(c)
					several20([]request{a, b}, 1, []outcome{outcomes[0], outcomes[3]}, true, c.Pick(2, 3))(c)
				}
			}})
		}
	}
	return
}
