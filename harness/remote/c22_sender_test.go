package remote

import (
	"database/sql"
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/square/finch"
	"github.com/square/finch/stats"

	"finchverif/report"
	"finchverif/simnet"
	"finchverif/vsched"
)

// A remote's reporter by itself: a run of intervals whose requests fail at most
// twice each (a request is tried three times). Every interval must arrive, with
// what the collector reported, whatever is queued behind it.
type sender struct {
	n     int // intervals
	gaps  []time.Duration
	kinds []simnet.Fault
	total int // faults in an execution
}

var sendFaults = []simnet.Fault{
	{},
	{Name: "request lost, connection reset", NoServe: true, Err: true},
	{Name: "request lost, no answer", NoServe: true, Hang: true},
	{Name: "server error", NoServe: true, Status: 500, Body: []byte("busy")},
	{Name: "response lost, no answer", Hang: true},
}

func (s sender) explore(c *report.Ctx) {
	var bad, hist string
	o := vsched.Opts{Name: fmt.Sprintf("%d intervals, at most %d faults", s.n, s.total), MaxSteps: 100000}
	o.OpenDB = func(d, dsn string) (*sql.DB, error) { return nil, fmt.Errorf("not used") }
	c.Explore(&vsched.Scenario{Opts: o, New: func() (func(), func(vsched.Run) (string, string)) {
		bad, hist = "", ""
		body := func() {
			var log []string
			served := map[uint]int{}
			other := ""
			fails := map[uint]int{}
			left := s.total
			net := &simnet.Net{ServerTag: "server"}
			net.Up(http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
				vsched.NoPreempt(func() {
					b := make([]byte, req.ContentLength)
					n := 0
					for n < len(b) {
						k, err := req.Body.Read(b[n:])
						n += k
						if err != nil {
							break
						}
					}
					in, ok := parseStats(b[:n])
					if !ok || in.Hostname != fmt.Sprintf("h%d", in.Interval) || in.Total == nil || in.Total.N[stats.READ] != uint64(in.Interval) {
						other = fmt.Sprintf("the server received %s", b[:n])
					}
					if req.URL.Query().Get("stage-id") != "S1" || req.URL.Query().Get("name") != "r1" {
						other = "the server received " + req.URL.String()
					}
					served[in.Interval]++
					log = append(log, fmt.Sprintf("received %d", in.Interval))
				})
			}))
			net.Plan = func(a *simnet.Attempt) simnet.Fault {
				in, _ := parseStats(a.Body)
				log = append(log, fmt.Sprintf("attempt %d at %s", in.Interval, a.At.Format("05.000")))
				if left == 0 || fails[in.Interval] == 2 {
					return simnet.Fault{}
				}
				f := s.kinds[vsched.Choose(len(s.kinds))]
				if f.Name != "" {
					left--
					fails[in.Interval]++
					log = append(log, f.Name)
				}
				return f
			}
			finch.MakeHTTPClient = net.Client
			r, err := stats.NewServer(map[string]string{"server": "http://127.0.0.1:33075", "client": "r1", "stage-id": "S1"})
			if err != nil {
				bad = err.Error()
				return
			}
			for i := 1; i <= s.n; i++ {
				if g := s.gaps[vsched.Choose(len(s.gaps))]; g > 0 {
					vsched.Sleep(g)
				}
				in := stats.Instance{Hostname: fmt.Sprintf("h%d", i), Clients: 1, Interval: uint(i), Seconds: 1, Runtime: float64(i), Total: stats.NewStats(), Trx: map[string]*stats.Stats{}}
				for j := 0; j < i; j++ {
					in.Total.Record(stats.READ, int64(100+j))
				}
				log = append(log, fmt.Sprintf("report %d", i))
				r.Report([]stats.Instance{in})
			}
			r.Stop()
			log = append(log, "stopped")
			vsched.NoPreempt(func() {
				hist = strings.Join(log, "\n")
				bad = other
				for i := 1; i <= s.n && bad == ""; i++ {
					if served[uint(i)] == 0 {
						bad = fmt.Sprintf("the statistics of interval %d never reached the server, which answered all but %d attempts of it", i, fails[uint(i)])
					}
				}
			})
		}
		return body, func(r vsched.Run) (string, string) {
			b := broken(r)
			if b == "" {
				b = bad
			}
			if b != "" {
				return "", b + "\n" + hist
			}
			return hist, ""
		}
	}})
}

func senderUnits() []report.Unit {
	gaps := []time.Duration{0, 200 * ms, 650 * ms}
	return []report.Unit{
		{Name: "a reporter, 2 intervals", Run: func(c *report.Ctx) {
			sender{2, gaps, sendFaults, 4}.explore(c)
		}},
		{Name: "a reporter, 4 intervals", Run: func(c *report.Ctx) {
			sender{4, gaps, sendFaults[:3], c.Pick(3, 5)}.explore(c)
		}},
		{Name: "a reporter, 5 intervals at once", Run: func(c *report.Ctx) {
			sender{5, gaps[:1], sendFaults[1:4], c.Pick(6, 8)}.explore(c)
		}},
	}
}
