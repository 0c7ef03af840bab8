package conn

import (
	"context"
	"database/sql"
	"fmt"
	"io"
	"log"
	"os"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/square/finch"
	"github.com/square/finch/config"
	"github.com/square/finch/dbconn"

	"finchverif/report"
)

// conf is one configuration: settings of stage.mysql by name ("tls.ca" etc.),
// of my.cnf ("cnf.user" etc.), and of the command line ("--dsn").
type conf map[string]string

func (c conf) String() string {
	var l []string
	for k, v := range c {
		l = append(l, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// want is the connection a configuration must lead to.
type want struct {
	unjudged    bool
	fail        bool // an error, and no connection
	net, addr   string
	user        string
	pass        string
	db          string
	timeout     time.Duration
	tls         bool
	verify      bool   // the server's certificate is verified
	name        string // for this name
	ca          string // and this CA
	cert        string
	secrets     []string
	unjudgedTLS bool
}

const fileErr = "missing" // in the name of files that don't exist

func exists(f string) bool { return !strings.Contains(f, fileErr) }

// contents of password files.
var pwFiles = map[string]string{
	"pw.plain": "pf1", "pw.nl": "pf2\n", "pw.crlf": "pf3\r\n", "pw.special": "p@s:/f?#%2b(x) y", "pw.special-nl": "tcp(a)/b@c\n",
	"pw.spaces": " p f \t\n", "pw.nonl-empty": "",
}

func noPort(h string) string {
	if i := strings.LastIndexByte(h, ':'); i >= 0 && !strings.HasSuffix(h, "]") {
		return h[:i]
	}
	return h
}

func reference(c conf) (w want) {
	for _, k := range []string{"password", "cnf.password"} {
		if c[k] != "" {
			w.secrets = append(w.secrets, c[k])
		}
	}
	if f := c["password-file"]; f != "" && strings.TrimSpace(pwFiles[f]) != "" {
		w.secrets = append(w.secrets, strings.TrimSpace(pwFiles[f]))
	}
	for _, k := range []string{"dsn", "--dsn"} {
		if d := dsns[c[k]]; d.dsn != "" {
			w.secrets = append(w.secrets, d.pass)
		}
	}
	w.timeout = 10 * time.Second
	if t, ok := c["timeout-connect"]; ok && t != "" {
		d, err := time.ParseDuration(t)
		if err != nil || d < 0 {
			w.fail = true
			return
		}
		w.timeout = d
	}
	// Files of TLS must exist, and cert and key come together
	tls := conf{}
	for _, k := range []string{"ca", "cert", "key"} {
		tls[k] = c["tls."+k]
	}
	stageTLS := tls["ca"]+tls["cert"]+tls["key"] != ""
	dsn := c["--dsn"]
	if dsn == "" {
		dsn = c["dsn"]
	}
	if dsn != "" {
		if w.timeout != 10*time.Second { // documented as ignored
			w.timeout = 10 * time.Second
		}
		if stageTLS || c["password-file"] != "" && !exists(c["password-file"]) || c["mycnf"] != "" && !exists(c["mycnf"]) {
			// whether settings that don't apply can be wrong
			for _, k := range []string{"ca", "cert", "key"} {
				w.unjudged = w.unjudged || !exists(tls[k])
			}
			w.unjudged = w.unjudged || (tls["cert"] == "") != (tls["key"] == "")
		}
		d := dsns[dsn]
		if d.net == "" {
			w.fail = true
			return
		}
		w.net, w.addr, w.user, w.pass, w.db, w.timeout = d.net, d.addr, d.user, d.pass, d.db, d.timeout
		return
	}
	first := func(ks ...string) string {
		for _, k := range ks {
			if c[k] != "" {
				return c[k]
			}
		}
		return ""
	}
	if c["mycnf"] != "" && !exists(c["mycnf"]) || c["password-file"] != "" && !exists(c["password-file"]) {
		w.fail = true
	}
	w.db = first("--database", "db")

	// Address
	host, port := c["hostname"], ""
	stageHost := host != ""
	if host == "" {
		host, port = c["cnf.host"], c["cnf.port"]
	} else if noPort(host) == host && c["cnf.port"] != "" {
		w.unjudged = true // my.cnf port of another host?
	}
	socket := c["socket"]
	if socket == "" && !stageHost {
		socket = c["cnf.socket"]
		if socket != "" && c["cnf.host"] != "" {
			w.unjudged = true // my.cnf with both
		}
	}
	w.net, w.addr = "unix", socket
	if socket == "" {
		w.net = "tcp"
		w.addr = host
		if w.addr == "" {
			w.addr = "127.0.0.1"
		}
		if port != "" {
			if host == "" {
				w.addr = "127.0.0.1"
			}
			w.addr += ":" + port
		}
		if noPort(w.addr) == w.addr {
			w.addr += ":3306"
		}
	}

	// Credentials
	w.user, w.pass = first("username", "cnf.user"), first("password", "cnf.password")
	if f := c["password-file"]; f != "" {
		if c["password"] != "" {
			w.unjudged = true // which one
		}
		if pwFiles[f] != "" || w.pass != "" {
			w.pass = strings.TrimRight(pwFiles[f], "\r\n")
		}
		if pwFiles[f] == "" {
			w.unjudged = true
		}
	}
	if w.user == "" {
		w.user = "finch"
		if w.pass == "" {
			w.pass = "amazing"
		}
	}

	// TLS
	if c["tls.disable"] == "true" {
		w.unjudgedTLS = strings.HasSuffix(noPort(w.addr), ".rds.amazonaws.com") // auto TLS has its own setting
		return w
	}
	w.name = host
	if w.net == "tcp" {
		w.name = noPort(w.addr)
	} else if host != "" {
		w.name = noPort(host)
	} else if port != "" {
		w.unjudgedTLS = true // name of the default host, or none
	}
	cnfTLS := conf{"ca": c["cnf.ssl-ca"], "cert": c["cnf.ssl-cert"], "key": c["cnf.ssl-key"]}
	hasCnfTLS := cnfTLS["ca"]+cnfTLS["cert"]+cnfTLS["key"] != ""
	mode := strings.ToUpper(c["cnf.ssl-mode"])
	if mode == "DISABLED" || (mode == "" || mode == "PREFERRED") && c["cnf.socket"] != "" && w.net == "unix" {
		hasCnfTLS = false
	} else if (mode == "" || mode == "PREFERRED") && hasCnfTLS && (c["cnf.socket"] != "" || w.net == "unix") {
		w.unjudged = true
	}
	if stageTLS && hasCnfTLS {
		w.unjudged = true // how they combine
	}
	if mode == "REQUIRED" && !hasCnfTLS && !stageTLS {
		w.unjudgedTLS = true // no files: Finch needs at least one
	}
	if !stageTLS && hasCnfTLS {
		tls = cnfTLS
		w.tls = true
	}
	w.tls = w.tls || stageTLS
	if w.tls {
		for _, k := range []string{"ca", "cert", "key"} {
			w.fail = w.fail || !exists(tls[k])
		}
		w.fail = w.fail || (tls["cert"] == "") != (tls["key"] == "")
		w.ca, w.cert = tls["ca"], tls["cert"]
		w.verify = c["tls.skip-verify"] != "true" && w.name != ""
		return w
	}
	if w.net == "tcp" && strings.HasSuffix(w.name, ".rds.amazonaws.com") && c["disable-auto-tls"] != "true" {
		w.tls, w.verify, w.ca = true, true, "rds"
	}
	if c["tls.skip-verify"] == "true" && w.tls {
		w.unjudgedTLS = true
	}
	return w
}

type dsn struct {
	dsn, net, addr, user, pass, db string
	timeout                        time.Duration
}

var dsns = map[string]dsn{
	"d1":  {"du1:dp1-secret@tcp(dh1:1111)/dd1", "tcp", "dh1:1111", "du1", "dp1-secret", "dd1", 0},
	"d2":  {"du2:d@p:/2@unix(/d/2.sock)/?parseTime=true&timeout=7s", "unix", "/d/2.sock", "du2", "d@p:/2", "", 7 * time.Second},
	"d3":  {"du3:dp3-secret@tcp(x.rds.amazonaws.com)/dd3", "tcp", "x.rds.amazonaws.com:3306", "du3", "dp3-secret", "dd3", 0},
	"bad": {dsn: "bad:secret-of-bad@@@((", pass: "secret-of-bad"},
}

// ---------------------------------------------------------------------------

type lab struct {
	c   *report.Ctx
	s   *server
	dir string
	log *os.File
	n   int
	old map[string]int
}

func newLab(c *report.Ctx) *lab {
	dir, err := os.MkdirTemp("", "c28")
	must(err)
	l := &lab{c: c, dir: dir, s: newServer(dir)}
	l.s.register()
	for f, p := range pwFiles {
		must(os.WriteFile(dir+"/"+f, []byte(p), 0600))
	}
	must(os.WriteFile(dir+"/t.sql", []byte("SELECT 1\n"), 0644))
	l.log, err = os.Create(dir + "/log")
	must(err)
	*os.Stderr = *l.log // log and debug log
	finch.Debugging = true
	log.SetOutput(os.Stderr)
	return l
}

func (l *lab) close() { l.s.ln.Close(); os.RemoveAll(l.dir) }

func (l *lab) path(f string) string { return l.dir + "/" + f }

// write the files of a configuration; returns the stage file.
func (l *lab) write(c conf, n int) string {
	var b, cnf strings.Builder
	fmt.Fprintf(&b, "stage:\n  name: s\n  trx:\n    - file: t.sql\n  mysql:\n")
	var keys []string
	for k := range c {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	tls := ""
	fmt.Fprintf(&cnf, "[mysqld]\nuser=wrong\npassword=wrong\nhost=wrong\nport=1\nsocket=/wrong\nssl-ca=wrong\nskip-log-bin\n\n[client]\n")
	for _, k := range keys {
		v := c[k]
		switch {
		case strings.HasPrefix(k, "--"):
		case k == "mycnf":
		case strings.HasPrefix(k, "cnf."):
			k = k[4:]
			if strings.HasPrefix(k, "ssl-") && k != "ssl-mode" {
				v = l.path(v)
			}
			if strings.ContainsAny(v, "#;") {
				v = `"` + v + `"`
			}
			if k == "port" || k == "user" {
				v += " # comment"
			}
			fmt.Fprintf(&cnf, "%s = %s\n", k, v)
		case k == "tls.disable" || k == "tls.skip-verify":
			tls += fmt.Sprintf("      %s: %s\n", k[4:], v)
		case strings.HasPrefix(k, "tls."):
			tls += fmt.Sprintf("      %s: %q\n", k[4:], l.path(v))
		case k == "password-file":
			fmt.Fprintf(&b, "    %s: %q\n", k, l.path(v))
		case k == "disable-auto-tls":
			fmt.Fprintf(&b, "    %s: %s\n", k, v)
		case k == "dsn":
			fmt.Fprintf(&b, "    %s: %q\n", k, dsns[v].dsn)
		default:
			fmt.Fprintf(&b, "    %s: %q\n", k, v)
		}
	}
	if c["mycnf"] != "" {
		fmt.Fprintf(&b, "    mycnf: %q\n", l.path(fmt.Sprintf("%s%d", c["mycnf"], n)))
	}
	if tls != "" {
		b.WriteString("    tls:\n" + tls)
	}
	fmt.Fprintf(&cnf, "\n[mysql]\nuser=wrong\npassword=wrong\nport=1\n[client2]\nhost=wrong\nsocket=/wrong\n")
	must(os.WriteFile(l.path(fmt.Sprintf("my.cnf%d", n)), []byte(cnf.String()), 0600))
	f := l.path(fmt.Sprintf("stage%d.yaml", n))
	s := b.String()
	if strings.HasSuffix(s, "  mysql:\n") {
		s = strings.TrimSuffix(s, "  mysql:\n")
	}
	must(os.WriteFile(f, []byte(s), 0644))
	return f
}

// got is what happened.
type got struct {
	err   error
	shown string
	seen  []*seen
}

func (g got) String() string {
	var l []string
	for _, x := range g.seen {
		l = append(l, fmt.Sprintf("%s %s timeout %v user %q db %q auth %x tls %v %v for %q cert %q", x.net, x.addr, x.timeout.Round(time.Second), x.user, x.db, x.auth, x.tls, x.tlsOk, x.sni, x.cert))
	}
	return fmt.Sprintf("error %v, shown %q, connections: %s", g.err, g.shown, strings.Join(l, "; "))
}

func (l *lab) connect(db *sql.DB) got {
	l.s.take()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var g got
	conn, err := db.Conn(ctx)
	if err == nil {
		err = conn.Close()
	}
	g.err = err
	db.Close()
	l.s.wait.Wait()
	g.seen = l.s.take()
	return g
}

// judge what a configuration led to.
func judge(w want, g got, pre error) string {
	if w.unjudged {
		return ""
	}
	if w.fail {
		if pre == nil {
			return "no error"
		}
		if len(g.seen) > 0 {
			return "connected"
		}
		return ""
	}
	if pre != nil {
		return "error " + pre.Error()
	}
	if len(g.seen) == 0 {
		return "no connection"
	}
	for _, x := range g.seen {
		if x.addr == "localhost:4406" || x.addr == ":4406" {
			x.addr = "127.0.0.1:4406" // any name of this host
		}
		if x.net != w.net || x.addr != w.addr {
			return fmt.Sprintf("connected to %s %s, not %s %s", x.net, x.addr, w.net, w.addr)
		}
		if w.timeout == 0 && x.timeout != 0 || w.timeout != 0 && (x.timeout > w.timeout || x.timeout < w.timeout-500*time.Millisecond) {
			return fmt.Sprintf("connect timeout %v, not %v", x.timeout, w.timeout)
		}
		if w.unjudgedTLS {
			continue
		}
		if x.tls != w.tls {
			return fmt.Sprintf("TLS %v, not %v", x.tls, w.tls)
		}
		if w.tls {
			known := w.name == "db1" || w.name == "127.0.0.1" || w.name == "[::1]"
			if known && w.ca == "ca1.pem" || !w.verify {
				if !x.tlsOk {
					return "server rejected"
				}
				if cn := map[string]string{"": "", "cert.pem": "client1", "cert2.pem": "client2"}[w.cert]; x.cert != cn {
					return fmt.Sprintf("client certificate %q, not %q", x.cert, cn)
				}
			} else {
				if x.tlsOk || x.login || g.err == nil {
					return "accepted a server that is not the configured one"
				}
				if !known && x.sni != w.name {
					return fmt.Sprintf("TLS for %q, not %q", x.sni, w.name)
				}
				continue
			}
		}
		if g.err != nil || !x.login {
			return fmt.Sprintf("not connected: %v", g.err)
		}
		if x.user != w.user || x.db != w.db {
			return fmt.Sprintf("user %q db %q, not %q %q", x.user, x.db, w.user, w.db)
		}
		if string(x.auth) != string(scramble(w.pass)) {
			return fmt.Sprintf("password is not %q", w.pass)
		}
	}
	return ""
}

func (l *lab) files(s string) string { return strings.ReplaceAll(s, l.dir, "DIR") }

// run one configuration (load, connect from two pools).
func (l *lab) run(c conf) bool {
	if c["mycnf"] == "" {
		for k := range c {
			if strings.HasPrefix(k, "cnf.") {
				panic("my.cnf without mycnf: " + c.String())
			}
		}
	}
	l.n++
	must(l.log.Truncate(0))
	_, err := l.log.Seek(0, io.SeekStart)
	must(err)
	w := reference(c)
	fail := func(k, m string) bool {
		l.c.Violate(k, fmt.Sprintf("%s: %s", c, m), c)
		return false
	}
	file := l.write(c, 0)
	shown := ""
	var all got
	pre := func() error {
		stages, err := config.Load([]string{file}, nil, dsns[c["--dsn"]].dsn, c["--database"])
		if err != nil {
			return err
		}
		dbconn.SetConfig(stages[0].MySQL)
		var dbs []*sql.DB
		for i := 0; i < 2; i++ {
			db, s, err := dbconn.Make()
			if err != nil {
				return err
			}
			shown += s + "\n"
			dbs = append(dbs, db)
		}
		for _, db := range dbs {
			g := l.connect(db)
			all.seen = append(all.seen, g.seen...)
			all.err = g.err
		}
		return nil
	}()
	all.shown = shown
	b, err := os.ReadFile(l.path("log"))
	must(err)
	for _, s := range w.secrets {
		if strings.Contains(shown, s) {
			return fail("password shown", fmt.Sprintf("shown as %q", shown))
		}
		if pre != nil && strings.Contains(pre.Error(), s) {
			return fail("password in error", pre.Error())
		}
		if i := strings.Index(string(b), s); i >= 0 {
			from := strings.LastIndexByte(string(b)[:i], '\n') + 1
			if e := strings.IndexByte(string(b)[i:], '\n'); e > 0 {
				b = b[:i+e]
			}
			return fail("password logged", l.files(string(b[from:])))
		}
	}
	if m := judge(w, all, pre); m != "" {
		k := m
		if i := strings.IndexAny(k, ":0123456789\"/"); i > 0 {
			k = k[:i]
		}
		return fail(k, l.files(m+"; "+all.String()))
	}
	key := c.String()
	if w.unjudged {
		key = ""
	}
	l.c.Case(key)
	return !l.c.TimeUp()
}

// ---------------------------------------------------------------------------
// Settings

type setting struct {
	name string
	vals []string
}

var (
	user    = setting{"username", []string{"u1", "root user"}}
	pass    = setting{"password", []string{"pw1", "p@w:/2?#%41&=(x) y", "tcp(z)/q?a=b"}}
	pwFile  = setting{"password-file", []string{"pw.plain", "pw.nl", "pw.crlf", "pw.special", "pw.special-nl", "pw.spaces", "pw.missing"}}
	host    = setting{"hostname", []string{"db1", "db1:3307", "127.0.0.1", "127.0.0.1:3308", "x.rds.amazonaws.com", "y.rds.amazonaws.com:3309", "rds.amazonaws.com.other", "[::1]:3310"}}
	hosts   = setting{"hostname", []string{"db1", "db1:3307", "x.rds.amazonaws.com"}}
	socket  = setting{"socket", []string{"/s/my.sock"}}
	timeout = setting{"timeout-connect", []string{"5s", "1m", "0s", "-1s", "x", "5"}}
	db      = setting{"db", []string{"d1"}}
	cdb     = setting{"--database", []string{"cd1"}}
	cdsn    = setting{"--dsn", []string{"d1", "d2", "bad"}}
	sdsn    = setting{"dsn", []string{"d2", "d3", "bad"}}
	autoTLS = setting{"disable-auto-tls", []string{"true", "false"}}
	ca      = setting{"tls.ca", []string{"ca1.pem", "ca2.pem", "missing.pem"}}
	cert    = setting{"tls.cert", []string{"cert.pem", "missing.pem"}}
	key     = setting{"tls.key", []string{"key.pem", "missing.pem"}}
	skip    = setting{"tls.skip-verify", []string{"true", "false"}}
	disable = setting{"tls.disable", []string{"true", "false"}}
	mycnf   = setting{"mycnf", []string{"my.cnf"}}
	mycnf2  = setting{"mycnf", []string{"my.cnf", "missing.cnf"}}
	cuser   = setting{"cnf.user", []string{"cu1"}}
	cpass   = setting{"cnf.password", []string{"cpw1", "c@p:/2?#%4;1"}}
	chost   = setting{"cnf.host", []string{"ch1", "db1"}}
	cport   = setting{"cnf.port", []string{"4406"}}
	csocket = setting{"cnf.socket", []string{"/c/my.sock"}}
	cmode   = setting{"cnf.ssl-mode", []string{"DISABLED", "disabled", "PREFERRED", "REQUIRED"}}
	cca     = setting{"cnf.ssl-ca", []string{"ca1.pem", "missing.pem"}}
	ccert   = setting{"cnf.ssl-cert", []string{"cert2.pem"}}
	ckey    = setting{"cnf.ssl-key", []string{"key2.pem"}}
)

// product runs every configuration of the settings (each also unset) and the
// given fixed ones.
func (l *lab) product(fixed conf, ss ...setting) bool {
	var f func(i int, c conf) bool
	f = func(i int, c conf) bool {
		if i == len(ss) {
			d := conf{}
			for k, v := range c {
				if strings.HasPrefix(k, "cnf.") && c["mycnf"] != "my.cnf" {
					return true // the same as without
				}
				d[k] = v
			}
			return l.run(d)
		}
		if _, ok := fixed[ss[i].name]; ok {
			return f(i+1, c)
		}
		if !f(i+1, c) {
			return false
		}
		for _, v := range ss[i].vals {
			c[ss[i].name] = v
			if !f(i+1, c) {
				return false
			}
			delete(c, ss[i].name)
		}
		return true
	}
	c := conf{}
	for k, v := range fixed {
		c[k] = v
	}
	return f(0, c)
}

// order makes sure a configuration doesn't depend on the previous one: every
// sequence of configurations.
func order(c *report.Ctx) {
	l := newLab(c)
	defer l.close()
	cs := []conf{
		{},
		{"hostname": "db1", "tls.ca": "ca1.pem", "username": "u1", "password": "pw1"},
		{"hostname": "db1:3307", "tls.ca": "ca2.pem", "password-file": "pw.plain"},
		{"hostname": "127.0.0.1", "tls.ca": "ca1.pem", "tls.cert": "cert.pem", "tls.key": "key.pem", "timeout-connect": "5s"},
		{"socket": "/s/my.sock", "db": "d1"},
		{"hostname": "x.rds.amazonaws.com"},
		{"mycnf": "my.cnf", "cnf.user": "cu1", "cnf.password": "cpw1", "cnf.host": "ch1"},
		{"mycnf": "my.cnf", "cnf.socket": "/c/my.sock"},
		{"dsn": "d3"},
		{"--dsn": "d1"},
		{"tls.ca": "ca1.pem", "tls.skip-verify": "true", "hostname": "x.rds.amazonaws.com"},
		{"tls.ca": "missing.pem"},
		{"timeout-connect": "0s"},
	}
	depth := c.Pick(3, 4)
	var f func(n int) bool
	f = func(n int) bool {
		if n == 0 {
			return true
		}
		for _, k := range cs {
			if !l.run(k) || !f(n-1) {
				return false
			}
		}
		return true
	}
	f(depth)
}

func unit(ss ...setting) func(c *report.Ctx) {
	return func(c *report.Ctx) {
		l := newLab(c)
		defer l.close()
		l.product(nil, ss...)
	}
}

var everything = []setting{user, pass, pwFile, host, socket, timeout, db, cdb, cdsn, sdsn, autoTLS, ca, cert, key, skip, disable, mycnf2, cuser, cpass, chost, cport, csocket, cmode, cca, ccert, ckey}

// subsets runs all subsets of up to n settings, with all their values.
func subsets(n, part, parts int) func(c *report.Ctx) {
	return func(c *report.Ctx) {
		l := newLab(c)
		defer l.close()
		var f func(i, left int, d conf) bool
		f = func(i, left int, d conf) bool {
			if i == len(everything) || left == 0 {
				return true
			}
			if !f(i+1, left, d) {
				return false
			}
			s := everything[i]
			if left == n && i%parts != part {
				return true
			}
			for _, v := range s.vals {
				d[s.name] = v
				e := conf{}
				for k, v := range d {
					if strings.HasPrefix(k, "cnf.") && d["mycnf"] == "" {
						e["mycnf"] = "my.cnf"
					}
					e[k] = v
				}
				if !l.run(e) || !f(i+1, left-1, d) {
					return false
				}
				delete(d, s.name)
			}
			return true
		}
		f(0, n, conf{})
	}
}

func TestC28(t *testing.T) {
	us := []report.Unit{
		{Name: "credentials", Run: unit(user, pass, pwFile, mycnf2, cuser, cpass, hosts)},
		{Name: "address", Run: unit(host, socket, mycnf, chost, cport, csocket, autoTLS, cuser)},
		{Name: "data source", Run: unit(cdsn, sdsn, cdb, db, hosts, user, pass, socket, mycnf)},
		{Name: "timeout", Run: unit(timeout, db, cdb, socket, hosts, mycnf, chost, csocket)},
		{Name: "TLS", Run: unit(ca, cert, key, skip, disable, hosts, socket, autoTLS)},
		{Name: "TLS of my.cnf", Run: unit(mycnf, cca, ccert, ckey, cmode, chost, csocket, hosts, skip)},
		{Name: "TLS of both", Run: unit(mycnf, cca, cmode, ca, skip, disable, chost, csocket, hosts, autoTLS)},
		{Name: "order", Run: order},
	}
	for i := 0; i < 8; i++ {
		us = append(us, report.Unit{Name: fmt.Sprintf("sets of 3, part %d", i), Run: subsets(3, i, 8)})
	}
	for i := 0; i < 26; i++ {
		us = append(us, report.Unit{Name: fmt.Sprintf("sets of 5, part %d", i), Thorough: true, Run: subsets(5, i, 26)})
	}
	report.Main(t, report.Check{
		ID:    "C28",
		Level: "exploration",
		Rule:  "evaluation = one configuration loaded from files, two connection pools made, and each connected to a server behind the driver's dialer that records address, TLS and credentials; distinct = by settings",
		Assumptions: []string{
			"the real MySQL driver and its DSN parser are used as they are; the server side is a stand-in which speaks the handshake, TLS and mysql_native_password",
			"not judged: which of password and password-file wins, my.cnf with both host and socket, my.cnf port with a stage hostname, TLS settings in both stage and my.cnf, ssl-mode without files, empty password files, users containing ':', settings that don't apply because a DSN is set",
		},
		Units: us,
	})
}
