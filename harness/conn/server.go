// Package conn checks connections to MySQL.
package conn

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha1"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"sync"
	"time"

	"github.com/go-sql-driver/mysql"
)

// seen is what a server saw of one connection.
type seen struct {
	net, addr string
	timeout   time.Duration // 0: none
	tls       bool          // client asked for TLS
	tlsOk     bool          // and accepted the server's certificate
	sni       string
	cert      string // common name of the client's certificate
	user      string
	auth      []byte
	noPass    bool
	db        string
	login     bool // user and password were sent
}

// server is a MySQL server behind the driver's dial functions.
type server struct {
	mu   sync.Mutex
	dial sync.Mutex
	wait sync.WaitGroup
	log  []*seen
	conf *tls.Config
	ln   net.Listener
}

var salt = []byte("abcdefgh\x01\x02\x03\x04ijklmnop")

// scramble is the proof of a password of mysql_native_password.
func scramble(pw string) []byte {
	if pw == "" {
		return nil
	}
	h := func(l ...[]byte) []byte {
		s := sha1.New()
		for _, b := range l {
			s.Write(b)
		}
		return s.Sum(nil)
	}
	a := h([]byte(pw))
	b := h(salt, h(a))
	for i := range a {
		a[i] ^= b[i]
	}
	return a
}

func (s *server) register() {
	for _, n := range []string{"tcp", "unix"} {
		n := n
		mysql.RegisterDialContext(n, func(ctx context.Context, addr string) (net.Conn, error) {
			x := &seen{net: n, addr: addr}
			if d, ok := ctx.Deadline(); ok {
				x.timeout = time.Until(d)
			}
			s.mu.Lock()
			s.log = append(s.log, x)
			s.mu.Unlock()
			s.dial.Lock()
			defer s.dial.Unlock()
			c, err := net.Dial("unix", s.ln.Addr().String())
			must(err)
			r, err := s.ln.Accept()
			must(err)
			s.wait.Add(1)
			go func() { defer s.wait.Done(); s.serve(r, x) }()
			return c, nil
		})
	}
}

// take returns the connections since the last call.
func (s *server) take() []*seen {
	s.mu.Lock()
	defer s.mu.Unlock()
	l := s.log
	s.log = nil
	return l
}

func readPacket(c net.Conn) ([]byte, byte, error) {
	var h [4]byte
	if _, err := io.ReadFull(c, h[:]); err != nil {
		return nil, 0, err
	}
	b := make([]byte, int(h[0])|int(h[1])<<8|int(h[2])<<16)
	_, err := io.ReadFull(c, b)
	return b, h[3], err
}

func writePacket(c net.Conn, seq byte, b []byte) error {
	_, err := c.Write(append([]byte{byte(len(b)), byte(len(b) >> 8), byte(len(b) >> 16), seq}, b...))
	return err
}

func (s *server) serve(c net.Conn, x *seen) {
	defer c.Close()
	caps := uint32(0x00000001 | 0x00000004 | 0x00000008 | 0x00000200 | 0x00000800 | 0x00002000 | 0x00008000 | 0x00080000 | 0x00200000)
	g := []byte{10}
	g = append(g, "8.0.0\x00"...)
	g = append(g, 1, 0, 0, 0)
	g = append(g, salt[:8]...)
	g = append(g, 0, byte(caps), byte(caps>>8), 45, 2, 0, byte(caps>>16), byte(caps>>24), 21)
	g = append(g, make([]byte, 10)...)
	g = append(g, salt[8:]...)
	g = append(g, 0)
	g = append(g, "mysql_native_password\x00"...)
	if writePacket(c, 0, g) != nil {
		return
	}
	b, seq, err := readPacket(c)
	if err != nil {
		return
	}
	lock := func(f func()) { s.mu.Lock(); f(); s.mu.Unlock() }
	if len(b) == 32 { // SSLRequest
		lock(func() { x.tls = true })
		t := tls.Server(c, s.conf)
		err := t.Handshake()
		lock(func() {
			st := t.ConnectionState()
			x.sni = st.ServerName
			x.tlsOk = err == nil
			if len(st.PeerCertificates) > 0 {
				x.cert = st.PeerCertificates[0].Subject.CommonName
			}
		})
		if err != nil {
			io.Copy(io.Discard, c)
			return
		}
		c = t
		if b, seq, err = readPacket(c); err != nil {
			lock(func() { x.tlsOk = false }) // TLS 1.2: the client can still reject it
			return
		}
	}
	if len(b) < 33 {
		return
	}
	cl := uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
	p := b[32:]
	i := bytes.IndexByte(p, 0)
	user := string(p[:i])
	p = p[i+1:]
	n := int(p[0])
	auth := append([]byte(nil), p[1:1+n]...)
	p = p[1+n:]
	db := ""
	if cl&0x8 != 0 {
		i := bytes.IndexByte(p, 0)
		db = string(p[:i])
	}
	lock(func() { x.login, x.user, x.auth, x.db = true, user, auth, db })
	ok := []byte{0, 0, 0, 2, 0, 0, 0}
	if writePacket(c, seq+1, ok) != nil {
		return
	}
	for {
		b, seq, err := readPacket(c)
		if err != nil || len(b) > 0 && b[0] == 1 {
			return
		}
		if writePacket(c, seq+1, ok) != nil {
			return
		}
	}
}

// ---------------------------------------------------------------------------
// Certificates

type authority struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	pem  []byte
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func newCA(name string) *authority {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(100 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
	must(err)
	c, err := x509.ParseCertificate(der)
	must(err)
	return &authority{c, k, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})}
}

func (a *authority) issue(name string, dns []string, ips []net.IP) (cert, key []byte) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(2), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(100 * time.Hour),
		DNSNames: dns, IPAddresses: ips, KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
	der, err := x509.CreateCertificate(rand.Reader, t, a.cert, &k.PublicKey, a.key)
	must(err)
	b, err := x509.MarshalECPrivateKey(k)
	must(err)
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: b})
}

// newServer makes a server, and the files clients need in dir: ca1.pem (its
// CA), ca2.pem (another), cert.pem, key.pem, cert2.pem, key2.pem.
func newServer(dir string) *server {
	a, b := newCA("ca1"), newCA("ca2")
	write := func(n string, d []byte) { must(os.WriteFile(dir+"/"+n, d, 0600)) }
	write("ca1.pem", a.pem)
	write("ca2.pem", b.pem)
	for i, n := range []string{"cert", "cert2"} {
		c, k := a.issue(fmt.Sprintf("client%d", i+1), nil, nil)
		write(n+".pem", c)
		write("key"+n[4:]+".pem", k)
	}
	c, k := a.issue("server", []string{"db1", "localhost"}, []net.IP{net.ParseIP("127.0.0.1"), net.ParseIP("::1")})
	pair, err := tls.X509KeyPair(c, k)
	must(err)
	ln, err := net.Listen("unix", dir+"/sock")
	must(err)
	return &server{ln: ln, conf: &tls.Config{Certificates: []tls.Certificate{pair}, ClientAuth: tls.RequestClientCert, SessionTicketsDisabled: true}}
}
