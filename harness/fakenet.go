package main

// A DNS server and a release server under the harness's control.

import (
	"bufio"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

var (
	nxMu   sync.Mutex
	nxAddr string
	gh     *ghServer
)

// dnsServe answers queries on pc; answer returns the address (nil: no such name) and whether to answer.
func dnsServe(pc net.PacketConn, answer func() (ip net.IP, rcode byte, silent bool)) {
	buf := make([]byte, 1500)
	for {
		n, from, err := pc.ReadFrom(buf)
		if err != nil {
			return
		}
		if n < 12 {
			continue
		}
		q := append([]byte(nil), buf[:n]...)
		ip, rcode, silent := answer()
		if silent {
			continue
		}
		// the question ends after the name, type and class
		i := 12
		for i < n && q[i] != 0 {
			i += int(q[i]) + 1
		}
		if i+5 > n {
			continue
		}
		qtype := int(q[i+1])<<8 | int(q[i+2])
		out := append([]byte(nil), q[:i+5]...)
		out[2] = 0x81
		out[3] = 0x80 | rcode
		out[4], out[5] = 0, 1
		out[6], out[7], out[8], out[9], out[10], out[11] = 0, 0, 0, 0, 0, 0
		if ip != nil && qtype == 1 && rcode == 0 {
			out[7] = 1
			out = append(out, 0xc0, 12, 0, 1, 0, 1, 0, 0, 0, 1, 0, 4)
			out = append(out, ip.To4()...)
		}
		pc.WriteTo(out, from)
	}
}

// nxDNS returns the address of a DNS server that knows no names.
func nxDNS(e *Env) string {
	nxMu.Lock()
	defer nxMu.Unlock()
	if nxAddr == "" {
		pc, err := net.ListenPacket("udp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		go dnsServe(pc, func() (net.IP, byte, bool) { return nil, 3, false })
		nxAddr = pc.LocalAddr().String()
	}
	return nxAddr
}

// Resp is a scripted HTTP answer.
type Resp struct {
	Status   int               `json:"status"`
	Headers  map[string]string `json:"headers,omitempty"`
	Body     []byte            `json:"body,omitempty"`
	CutAt    int               `json:"cut,omitempty"`   // >0: announce the full length, send so many bytes, then close
	StallAt  int               `json:"stall,omitempty"` // >0: send so many bytes of the body (1-based), then nothing more
	StallHdr bool              `json:"stallhdr,omitempty"`
	Chunked  bool              `json:"chunked,omitempty"`
	RawReply []byte            `json:"raw,omitempty"` // instead of an HTTP answer
	Drip     bool              `json:"drip,omitempty"`
}

// Scenario is how the network behaves during a case.
type Scenario struct {
	DNS      string           `json:"dns,omitempty"`  // "" ok, nx, servfail, silent
	Conn     string           `json:"conn,omitempty"` // "" ok, refused, close, reset, stall, garbage, badcert
	Releases Resp             `json:"releases"`
	Second   *Resp            `json:"second,omitempty"` // answer to all but the first request for the release list
	Files    map[string]*Resp `json:"files,omitempty"`  // by path
}

type ghServer struct {
	mu      sync.Mutex
	sc      *Scenario
	log     []string
	conns   int
	lists   int
	open    map[net.Conn]bool
	ip      net.IP
	dnsAddr string
	caFile  string
	tlsGood *tls.Config
	tlsBad  *tls.Config
	ln      net.Listener
}

func selfCA(dir string) (string, *tls.Config, *tls.Config, error) {
	mkKey := func() *ecdsa.PrivateKey {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			panic(err)
		}
		return k
	}
	caKey := mkKey()
	caT := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "vh test CA"}, NotBefore: time.Now().Add(-48 * time.Hour),
		NotAfter: time.Now().Add(1000 * time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	caDER, err := x509.CreateCertificate(rand.Reader, caT, caT, &caKey.PublicKey, caKey)
	if err != nil {
		return "", nil, nil, err
	}
	leaf := func(parent *x509.Certificate, pk *ecdsa.PrivateKey) (*tls.Config, error) {
		k := mkKey()
		t := &x509.Certificate{SerialNumber: big.NewInt(2), Subject: pkix.Name{CommonName: "github"}, NotBefore: time.Now().Add(-48 * time.Hour),
			NotAfter: time.Now().Add(1000 * time.Hour), KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
			DNSNames: []string{"api.github.com", "github.com", "*.github.com", "*.githubusercontent.com"}}
		if parent == nil {
			parent, pk = t, k
		}
		der, err := x509.CreateCertificate(rand.Reader, t, parent, &k.PublicKey, pk)
		if err != nil {
			return nil, err
		}
		return &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: k}}, NextProtos: []string{"http/1.1"}}, nil
	}
	good, err := leaf(caT, caKey)
	if err != nil {
		return "", nil, nil, err
	}
	bad, err := leaf(nil, nil)
	if err != nil {
		return "", nil, nil, err
	}
	f := filepath.Join(dir, "ca.pem")
	if err := os.WriteFile(f, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: caDER}), 0o644); err != nil {
		return "", nil, nil, err
	}
	return f, good, bad, nil
}

// github starts (once) the fake release server of this worker and installs a scenario.
func (e *Env) github(sc *Scenario) (*ghServer, error) {
	if gh == nil {
		g := &ghServer{open: map[net.Conn]bool{}}
		g.ip = net.IPv4(127, byte(1+e.UID>>8%250), byte(e.UID), 7).To4()
		var err error
		g.caFile, g.tlsGood, g.tlsBad, err = selfCA(e.Scratch)
		if err != nil {
			return nil, err
		}
		for i := 0; ; i++ {
			g.ln, err = net.Listen("tcp", g.ip.String()+":443")
			if err == nil {
				break
			}
			if i > 20 {
				return nil, fmt.Errorf("fake release server: %w", err)
			}
			g.ip[3]++
		}
		pc, err := net.ListenPacket("udp", "127.0.0.1:0")
		if err != nil {
			return nil, err
		}
		g.dnsAddr = pc.LocalAddr().String()
		go dnsServe(pc, g.dns)
		go g.accept()
		gh = g
	}
	gh.mu.Lock()
	gh.sc = sc
	gh.log = nil
	gh.conns = 0
	gh.lists = 0
	for c := range gh.open {
		c.Close()
	}
	gh.open = map[net.Conn]bool{}
	gh.mu.Unlock()
	return gh, nil
}

func closeServers() {
	if gh != nil {
		gh.ln.Close()
	}
}

func (g *ghServer) dns() (net.IP, byte, bool) {
	g.mu.Lock()
	defer g.mu.Unlock()
	switch g.sc.DNS {
	case "nx":
		return nil, 3, false
	case "servfail":
		return nil, 2, false
	case "silent":
		return nil, 0, true
	}
	if g.sc.Conn == "refused" {
		other := append(net.IP(nil), g.ip...)
		other[3] += 100
		return other, 0, false
	}
	return g.ip, 0, false
}

func (g *ghServer) accept() {
	for {
		c, err := g.ln.Accept()
		if err != nil {
			return
		}
		g.mu.Lock()
		g.conns++
		g.open[c] = true
		sc := g.sc
		g.mu.Unlock()
		go g.serve(c, sc)
	}
}

func (g *ghServer) requests() []string {
	g.mu.Lock()
	defer g.mu.Unlock()
	return append([]string(nil), g.log...)
}

func (g *ghServer) connections() int {
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.conns
}

func (g *ghServer) done(c net.Conn) {
	g.mu.Lock()
	delete(g.open, c)
	g.mu.Unlock()
	c.Close()
}

func (g *ghServer) serve(c net.Conn, sc *Scenario) {
	hold := func() { // keep the connection open until the next case
		for {
			g.mu.Lock()
			alive := g.open[c]
			g.mu.Unlock()
			if !alive {
				return
			}
			time.Sleep(20 * time.Millisecond)
		}
	}
	conf := g.tlsGood
	switch sc.Conn {
	case "close":
		g.done(c)
		return
	case "reset":
		c.(*net.TCPConn).SetLinger(0)
		g.done(c)
		return
	case "stall":
		hold()
		return
	case "garbage":
		c.Write([]byte("SSH-2.0-OpenSSH_8.9\r\n\r\n\x00\x01\x02\x03"))
		g.done(c)
		return
	case "badcert":
		conf = g.tlsBad
	}
	t := tls.Server(c, conf)
	defer g.done(c)
	t.SetDeadline(time.Now().Add(120 * time.Second))
	if err := t.Handshake(); err != nil {
		return
	}
	br := bufio.NewReader(t)
	for {
		rq, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		g.mu.Lock()
		g.log = append(g.log, rq.Method+" "+rq.Host+rq.URL.RequestURI())
		g.mu.Unlock()
		var r *Resp
		if f := sc.Files[rq.URL.RequestURI()]; f != nil {
			r = f
		} else if strings.HasPrefix(rq.URL.Path, "/repos/") {
			r = &sc.Releases
			g.mu.Lock()
			g.lists++
			if g.lists > 1 && sc.Second != nil {
				r = sc.Second
			}
			g.mu.Unlock()
		} else {
			r = &Resp{Status: 404, Body: []byte("not found")}
		}
		if !g.answer(t, r, hold) {
			t.CloseWrite()
			return
		}
	}
}

// answer sends a scripted response; false means the connection ends.
func (g *ghServer) answer(t *tls.Conn, r *Resp, hold func()) bool {
	if r.RawReply != nil {
		t.Write(r.RawReply)
		return false
	}
	if r.StallHdr {
		t.Write([]byte("HTTP/1.1 200 OK\r\nServer: x\r\n"))
		hold()
		return false
	}
	status := r.Status
	if status == 0 {
		status = 200
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "HTTP/1.1 %d %s\r\nServer: x\r\nConnection: close\r\n", status, http.StatusText(status))
	for k, v := range r.Headers {
		fmt.Fprintf(&sb, "%s: %s\r\n", k, v)
	}
	if r.Chunked {
		sb.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		t.Write([]byte(sb.String()))
		cut := len(r.Body)
		if r.CutAt > 0 && r.CutAt <= cut {
			cut = r.CutAt - 1
		}
		for i := 0; i < cut; i += 1000 {
			j := i + 1000
			if j > cut {
				j = cut
			}
			fmt.Fprintf(t, "%x\r\n", j-i)
			t.Write(r.Body[i:j])
			t.Write([]byte("\r\n"))
		}
		if r.CutAt > 0 {
			return false
		}
		t.Write([]byte("0\r\n\r\n"))
		return false
	}
	fmt.Fprintf(&sb, "Content-Length: %d\r\n\r\n", len(r.Body))
	t.Write([]byte(sb.String()))
	switch {
	case r.StallAt > 0:
		n := r.StallAt - 1
		if n > len(r.Body) {
			n = len(r.Body)
		}
		t.Write(r.Body[:n])
		hold()
	case r.CutAt > 0:
		n := r.CutAt - 1
		if n > len(r.Body) {
			n = len(r.Body)
		}
		t.Write(r.Body[:n])
	default:
		t.Write(r.Body)
	}
	return false
}
