package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"github.com/openrdap/rdap"
)

// The world is what the command line tool can reach: a loopback HTTP proxy
// that plays every host. HTTPS is intercepted with a certificate nobody
// trusts, so only --insecure runs get through to it.

type hit struct {
	Method string
	URL    string // absolute; "host:port" for CONNECT
	Header http.Header
}

type reply struct {
	Status int
	Body   string
	Fault  string // "", conn, cut, stall (headers), stallbody, raw (the body is all that is sent)

	Wire     string // how the body is sent: "" (with its length), gzip (if allowed), chunked, close
	Location string
}

var world struct {
	once   sync.Once
	mu     sync.Mutex
	hits   []hit
	handle func(h hit) reply
	cert   tls.Certificate
	stall  chan struct{}
}

func startWorld() {
	world.once.Do(func() {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			infra("listen: %s", err)
		}
		key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		tpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "nobody"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour * 1000)}
		der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &key.PublicKey, key)
		if err != nil {
			infra("certificate: %s", err)
		}
		world.cert = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
		srv := &http.Server{Handler: http.HandlerFunc(serveWorld), ErrorLog: log.New(io.Discard, "", 0)}
		srv.SetKeepAlivesEnabled(false)
		go srv.Serve(ln)
		proxy := "http://" + ln.Addr().String()
		os.Setenv("HTTP_PROXY", proxy)
		os.Setenv("HTTPS_PROXY", proxy)
		os.Unsetenv("NO_PROXY")
	})
}

// setWorld makes |handle| answer all requests from now on.
func setWorld(c *Ctx, handle func(h hit) reply) {
	startWorld()
	stall := make(chan struct{})
	world.mu.Lock()
	world.hits, world.handle, world.stall = nil, handle, stall
	world.mu.Unlock()
	c.Cleanup(func() { close(stall) })
}

func takeHits() []hit {
	world.mu.Lock()
	defer world.mu.Unlock()
	h := world.hits
	world.hits = nil
	return h
}

func (h hit) String() string { return h.Method + " " + h.URL }

func decide(h hit) (reply, chan struct{}) {
	world.mu.Lock()
	world.hits = append(world.hits, h)
	f, st := world.handle, world.stall
	world.mu.Unlock()
	if f == nil {
		return reply{Status: 500}, st
	}
	return f(h), st
}

func serveWorld(w http.ResponseWriter, r *http.Request) {
	if r.Method == http.MethodConnect {
		decide(hit{"CONNECT", r.Host, nil})
		conn, _, err := w.(http.Hijacker).Hijack()
		if err != nil {
			return
		}
		defer conn.Close()
		io.WriteString(conn, "HTTP/1.1 200 OK\r\n\r\n")
		tc := tls.Server(conn, &tls.Config{Certificates: []tls.Certificate{world.cert}})
		defer tc.Close()
		req, err := http.ReadRequest(bufio.NewReader(tc))
		if err != nil {
			return
		}
		rep, stall := decide(hit{req.Method, "https://" + req.Host + req.RequestURI, req.Header})
		writeRaw(tc, rep, req.Header, stall)
		return
	}
	rep, stall := decide(hit{r.Method, r.RequestURI, r.Header})
	conn, _, err := w.(http.Hijacker).Hijack()
	if err != nil {
		return
	}
	defer conn.Close()
	writeRaw(conn, rep, r.Header, stall)
}

func writeRaw(conn io.Writer, rep reply, asked http.Header, stall chan struct{}) {
	switch rep.Fault {
	case "conn":
		return
	case "raw":
		io.WriteString(conn, rep.Body)
		return
	case "stall":
		<-stall
		return
	}
	n := len(rep.Body)
	body := rep.Body
	if rep.Fault == "cut" {
		n += 10
	}
	if rep.Fault == "stallbody" {
		body = body[:len(body)/2]
	}
	st := rep.Status
	if st == 0 {
		st = 200
	}
	length := fmt.Sprintf("Content-Length: %d\r\n", n)
	if rep.Location != "" {
		length += "Location: " + rep.Location + "\r\n"
	}
	switch {
	case rep.Fault != "":
	case rep.Wire == "gzip" && strings.Contains(asked.Get("Accept-Encoding"), "gzip"):
		var z bytes.Buffer
		w := gzip.NewWriter(&z)
		io.WriteString(w, body)
		w.Close()
		body = z.String()
		length = fmt.Sprintf("Content-Encoding: gzip\r\nContent-Length: %d\r\n", len(body))
	case rep.Wire == "chunked":
		var b strings.Builder
		for rest := body; len(rest) > 0; {
			n := min(len(rest), 1+len(body)/3)
			fmt.Fprintf(&b, "%x\r\n%s\r\n", n, rest[:n])
			rest = rest[n:]
		}
		body = b.String() + "0\r\n\r\n"
		length = "Transfer-Encoding: chunked\r\n"
	case rep.Wire == "close":
		length = ""
	}
	fmt.Fprintf(conn, "HTTP/1.1 %d X\r\nContent-Type: application/rdap+json\r\n%sConnection: close\r\n\r\n%s", st, length, body)
	if rep.Fault == "stallbody" {
		<-stall
	}
}

// ---------------------------------------------------------------- running the tool

type cliResult struct {
	exit           int
	stdout, stderr string
}

func (r cliResult) String() string {
	return fmt.Sprintf("exit %d, stdout %q, stderr %q", r.exit, head(r.stdout, 300), head(r.stderr, 300))
}

func runCLIWith(opt rdap.CLIOptions, args ...string) cliResult {
	startWorld()
	var o, e bytes.Buffer
	var r cliResult
	r.exit = rdap.RunCLI(append([]string{}, args...), &o, &e, opt)
	r.stdout, r.stderr = o.String(), e.String()
	return r
}

func runCLI(c *Ctx, args ...string) cliResult { return runCLIWith(rdap.CLIOptions{}, args...) }

// runBinary runs the rdap program itself, built by check.sh.
func runBinary(c *Ctx, args ...string) cliResult { return runBinaryTo(c, nil, args...) }

// runBinaryTo: standard output is |out|, if given.
func runBinaryTo(c *Ctx, out *os.File, args ...string) cliResult {
	startWorld()
	bin := os.Getenv("VERIF_RDAP_BIN")
	if bin == "" {
		infra("VERIF_RDAP_BIN is not set")
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = c.Scratch()
	cmd.Env = []string{"HOME=" + cmd.Dir, "PATH=", "TZ=UTC", "HTTP_PROXY=" + os.Getenv("HTTP_PROXY"), "HTTPS_PROXY=" + os.Getenv("HTTPS_PROXY")}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if out != nil {
		cmd.Stdout = out
	}
	var r cliResult
	if err := cmd.Run(); err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			infra("rdap: %s", err)
		}
		r.exit = ee.ExitCode()
	}
	r.stdout, r.stderr = o.String(), e.String()
	return r
}

func isPanic(r cliResult) bool {
	return r.exit == 2 || r.exit < 0 || strings.Contains(r.stderr, "goroutine ")
}
