package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
	"github.com/openrdap/rdap/bootstrap/cache"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C37

type resOp struct {
	Kind     string // do, helper, lookup, download, cancelled
	Boot     int    // bootKinds index, -1 explicit server (do)
	Type     int
	Query    int
	Reg      string // outcome of registry downloads: ok, conn, status, bad, cut, shape, redirect
	Status   int
	Outcomes []outcome
	Cancel   bool // cancelled while the answer is read
	Timeout  bool // the request has a timeout
	Age      bool // the cached registries expire first
	Damage   bool // the cached registries are damaged first
}

type resCase struct {
	Disk bool
	Ops  []resOp
}

func genRes(t *rapid.T) resCase {
	k := resCase{Disk: chance(t, "disk", 40)}
	for i := intn(t, "ops", 1, 5); i > 0; i-- {
		op := resOp{Kind: pick(t, "kind", "do", "do", "do", "helper", "lookup", "download", "download"), Boot: uni(t, "boot", 6) - 1, Type: uni(t, "type", len(reqKinds)), Query: uni(t, "q", 5)}
		op.Reg = pick(t, "reg", "ok", "ok", "ok", "conn", "status", "status", "bad", "cut", "shape", "redirect", "empty")
		op.Status = pick(t, "rst", 204, 206, 301, 304, 400, 403, 404, 429, 500, 503)
		for j := intn(t, "n", 1, 3); j > 0; j-- {
			op.Outcomes = append(op.Outcomes, genOutcome(t))
		}
		op.Cancel, op.Timeout, op.Age, op.Damage = chance(t, "cancel", 10), chance(t, "timeout", 30), chance(t, "age", 30), chance(t, "damage", 15)
		k.Ops = append(k.Ops, op)
	}
	return k
}

// A ledger of the response bodies handed out.
type ledger struct {
	mu   sync.Mutex
	open map[string]int
	n    int
}

type ledgerBody struct {
	io.Reader
	l    *ledger
	what string
	once sync.Once
}

func (b *ledgerBody) Close() error {
	b.once.Do(func() {
		b.l.mu.Lock()
		defer b.l.mu.Unlock()
		if b.l.open[b.what]--; b.l.open[b.what] == 0 {
			delete(b.l.open, b.what)
		}
	})
	return nil
}

func (l *ledger) hand(r *http.Response, what string) *http.Response {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.open[what]++
	l.n++
	r.Body = &ledgerBody{Reader: r.Body, l: l, what: what}
	return r
}

func (l *ledger) left() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	var out []string
	for w, n := range l.open {
		out = append(out, fmt.Sprintf("%s (%d)", w, n))
	}
	return strings.Join(out, ", ")
}

// plainCtx is a context that the context package does not know: contexts
// derived from it have a goroutine each until they are cancelled.
type plainCtx struct {
	context.Context
	done chan struct{}
	once *sync.Once
}

func newPlainCtx() plainCtx {
	return plainCtx{context.Background(), make(chan struct{}), new(sync.Once)}
}
func (p plainCtx) Done() <-chan struct{} { return p.done }
func (p plainCtx) cancel()               { p.once.Do(func() { close(p.done) }) }
func (p plainCtx) Err() error {
	select {
	case <-p.done:
		return context.Canceled
	default:
		return nil
	}
}

type cancelReader struct {
	r      io.Reader
	cancel func()
}

func (c *cancelReader) Read(p []byte) (int, error) {
	if len(p) > 10 {
		p = p[:10]
	}
	n, err := c.r.Read(p)
	c.cancel()
	return n, err
}

func openFiles() []string {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		infra("%s", err)
	}
	var out []string
	for _, e := range es {
		l, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && strings.HasPrefix(l, "/") && !strings.HasPrefix(l, "/proc/") && !strings.HasPrefix(l, "/dev/") {
			out = append(out, l)
		}
	}
	return out
}

// libGoroutines lists the goroutines that the package's code started or runs,
// and those of contexts which were derived and not released.
func libGoroutines() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for i, g := range strings.Split(string(buf), "\n\n") {
		if i > 0 && (strings.Contains(g, "openrdap/rdap.") || strings.Contains(g, "openrdap/rdap/bootstrap") || strings.Contains(g, "propagateCancel")) {
			out = append(out, g)
		}
	}
	return strings.Join(out, "\n\n")
}

func checkRes(c *Ctx, k resCase) error {
	dir := c.Scratch()
	l := &ledger{open: map[string]int{}}
	var op resOp
	var servers []string
	var cancel func()
	tr := roundTripFunc(func(r *http.Request) (*http.Response, error) {
		if err := r.Context().Err(); err != nil {
			return nil, err
		}
		if r.URL.Host == "data.iana.org" || r.URL.Host == "elsewhere.example" {
			reg := regIndex(r.URL.String())
			if reg < 0 {
				return nil, errors.New("no such file")
			}
			doc := multiRegDoc(reg, servers)
			kind := op.Reg
			if r.URL.Host == "elsewhere.example" {
				kind = "ok"
			}
			switch kind {
			case "conn":
				return nil, errors.New("connection refused")
			case "status":
				return l.hand(httpResp(op.Status, doc), fmt.Sprintf("registry with status %d", op.Status)), nil
			case "bad":
				return l.hand(httpResp(200, doc[:len(doc)/2]), "malformed registry"), nil
			case "shape":
				return l.hand(httpResp(200, []byte(`{"services": 5}`)), "misshapen registry"), nil
			case "cut":
				resp := httpResp(200, doc)
				resp.Body = io.NopCloser(&truncReader{b: doc[:len(doc)/2]})
				return l.hand(resp, "cut registry"), nil
			case "redirect":
				resp := httpResp(302, []byte("moved"))
				resp.Header.Set("Location", "https://elsewhere.example/"+regFiles[reg])
				return l.hand(resp, "redirect of a registry"), nil
			}
			if kind == "empty" {
				return l.hand(httpResp(200, nil), "empty registry"), nil
			}
			return l.hand(httpResp(200, doc), "registry"), nil
		}
		m := serverPath.FindStringSubmatch(r.URL.Path)
		if m == nil {
			return nil, errors.New("no such host")
		}
		i := int(m[1][0] - '0')
		if i >= len(op.Outcomes) {
			return nil, errors.New("no such host")
		}
		o := op.Outcomes[i]
		if o.Redir != 0 && r.URL.Host != "moved.example" {
			resp := httpResp(o.Redir, []byte("moved"))
			resp.Header.Set("Location", "https://moved.example"+r.URL.RequestURI())
			return l.hand(resp, "redirect"), nil
		}
		body := []byte(o.Body)
		switch o.Kind {
		case "conn":
			return nil, errors.New("connection refused")
		case "ok", "cut":
			body = o.answer(i)
		}
		resp := httpResp(o.Status, body)
		if o.NoLen {
			resp.ContentLength = -1
		}
		if o.Kind == "cut" {
			resp.Body = io.NopCloser(&truncReader{b: body[:len(body)/2]})
		} else if op.Cancel {
			resp.Body = io.NopCloser(&cancelReader{resp.Body, cancel})
		}
		return l.hand(resp, fmt.Sprintf("response %q with status %d", o.Kind, o.Status)), nil
	})
	hc := &http.Client{Transport: tr}
	boot := &bootstrap.Client{HTTP: hc}
	newCache := func() {
		if k.Disk {
			dc := cache.NewDiskCache()
			dc.Dir = dir
			boot.Cache = dc
		} else {
			boot.Cache = cache.NewMemoryCache()
		}
	}
	newCache()
	cl := &rdap.Client{HTTP: hc, Bootstrap: boot}
	before := openFiles()
	for i := range k.Ops {
		op = k.Ops[i]
		if op.Age || op.Damage {
			if k.Disk {
				fs, _ := filepath.Glob(filepath.Join(dir, "*"))
				for _, f := range fs {
					if op.Damage {
						os.WriteFile(f, []byte("{"), 0o600)
					}
					if op.Age {
						old := time.Now().Add(-1000 * time.Hour)
						os.Chtimes(f, old, old)
					}
				}
			} else {
				newCache()
			}
		}
		servers = nil
		for j, o := range op.Outcomes {
			s := serverFor(j, o, 0)
			if u, err := url.Parse(s); err != nil || u == nil {
				s = "foo"
			}
			servers = append(servers, s)
		}
		ctx := newPlainCtx()
		cf := ctx.cancel
		cancel = func() {}
		if op.Cancel {
			cancel = cf
		}
		boots := op.Boot
		if boots < 0 && op.Kind != "do" {
			boots = 0
		}
		switch op.Kind {
		case "do":
			var req *rdap.Request
			if boots >= 0 {
				bk := bootKinds[boots]
				req = &rdap.Request{Type: bk.typ, Query: bk.queries[op.Query%len(bk.queries)]}
			} else {
				u, _ := url.Parse("https://s0.example/p0/")
				req = &rdap.Request{Type: reqKinds[op.Type].typ, Query: "q", Server: u}
			}
			if op.Timeout {
				req.Timeout = time.Hour
			}
			cl.Do(req.WithContext(ctx))
		case "helper":
			switch boots {
			case 1, 2:
				cl.QueryIP(bootKinds[boots].queries[0])
			case 3:
				cl.QueryAutnum("AS64500")
			default:
				cl.QueryDomain("example.com")
			}
		case "lookup":
			bk := bootKinds[boots]
			q := &bootstrap.Question{RegistryType: regTypes[bk.reg], Query: bk.queries[0]}
			boot.Lookup(q.WithContext(ctx))
		case "download":
			boot.DownloadWithContext(ctx, regTypes[bootKinds[boots].reg])
		}
		what := fmt.Sprintf("operation %d (%s, registry %s)", i, op.Kind, op.Reg)
		if s := l.left(); s != "" {
			cf()
			return errf("%s: not closed: %s", what, s)
		}
		if now := openFiles(); len(now) > len(before) {
			cf()
			return errf("%s: files left open: %q, before %q", what, now, before)
		}
		// No goroutine of the package's stays, though the context lives on.
		for wait := time.Millisecond; ; wait *= 2 {
			s := libGoroutines()
			if s == "" {
				break
			}
			if wait > 4*time.Second {
				cf()
				return errf("%s: still running afterwards:\n%s", what, s)
			}
			time.Sleep(wait)
		}
		cf()
		c.LabelIf(op.Cancel, "cancelled while reading")
		c.LabelIf(op.Kind == "download" || op.Kind == "lookup", "registry "+op.Reg)
	}
	c.LabelIf(k.Disk, "disk cache")
	c.NonTrivial(l.n > 0)
	return nil
}

func init() {
	register(&Prop{ID: "C37", Level: "exploration",
		Rule: "histories of 1-5 queries, typed helpers, lookups and downloads over memory and disk caches, with every generated outcome of servers and registry downloads (usable, redirected, cut, cancelled while read, error status, undecodable, refused). Oracle: after each operation every response body handed out was closed, no more files are open than before, and no goroutine runs or was started by the package's code. Non-trivial when at least one response was handed out.",
		Subs: []*Sub{sub("resources", 24000, 250000, genRes, checkRes)}})
}
