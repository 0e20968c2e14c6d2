package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"

	"github.com/openrdap/rdap/bootstrap"
	"github.com/openrdap/rdap/bootstrap/cache"
	"pgregory.net/rapid"
)

var regTypes = []bootstrap.RegistryType{bootstrap.DNS, bootstrap.IPv4, bootstrap.IPv6, bootstrap.ASN, bootstrap.ServiceProvider}
var regFiles = []string{"dns.json", "ipv4.json", "ipv6.json", "asn.json", "object-tags.json"}
var regQueries = []string{"www.example.com", "192.0.2.77", "2001:db8::77", "AS64500", "H1-VRSN"}
var regEntries = []string{"com", "192.0.2.0/24", "2001:db8::/32", "64496-64511", "VRSN"}
var regNames = []string{"dns", "ipv4", "ipv6", "asn", "object-tags"}

func regURL(reg, version int, base string) string {
	return fmt.Sprintf("https://%s-v%d.%s.example/rdap/", regNames[reg], version, base)
}

// regDoc is version |version| of registry |reg| as published by |base|.
func regDoc(reg, version int, base string) []byte {
	// Versions differ in size: a later file can be shorter or longer.
	// Some versions have the same size, and a later one may be dated earlier
	// or the same.
	pad := strings.Repeat("x", []int{40, 40, 0, 300, 7, 7}[version%6])
	pub := []string{"2024-01-01T00:00:00Z", "2024-06-01T00:00:00Z", "2024-01-01T00:00:00Z", "2023-12-31T00:00:00Z", "2025-01-01T00:00:00Z", "2024-02-01T00:00:00Z", "2024-02-01T00:00:00Z"}[version%7]
	f := RegFile{Desc: fmt.Sprintf("version %d%s", version, pad), Ver: "1.0", Pub: pub,
		Services: []Service{{Entries: []string{regEntries[reg]}, URLs: []string{regURL(reg, version, base)}, Contact: reg == 4}}}
	return f.JSON()
}

func regIndex(path string) int {
	for i, f := range regFiles {
		if strings.HasSuffix(path, "/"+f) {
			return i
		}
	}
	return -1
}

// accessorVersion returns the version visible through the accessor, 0 for nil.
func accessorVersion(c *bootstrap.Client, reg int) (int, error) {
	var f *bootstrap.File
	switch reg {
	case 0:
		if r := c.DNS(); r != nil {
			f = r.File()
		}
	case 1:
		if r := c.IPv4(); r != nil {
			f = r.File()
		}
	case 2:
		if r := c.IPv6(); r != nil {
			f = r.File()
		}
	case 3:
		if r := c.ASN(); r != nil {
			f = r.File()
		}
	case 4:
		if r := c.ServiceProvider(); r != nil {
			f = r.File()
		}
	}
	if f == nil {
		return 0, nil
	}
	us := f.Entries[regEntries[reg]]
	if len(us) != 1 {
		return 0, errf("accessor %s returned a registry without the entry %q", regNames[reg], regEntries[reg])
	}
	v := 0
	fmt.Sscanf(us[0].Host, regNames[reg]+"-v%d.", &v)
	if v == 0 {
		return 0, errf("accessor %s returned the registry of another type: %s", regNames[reg], us[0])
	}
	return v, nil
}

// ---------------------------------------------------------------- C06, C07

type bsOp struct {
	Kind   string // lookup, download, accessor, publish, age, ageYoungRestart, restart, corrupt, delete, ttl
	Reg    int
	Client int
	Fault  string // what happens if the operation needs the network
	Margin int    // minutes
	Wrong  bool   // lookup asks for something the registry does not list
}

type bsCase struct {
	Mode   string // memory, default, disk
	TTLmin int    // minutes, 0: the cache's default (24 hours)
	Pad    int    // bytes of white space in the published files
	Redir  int    // the registry server redirects with this status first
	NoLen  bool   // no Content-Length
	CType  string
	Hdr    int // respHeaders index
	Ops    []bsOp
}

var faults = []string{"conn", "status", "truncbody", "badjson", "badservices", "empty", "save", "ctx", "html"}

func genBsCase(withFaults bool) func(t *rapid.T) bsCase {
	return func(t *rapid.T) bsCase {
		k := bsCase{Mode: pick(t, "mode", "memory", "default", "disk", "disk", "disk")}
		k.TTLmin = pick(t, "ttl", 0, 0, 60, 6000)
		if k.Mode == "default" {
			k.TTLmin = 0
		}
		if intn(t, "big", 0, 299) == 299 {
			k.Pad = pick(t, "pad", 5000, 70000, 300000, 1100000, 2200000)
		}
		if chance(t, "redir", 8) {
			k.Redir = pick(t, "rst", 301, 302, 303, 307, 308)
		}
		k.NoLen = chance(t, "nolen", 30)
		if chance(t, "hdr", 40) {
			k.Hdr = uni(t, "hdrn", len(respHeaders))
		}
		k.CType = pick(t, "ctype", "application/json", "application/json", "application/rdap+json", "text/plain", "")
		n := intn(t, "nops", 1, 14)
		regs := []int{uni(t, "r0", 5), uni(t, "r1", 5)}
		for i := 0; i < n; i++ {
			op := bsOp{Reg: regs[uni(t, "ri", 2)]}
			if k.Mode == "disk" {
				op.Client = uni(t, "cl", 2)
			}
			kinds := []string{"lookup", "lookup", "lookup", "download", "accessor", "publish", "publish"}
			switch k.Mode {
			case "disk":
				kinds = append(kinds, "age", "age", "ageYoungRestart", "ageYoung", "restart", "corrupt", "delete", "ttl")
			case "memory":
				kinds = append(kinds, "ttlExpired", "ttlFresh", "ttlExpired")
			}
			op.Kind = pick(t, "kind", kinds...)
			op.Margin = pick(t, "margin", 2, 10, 600, 21, 100000)
			op.Wrong = chance(t, "wrong", 10)
			if withFaults && chance(t, "faulty", 45) && (op.Kind == "lookup" || op.Kind == "download") {
				op.Fault = pick(t, "fault", faults...)
			}
			k.Ops = append(k.Ops, op)
			if (op.Kind == "age" || op.Kind == "publish" || op.Kind == "corrupt" || op.Kind == "delete" || op.Kind == "ttl") && chance(t, "then", 50) {
				// ... and the registry is used afterwards
				op.Kind = pick(t, "thenkind", "lookup", "lookup", "accessor")
				if k.Mode == "disk" {
					op.Client = uni(t, "thencl", 2)
				}
				k.Ops = append(k.Ops, op)
			}
		}
		return k
	}
}

type failingSave struct {
	cache.RegistryCache
	fail bool
}

func (f *failingSave) Save(name string, data []byte) error {
	if f.fail {
		return errors.New("no space left on device")
	}
	return f.RegistryCache.Save(name, data)
}

type truncReader struct{ b []byte }

func (r *truncReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.ErrUnexpectedEOF
	}
	n := copy(p, r.b[:1])
	r.b = r.b[n:]
	return n, nil
}

type bsClient struct {
	c      *bootstrap.Client
	fs     *failingSave
	mem    [5]int
	loaded [5]time.Time
	ttl    time.Duration
	loose  [5]bool // saw an unusable file while holding an older registry
}

func checkBs(c *Ctx, k bsCase) error {
	base, _ := url.Parse("https://bs.example/rdap/")
	dir := ""
	if k.Mode == "disk" {
		dir = filepath.Join(c.Scratch(), "sub", "cache")
	}
	version := [5]int{1, 1, 1, 1, 1}
	docOf := func(reg, version int) []byte {
		b := regDoc(reg, version, "bs")
		if k.Pad == 0 {
			return b
		}
		return append(append([]byte("{"), bytes.Repeat([]byte(" "), k.Pad)...), b[1:]...)
	}
	downloads := 0
	fault := ""
	served := 0
	badReq := ""
	plain := func(i int, r *http.Request) (*http.Response, error) {
		if r.URL.Host == "moved.example" {
			r = r.Clone(r.Context())
			r.URL.Host = "bs.example"
		} else {
			downloads++
			if k.Redir != 0 && fault != "conn" && fault != "ctx" {
				resp := httpResp(k.Redir, []byte("moved"))
				resp.Header.Set("Location", "https://moved.example"+r.URL.RequestURI())
				return resp, nil
			}
		}
		reg := regIndex(r.URL.Path)
		if reg < 0 || r.Method != "GET" || r.URL.Host != "bs.example" || !strings.HasPrefix(r.URL.Path, "/rdap/") {
			badReq = r.Method + " " + r.URL.String()
			return httpResp(404, nil), nil
		}
		doc := docOf(reg, version[reg])
		switch fault {
		case "conn":
			return nil, errors.New("connection refused")
		case "status":
			codes := []int{404, 500, 503, 400, 204, 304, 429, 201, 206, 403}
			served++
			return httpResp(codes[served%len(codes)], doc), nil
		case "truncbody":
			resp := httpResp(200, doc)
			resp.Body = io.NopCloser(&truncReader{doc})
			return resp, nil
		case "badjson":
			return httpResp(200, doc[:len(doc)-1]), nil
		case "badservices":
			bad := []string{`{"version":"1.0","services":[[["com"]]]}`, `{"errorCode":429,"title":"Too Many Requests"}`, `{"services":[[["com",null],["https://x.example/"]]]}`, "null", `{"services":[[["com"],["https://x.example/"]],"x"]}`}
			served++
			return httpResp(200, []byte(bad[served%len(bad)])), nil
		case "empty":
			return httpResp(200, nil), nil
		case "html":
			return httpResp(200, []byte("<html><body>captive portal</body></html>")), nil
		case "ctx":
			return nil, context.Canceled
		}
		return httpResp(200, doc), nil
	}
	tr := &stubTransport{f: func(i int, r *http.Request) (*http.Response, error) {
		resp, err := plain(i, r)
		if resp != nil {
			if k.NoLen {
				resp.ContentLength = -1
			}
			resp.Header.Set("Content-Type", k.CType)
			addHeaders(resp, k.Hdr)
		}
		return resp, err
	}}

	ttl := 24 * time.Hour
	if k.TTLmin > 0 {
		ttl = time.Duration(k.TTLmin) * time.Minute
	}
	memExpired := false
	newClient := func() *bsClient {
		bc := &bsClient{c: &bootstrap.Client{HTTP: &http.Client{Transport: tr}, BaseURL: base}, ttl: ttl}
		switch k.Mode {
		case "memory":
			bc.fs = &failingSave{RegistryCache: cache.NewMemoryCache()}
		case "disk":
			dc := cache.NewDiskCache()
			dc.Dir = dir
			bc.fs = &failingSave{RegistryCache: dc}
		}
		if bc.fs != nil {
			bc.c.Cache = bc.fs
			if k.TTLmin > 0 {
				bc.c.Cache.SetTimeout(ttl)
			}
		}
		return bc
	}
	clients := []*bsClient{newClient(), newClient()}

	// Where the client keeps a registry: learned from the directory listing.
	fileOf := func(reg int) string {
		es, _ := os.ReadDir(dir)
		for _, e := range es {
			if strings.HasSuffix(e.Name(), regFiles[reg]) {
				return filepath.Join(dir, e.Name())
			}
		}
		return ""
	}
	mtime := func(reg int) (time.Time, bool) {
		f := fileOf(reg)
		if f == "" {
			return time.Time{}, false
		}
		fi, err := os.Stat(f)
		if err != nil {
			return time.Time{}, false
		}
		return fi.ModTime(), true
	}
	diskVersion := func(reg int) int { // 0: unusable
		b, err := os.ReadFile(fileOf(reg))
		if err != nil {
			return 0
		}
		for v := 1; v <= version[reg]; v++ {
			if bytes.Equal(b, docOf(reg, v)) {
				return v
			}
		}
		return 0
	}
	future := time.Now()
	bump := func(reg int) { // the clock of the file system moves on
		if f := fileOf(reg); f != "" {
			future = future.Add(time.Second)
			os.Chtimes(f, future, future)
		}
	}

	didReload, didExpire, didFault := false, false, false
	for i, op := range k.Ops {
		bc := clients[op.Client]
		reg := op.Reg
		where := fmt.Sprintf("op %d %+v", i, op)
		if op.Fault == "save" && bc.fs == nil {
			op.Fault = "conn"
		}
		fault = op.Fault
		if bc.fs != nil {
			bc.fs.fail = op.Fault == "save"
		}
		downloads = 0

		// State of the cache as the documentation defines it.
		state := "absent"
		disk := 0
		var before time.Time
		var beforeBytes []byte
		switch k.Mode {
		case "disk":
			if mt, ok := mtime(reg); ok {
				before = mt
				beforeBytes, _ = os.ReadFile(fileOf(reg))
				disk = diskVersion(reg)
				switch {
				case time.Since(mt) > bc.ttl:
					state = "expired"
				case bc.loaded[reg].IsZero() || mt.After(bc.loaded[reg]):
					state = "reload"
				default:
					state = "good"
				}
			}
		default:
			if bc.mem[reg] != 0 {
				state = "good"
				if memExpired {
					state = "expired"
				}
			}
		}

		switch op.Kind {
		case "lookup", "download":
			lo, hi := 0, 0 // allowed number of downloads
			want := bc.mem[reg]
			if op.Kind == "download" {
				lo, hi = 1, 1
			} else {
				switch state {
				case "absent":
					lo, hi = 1, 1
				case "expired":
					lo, hi = 1, 1
					didExpire = true
				case "reload":
					bc.loaded[reg] = before
					if disk == 0 {
						lo, hi = 1, 1
					} else {
						want = disk
						bc.loose[reg] = false
						didReload = true
					}
				case "good":
					if bc.mem[reg] == 0 {
						lo, hi = 1, 1
					} else if bc.loose[reg] {
						lo, hi = 1, 1
					}
				}
			}
			ctx := context.Background()
			if op.Fault == "ctx" {
				var cancel func()
				ctx, cancel = context.WithCancel(ctx)
				cancel()
			}
			var err error
			var got lookupRes
			if op.Kind == "download" {
				err = bc.c.DownloadWithContext(ctx, regTypes[reg])
			} else {
				q := regQueries[reg]
				if op.Wrong {
					q = []string{"nothing.test", "198.51.100.1", "2001:dead::1", "5", "H1-NOPE"}[reg]
				}
				got = toRes(bc.c.Lookup((&bootstrap.Question{RegistryType: regTypes[reg], Query: q}).WithContext(ctx)))
				err = got.err
			}
			if badReq != "" {
				return errf("%s: unexpected request %s", where, badReq)
			}
			if downloads < lo || downloads > hi {
				return errf("%s: cache state %q, in-memory version %d: %d downloads, want %d..%d", where, state, bc.mem[reg], downloads, lo, hi)
			}
			if downloads > 0 && op.Fault != "" {
				didFault = true
				if err == nil {
					return errf("%s: the download failed, but no error was reported", where)
				}
				if len(got.urls) > 0 {
					return errf("%s: the download failed, but an answer was returned: %v", where, got.urls)
				}
				if k.Mode == "disk" {
					now, _ := os.ReadFile(fileOf(reg))
					if !bytes.Equal(now, beforeBytes) {
						return errf("%s: the failed download changed the cached file from %q to %q", where, beforeBytes, now)
					}
				}
				if op.Kind == "lookup" && disk == 0 && state == "reload" && bc.mem[reg] != 0 {
					bc.loose[reg] = true
				}
				// The registry in use must be the old one.
				if state != "reload" {
					downloads = 0
					v, aerr := accessorVersion(bc.c, reg)
					if aerr != nil {
						return errf("%s: %w", where, aerr)
					}
					if v != bc.mem[reg] || downloads != 0 {
						return errf("%s: after the failed download the registry in use is version %d, was %d (downloads %d)", where, v, bc.mem[reg], downloads)
					}
				}
				break
			}
			if err != nil {
				return errf("%s: %s", where, err)
			}
			if downloads > 0 {
				want = version[reg]
				bc.loose[reg] = false
				if k.Mode == "disk" {
					if diskVersion(reg) != want {
						return errf("%s: the downloaded file was not cached", where)
					}
					at, _ := mtime(reg)
					if time.Since(at) > 10*time.Minute {
						return errf("%s: the file just downloaded is dated %s: it will be downloaded again too early", where, at)
					}
					bc.loaded[reg] = at
					bump(reg)
				}
			}
			bc.mem[reg] = want
			if op.Kind == "lookup" {
				if op.Wrong {
					if len(got.urls) != 0 {
						return errf("%s: unlisted query answered with %v", where, got.urls)
					}
				} else if !strEq(got.urls, []string{regURL(reg, want, "bs")}) {
					return errf("%s: answered %v, want version %d", where, got.urls, want)
				}
			}
		case "accessor":
			v, err := accessorVersion(bc.c, reg)
			if err != nil {
				return errf("%s: %w", where, err)
			}
			if downloads != 0 {
				return errf("%s: an accessor used the network", where)
			}
			want := bc.mem[reg]
			if state == "reload" {
				bc.loaded[reg] = before
				if disk != 0 {
					want = disk
					bc.loose[reg] = false
					didReload = true
				} else if bc.mem[reg] != 0 {
					bc.loose[reg] = true
				}
			}
			if state == "expired" && want == 0 && v == disk {
				want = v
				bc.mem[reg] = v
			}
			if v != want {
				return errf("%s: cache state %q: accessor returned version %d, want %d", where, state, v, want)
			}
			bc.mem[reg] = want
		case "publish":
			version[reg]++
		case "age":
			if f := fileOf(reg); f != "" {
				old := time.Now().Add(-bc.ttl - time.Duration(op.Margin)*time.Minute)
				os.Chtimes(f, old, old)
			}
		case "ttl":
			bc.ttl = []time.Duration{time.Hour, 48 * time.Hour, 400 * time.Hour, 3 * time.Hour}[op.Margin%4]
			bc.c.Cache.SetTimeout(bc.ttl)
		case "ageYoung":
			if f := fileOf(reg); f != "" {
				old := time.Now().Add(-bc.ttl + time.Duration(min(op.Margin, 30)+5)*time.Minute)
				os.Chtimes(f, old, old)
			}
		case "ageYoungRestart":
			clients = []*bsClient{newClient(), newClient()}
			if f := fileOf(reg); f != "" {
				old := time.Now().Add(-ttl + time.Duration(min(op.Margin, 30)+5)*time.Minute)
				os.Chtimes(f, old, old)
			}
		case "restart":
			clients[op.Client] = newClient()
		case "corrupt":
			if f := fileOf(reg); f != "" {
				b, _ := os.ReadFile(f)
				if len(b) > 0 {
					os.WriteFile(f, b[:len(b)*(op.Margin%7)/8], 0o600)
					bump(reg)
				}
			}
		case "delete":
			if f := fileOf(reg); f != "" {
				os.Remove(f)
			}
		case "ttlExpired":
			if bc.c.Cache != nil {
				bc.c.Cache.SetTimeout(-time.Duration(op.Margin) * time.Minute)
				memExpired = true
			}
		case "ttlFresh":
			if bc.c.Cache != nil {
				bc.c.Cache.SetTimeout(time.Duration(op.Margin) * time.Hour)
				memExpired = false
			}
		}
	}
	c.Label("mode=%s", k.Mode)
	c.LabelIf(didExpire, "expired-refresh")
	c.LabelIf(didReload, "reload-from-disk")
	c.LabelIf(didFault, "failed-download")
	c.NonTrivial(didExpire || didReload || didFault)
	return nil
}

// ---------------------------------------------------------------- C08

type isoOp struct {
	Client int
	Kind   string // lookup, download, accessor, restart, rebase (the client's base URL is replaced)
	Reg    int
	To     int // rebase: the base URL to use from now on
}

type isoCase struct {
	Mem   bool     // a memory cache per client, in place of a shared disk cache
	Bases []string // base URL of each client, "" for the default
	Ops   []isoOp
}

func genIsoCase(t *rapid.T) isoCase {
	all := []string{"", "https://data.iana.org/rdap", "https://data.iana.org/rdap/", "http://data.iana.org/rdap/", "https://a.example", "https://a.example/",
		"https://a.example/x", "https://a.example/x/", "https://a.example/x/y", "https://b.example/x", "https://a.example:8443/x", "http://a.example/x", "https://a.example/X",
		"https://a.example/x?v=1", "https://user@a.example/x/", "https://a.example/a%20b/", "https://a.example/a%2Fb", "https://a.example/a/b", "https://a.example/a%2F", "https://a.example/a%2Fb/", "https://a.example/x?v=2", "https://a.example/x/?v=1",
		"https://a.example/v1.0", "https://a.example/v1.0/", "https://a.example/dns.json", "https://a.example/dns.json/", "https://a.example/x;y", "https://a.example/x.y/z", "https://a.example/x#f", "https://a.example/%7Ex/", "https://a.example/~x/"}
	k := isoCase{}
	n := intn(t, "n", 2, 4)
	for i := 0; i < n; i++ {
		b := all[uni(t, "base", len(all))]
		if chance(t, "rnd", 25) {
			b = "https://" + word(t, "h") + ".example/" + word(t, "p") + pick(t, "suffix", "", "", "/", ".x", "/"+word(t, "p2"), "?"+word(t, "q"))
		}
		if i > 0 && chance(t, "near", 40) {
			b = nearBase(t, k.Bases[i-1])
		}
		k.Bases = append(k.Bases, b)
	}
	m := intn(t, "m", 2, 12)
	k.Mem = chance(t, "mem", 20)
	rebases := k.Mem || chance(t, "rebases", 40)
	for i := 0; i < m; i++ {
		op := isoOp{Client: uni(t, "c", n), Kind: pick(t, "k", "lookup", "lookup", "download", "accessor", "restart"), Reg: pick(t, "reg", 0, 0, 1, 2, 3, 4)}
		if rebases && chance(t, "rebase", 30) {
			op.Kind, op.To = "rebase", uni(t, "to", n)
		}
		k.Ops = append(k.Ops, op)
	}
	if rebases && chance(t, "tour", 30) {
		// Back to the first base URL after some others.
		op := isoOp{Client: uni(t, "tc", n), Reg: uni(t, "treg", 5)}
		from := uni(t, "tfrom", n)
		step := func(kind string, to int) {
			op.Kind, op.To = kind, to
			k.Ops = append(k.Ops, op)
		}
		step("rebase", from)
		step("lookup", 0)
		for i := intn(t, "tn", 1, 4); i > 0; i-- {
			step("rebase", uni(t, "tto", n))
			if chance(t, "tlook", 50) {
				step("lookup", 0)
			}
		}
		step("rebase", from)
		step(pick(t, "tend", "lookup", "lookup", "accessor"), 0)
	}
	return k
}

// nearBase gives a base URL that differs from the given one in one part.
func nearBase(t *rapid.T, b string) string {
	if b == "" {
		b = "https://data.iana.org/rdap/"
	}
	u, err := url.Parse(b)
	if err != nil {
		infra("%s", err)
	}
	switch uni(t, "part", 9) {
	case 0:
		u.Scheme = map[string]string{"https": "http", "http": "https"}[u.Scheme]
	case 1:
		u.User = url.User(pick(t, "user", "u", "v", "U"))
	case 2:
		u.User = url.UserPassword("u", pick(t, "pw", "", "a", "b", "xxxxx"))
	case 3:
		u.Host = strings.TrimSuffix(u.Host, ":8443") + pick(t, "port", ":8443", ":443", ":80", ":8080")
	case 4:
		u.Host = pick(t, "sub", "a.", "b.") + u.Host
	case 5:
		u.Path, u.RawPath = strings.TrimSuffix(u.Path, "/")+pick(t, "seg", "/a", "/b", "/A", "/", "/a/"), ""
	case 6:
		u.RawQuery = pick(t, "query", "a", "b", "a=1", "a=2", "a=1&b=1", "b=1&a=1")
	case 7:
		u.Fragment = pick(t, "frag", "a", "b")
	default:
		u.Path, u.RawPath = strings.ToUpper(u.Path), ""
	}
	return u.String()
}

func checkIso(c *Ctx, k isoCase) error {
	dir := filepath.Join(c.Scratch(), "cache")
	// Each distinct base URL is a bootstrap service of its own, with its own data.
	ident := func(b string) string {
		if b == "" {
			b = bootstrap.DefaultBaseURL
		}
		return b
	}
	svc := func(b string) string { return fmt.Sprintf("s%x", mix(ident(b))&0xffffff) }
	var cur int
	baseOf := append([]string(nil), k.Bases...) // of each client
	tr := &stubTransport{}
	tr.f = func(i int, r *http.Request) (*http.Response, error) {
		reg := regIndex(r.URL.Path)
		if reg < 0 {
			return httpResp(404, nil), nil
		}
		return httpResp(200, regDoc(reg, 1, svc(baseOf[cur]))), nil
	}
	parseBase := func(b string) *url.URL {
		if b == "" {
			return nil
		}
		u, err := url.Parse(b)
		if err != nil {
			infra("%s", err)
		}
		return u
	}
	mk := func(b string) *bootstrap.Client {
		bc := &bootstrap.Client{HTTP: &http.Client{Transport: tr}, BaseURL: parseBase(b)}
		if k.Mem {
			return bc
		}
		dc := cache.NewDiskCache()
		dc.Dir = dir
		bc.Cache = dc
		return bc
	}
	var cl []*bootstrap.Client
	distinct := map[string]bool{}
	for _, b := range k.Bases {
		cl = append(cl, mk(b))
		distinct[ident(b)] = true
	}
	onDisk := map[string]bool{} // service + registry: what the cache holds (for a memory cache, whose)
	shared, rebased := false, false
	for i, op := range k.Ops {
		cur = op.Client
		tr.reqs = nil
		b := baseOf[op.Client]
		key := ident(b) + "|" + regNames[op.Reg]
		whose := ""
		if k.Mem {
			whose = fmt.Sprintf("%d|", op.Client)
			key = whose + key
		}
		where := fmt.Sprintf("op %d %+v base %q", i, op, b)
		fetched := func() error {
			for _, r := range tr.reqs {
				bu, _ := url.Parse(ident(b))
				wantPath := strings.TrimSuffix(bu.EscapedPath(), "/") + "/" + regFiles[op.Reg]
				if r.URL.Scheme != bu.Scheme || r.URL.Host != bu.Host || r.URL.EscapedPath() != wantPath {
					return errf("%s: fetched %s, want %s://%s%s", where, r.URL, bu.Scheme, bu.Host, wantPath)
				}
			}
			return nil
		}
		switch op.Kind {
		case "lookup":
			res := toRes(cl[op.Client].Lookup(&bootstrap.Question{RegistryType: regTypes[op.Reg], Query: regQueries[op.Reg]}))
			if err := fetched(); err != nil {
				return err
			}
			if !strEq(res.urls, []string{regURL(op.Reg, 1, svc(b))}) {
				return errf("%s: answered %v (err %v), want the data of its own service", where, res.urls, res.err)
			}
			if onDisk[key] && len(tr.reqs) > 0 {
				return errf("%s: downloaded although its cache holds a fresh copy", where)
			}
			if !onDisk[key] && len(tr.reqs) != 1 {
				return errf("%s: %d downloads, want 1", where, len(tr.reqs))
			}
			if onDisk[key] {
				shared = true
			}
			onDisk[key] = true
		case "download":
			if err := cl[op.Client].Download(regTypes[op.Reg]); err != nil {
				return errf("%s: %w", where, err)
			}
			if err := fetched(); err != nil {
				return err
			}
			onDisk[key] = true
		case "accessor":
			c := cl[op.Client]
			var f *bootstrap.File
			switch op.Reg {
			case 0:
				if r := c.DNS(); r != nil {
					f = r.File()
				}
			case 1:
				if r := c.IPv4(); r != nil {
					f = r.File()
				}
			case 2:
				if r := c.IPv6(); r != nil {
					f = r.File()
				}
			case 3:
				if r := c.ASN(); r != nil {
					f = r.File()
				}
			case 4:
				if r := c.ServiceProvider(); r != nil {
					f = r.File()
				}
			}
			if len(tr.reqs) != 0 {
				return errf("%s: an accessor used the network", where)
			}
			if (f != nil) != onDisk[key] {
				return errf("%s: accessor non-nil=%v, but its service's file cached=%v", where, f != nil, onDisk[key])
			}
			if f != nil && !bytes.Equal(f.JSON, regDoc(op.Reg, 1, svc(b))) {
				return errf("%s: accessor returned another service's data: %s", where, f.JSON)
			}
		case "restart":
			cl[op.Client] = mk(b)
			for h := range onDisk {
				if k.Mem && strings.HasPrefix(h, whose) {
					delete(onDisk, h)
				}
			}
		case "rebase":
			baseOf[op.Client] = k.Bases[op.To]
			cl[op.Client].BaseURL = parseBase(k.Bases[op.To])
			rebased = rebased || ident(b) != ident(k.Bases[op.To])
		}
		if k.Mem {
			continue
		}
		// The official service's files carry the plain names, all others don't.
		es, _ := os.ReadDir(dir)
		for _, e := range es {
			for ri, f := range regFiles {
				if e.Name() == f {
					got, _ := os.ReadFile(filepath.Join(dir, f))
					if !bytes.Equal(got, regDoc(ri, 1, svc(""))) {
						return errf("%s: %s holds the data of a custom bootstrap service", where, f)
					}
				}
			}
		}
		if onDisk[ident("")+"|"+regNames[op.Reg]] {
			if _, err := os.Stat(filepath.Join(dir, regFiles[op.Reg])); err != nil {
				return errf("%s: the official %s is not cached under its own name", where, regFiles[op.Reg])
			}
		}
	}
	c.Label("services=%d", len(distinct))
	c.LabelIf(shared, "shared-hit")
	c.LabelIf(rebased, "rebased")
	c.LabelIf(k.Mem, "memory-cache")
	c.NonTrivial(len(distinct) > 1)
	return nil
}

// ---------------------------------------------------------------- C09

type cacheOp struct {
	Kind string // save, load, state, write (by another process), touch, delete, ttl, reopen, initdir, mutate
	Name int
	Data string
	Pad  int // further bytes of data
	Age  int // minutes
	Inst int
	Same bool `json:",omitempty"` // the data stored already is saved again
}

func (op cacheOp) data() string {
	return op.Data + strings.Repeat("~", op.Pad)
}

type cacheCase struct {
	Disk bool
	Ops  []cacheOp
}

var cacheNames = []string{"dns.json", "asn.json", "ab12ef_dns.json"}

func genCacheCase(t *rapid.T) cacheCase {
	k := cacheCase{Disk: chance(t, "disk", 65)}
	n := intn(t, "n", 1, 16)
	for i := 0; i < n; i++ {
		op := cacheOp{Name: uni(t, "name", len(cacheNames))}
		kinds := []string{"save", "save", "load", "load", "state", "state", "ttl"}
		if k.Disk {
			kinds = append(kinds, "write", "touch", "touch", "delete", "reopen", "initdir", "unreadable", "dir", "rmdir", "link")
			op.Inst = uni(t, "inst", 2)
		}
		op.Kind = pick(t, "k", kinds...)
		if i > 0 && chance(t, "same", 45) {
			op.Name, op.Inst = k.Ops[i-1].Name, k.Ops[i-1].Inst
			if p := k.Ops[i-1].Kind; (p == "touch" || p == "ttl" || p == "write") && chance(t, "look", 70) {
				op.Kind = "state"
			}
		}
		op.Data = rapid.StringN(0, 20, -1).Draw(t, "data")
		if intn(t, "bulky", 0, 1500) == 1500 {
			op.Pad = pick(t, "pad", 4097, 70000, 1100000, 4300000)
		}
		op.Same = op.Kind == "save" && chance(t, "samedata", 20)
		op.Age = pick(t, "age", 0, 1, 30, 59, 61, 90, 1439, 1441, 3000, -5)
		k.Ops = append(k.Ops, op)
	}
	return k
}

type diskInst struct {
	d      *cache.DiskCache
	loaded map[string]time.Time
	from   map[string]string // the directory it was loaded from
	dir    string
	ttl    time.Duration
}

func checkCache(c *Ctx, k cacheCase) error {
	if !k.Disk {
		return checkMemCache(c, k)
	}
	root := c.Scratch()
	// No other directory is of use to the cache.
	tmp := os.Getenv("TMPDIR")
	os.Setenv("TMPDIR", filepath.Join(root, "missing", "tmp"))
	defer os.Setenv("TMPDIR", tmp)
	dirs := []string{filepath.Join(root, "a", "b"), filepath.Join(root, "c")}
	mk := func() *diskInst {
		d := cache.NewDiskCache()
		d.Dir = dirs[0]
		return &diskInst{d, map[string]time.Time{}, map[string]string{}, dirs[0], 24 * time.Hour}
	}
	insts := []*diskInst{mk(), mk()}
	contents := map[string]map[string][]byte{dirs[0]: {}, dirs[1]: {}}
	existing := map[string]bool{}
	failed := map[string]bool{} // a Save failed, and may have left something
	nlinks := 0
	elsewhere := ""
	states := map[cache.FileState]bool{}
	for i, op := range k.Ops {
		in := insts[op.Inst]
		name := cacheNames[op.Name]
		where := fmt.Sprintf("op %d %+v", i, op)
		path := func(name string) string { return filepath.Join(in.dir, name) }
		content, exists := contents[in.dir], existing[in.dir]
		unlink := func() {
			if fi, err := os.Lstat(path(name)); err == nil && fi.Mode()&os.ModeSymlink != 0 {
				os.Remove(path(name))
				delete(content, name)
			}
		}
		switch op.Kind {
		case "save":
			unlink()
			data := op.data()
			if old, ok := content[name]; ok && op.Same {
				data = string(old)
				c.Label("saved again")
			}
			buf := []byte(data)
			if err := in.d.Save(name, buf); err != nil {
				return errf("%s: %w", where, err)
			}
			existing[in.dir] = true
			content[name] = []byte(data)
			fi, err := os.Stat(path(name))
			if err != nil {
				return errf("%s: the file is not in the cache directory: %w", where, err)
			}
			if time.Since(fi.ModTime()) > 10*time.Minute {
				return errf("%s: the file just saved is dated %s", where, fi.ModTime())
			}
			if fi.Mode()&0o600 != 0o600 {
				return errf("%s: its owner cannot read and write the file: %s", where, fi.Mode())
			}
			in.loaded[name], in.from[name] = fi.ModTime(), in.dir
			if string(buf) != data {
				return errf("%s: Save changed the caller's data", where)
			}
		case "load":
			fi, serr := os.Stat(path(name))
			b, err := in.d.Load(name)
			want, ok := content[name]
			if ok != (err == nil) {
				return errf("%s: Load err=%v, want present=%v", where, err, ok)
			}
			if ok {
				if !bytes.Equal(b, want) {
					return errf("%s: Load returned %d bytes %.300q, want %d bytes %.300q", where, len(b), b, len(want), want)
				}
				if serr == nil {
					in.loaded[name], in.from[name] = fi.ModTime(), in.dir
				}
			}
		case "state":
			want := cache.Absent
			if fi, err := os.Stat(path(name)); err == nil {
				l, have := in.loaded[name]
				switch {
				case time.Since(fi.ModTime()) >= in.ttl:
					want = cache.Expired
				case have && !fi.ModTime().After(l):
					want = cache.Good
				default:
					want = cache.ShouldReload
				}
			}
			states[want] = true
			got := in.d.State(name)
			if have := in.from[name]; have != "" && have != in.dir && (want == cache.Good || want == cache.ShouldReload) {
				// Loaded before, from another directory: whether that counts is open.
				if got == cache.Good || got == cache.ShouldReload {
					want = got
				}
			}
			if got != want {
				return errf("%s: State=%d, want %d (ttl %s)", where, got, want, in.ttl)
			}
		case "write":
			if exists {
				unlink()
				b := []byte("other:" + op.data())
				if err := os.WriteFile(path(name), b, 0o600); err != nil {
					return errf("%s: the cache directory is not usable by others: %s", where, err)
				}
				content[name] = b
				// Another process' later write has a later time stamp.
				t := time.Now().Add(time.Second * time.Duration(1+i))
				os.Chtimes(path(name), t, t)
			}
		case "touch":
			if _, ok := content[name]; ok {
				t := time.Now().Add(-time.Duration(op.Age) * time.Minute)
				os.Chtimes(path(name), t, t)
			}
		case "delete":
			os.Remove(path(name))
			delete(content, name)
		case "unreadable": // something that is there, but cannot be read
			if exists {
				os.Remove(path(name))
				if err := os.Mkdir(path(name), 0o755); err != nil {
					return errf("%s: the cache directory is not usable by others: %s", where, err)
				}
				if b, err := in.d.Load(name); err == nil {
					return errf("%s: Load of an unreadable file returned %q", where, b)
				}
				if err := in.d.Save(name, []byte("x")); err == nil {
					return errf("%s: Save over an unwritable file reported no error", where)
				}
				failed[in.dir] = true
				os.Remove(path(name))
				delete(content, name)
			}
		case "ttl":
			// Never equal to a generated age.
			ttl := pick2(op.Age, 40*time.Minute, 100*time.Minute, 24*time.Hour, 20*time.Hour)
			in.d.SetTimeout(ttl)
			in.ttl = ttl
		case "reopen":
			insts[op.Inst] = mk()
		case "initdir":
			created, err := in.d.InitDir()
			if err != nil {
				return errf("%s: %w", where, err)
			}
			if created == exists {
				return errf("%s: InitDir reported created=%v, existed=%v", where, created, exists)
			}
			existing[in.dir] = true
		case "dir": // a cache that is pointed to another directory
			in.dir = dirs[op.Age&1]
			in.d.Dir = in.dir
			c.Label("directory changed")
		case "rmdir": // somebody clears the caches
			if err := os.RemoveAll(in.dir); err != nil {
				return errf("%s: %s", where, err)
			}
			existing[in.dir] = false
			contents[in.dir] = map[string][]byte{}
			c.LabelIf(exists, "directory removed")
		case "link": // the file is kept elsewhere
			if exists {
				os.Remove(path(name))
				if elsewhere == "" {
					elsewhere = c.Scratch()
				}
				nlinks++
				target := filepath.Join(elsewhere, fmt.Sprint(nlinks))
				if err := os.WriteFile(target, []byte(op.Data), 0o600); err != nil {
					return errf("%s: %s", where, err)
				}
				tm := time.Now().Add(-time.Duration(op.Age) * time.Minute)
				os.Chtimes(target, tm, tm)
				if err := os.Symlink(target, path(name)); err != nil {
					return errf("%s: the cache directory is not usable by others: %s", where, err)
				}
				content[name] = []byte(op.Data)
				c.Label("symbolic link")
			}
		}
	}
	// Nothing but the named files, and nothing outside the directory.
	var stray error
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			name := filepath.Base(p)
			if _, ok := contents[filepath.Dir(p)][name]; !ok && !failed[filepath.Dir(p)] {
				stray = errf("stray file %s", strings.TrimPrefix(p, root))
			}
		}
		return nil
	})
	if stray != nil {
		return stray
	}
	c.Label("disk")
	for s := range states {
		c.Label("state=%d", s)
	}
	c.NonTrivial(len(states) > 0 && len(contents[dirs[0]])+len(contents[dirs[1]]) > 0)
	return nil
}

func pick2[T any](i int, xs ...T) T {
	if i < 0 {
		i = -i
	}
	return xs[i%len(xs)]
}

func checkMemCache(c *Ctx, k cacheCase) error {
	m := cache.NewMemoryCache()
	content := map[string][]byte{}
	ttl := m.Timeout
	if ttl != 24*time.Hour {
		return errf("default TTL is %s", ttl)
	}
	seen := false
	for i, op := range k.Ops {
		name := cacheNames[op.Name]
		where := fmt.Sprintf("op %d %+v", i, op)
		switch op.Kind {
		case "save":
			buf := []byte(op.data())
			if err := m.Save(name, buf); err != nil {
				return errf("%s: %w", where, err)
			}
			content[name] = []byte(op.data())
			for j := range buf {
				buf[j] ^= 0xff // the caller reuses its buffer
			}
		case "load":
			b, err := m.Load(name)
			want, ok := content[name]
			if ok != (err == nil) {
				return errf("%s: Load err=%v, want present=%v", where, err, ok)
			}
			if ok && !bytes.Equal(b, want) {
				return errf("%s: Load returned %q, want %q", where, b, want)
			}
			for j := range b {
				b[j] ^= 0xff
			}
		case "state":
			want := cache.Absent
			if _, ok := content[name]; ok {
				want = cache.Good
				if ttl < 0 {
					want = cache.Expired
				}
				seen = true
			}
			if got := m.State(name); got != want {
				return errf("%s: State=%d, want %d (ttl %s)", where, got, want, ttl)
			}
		case "ttl":
			ttl = pick2(op.Age, -time.Minute, time.Hour, -24*time.Hour, 48*time.Hour)
			m.SetTimeout(ttl)
		}
	}
	c.Label("memory")
	c.NonTrivial(seen)
	return nil
}

// Time limits of milliseconds: a file counts as expired when, and only when,
// its age is at least the limit. Ages are known up to the measured interval in
// which the save happened, so only certain verdicts are judged.
type shortCase struct {
	Disk    bool
	Ms      []int // limits asked in turn
	SleepMs []int // before each
	Resave  []bool
}

func genShort(t *rapid.T) shortCase {
	k := shortCase{Disk: chance(t, "disk", 40)}
	for i := 0; i < intn(t, "n", 1, 5); i++ {
		k.Ms = append(k.Ms, pick(t, "ms", 1, 3, 10, 30, 100, 200, 400, 700, 900, 1500))
		k.SleepMs = append(k.SleepMs, pick(t, "sleep", 0, 0, 1, 3, 12, 40))
		k.Resave = append(k.Resave, chance(t, "resave", 25))
	}
	return k
}

func checkShort(c *Ctx, k shortCase) error {
	var rc cache.RegistryCache = cache.NewMemoryCache()
	// File time stamps may lag behind the clock by a tick.
	slack := time.Duration(0)
	if k.Disk {
		d := cache.NewDiskCache()
		d.Dir = c.Scratch()
		rc, slack = d, 100*time.Millisecond
	}
	var b0, b1 time.Time
	save := func() error {
		b0 = time.Now()
		err := rc.Save("dns.json", []byte("{}"))
		b1 = time.Now()
		return err
	}
	if err := save(); err != nil {
		return err
	}
	for i, ms := range k.Ms {
		if k.Resave[i] {
			if err := save(); err != nil {
				return err
			}
		}
		time.Sleep(time.Duration(k.SleepMs[i]) * time.Millisecond)
		ttl := time.Duration(ms) * time.Millisecond
		rc.SetTimeout(ttl)
		least := time.Since(b1)
		got := rc.State("dns.json")
		most := time.Since(b0) + slack
		switch {
		case least > ttl && got != cache.Expired:
			return errf("saved at least %s ago with the limit %s: State=%d, want expired", least, ttl, got)
		case most < ttl && got != cache.Good:
			return errf("saved at most %s ago with the limit %s: State=%d, want good", most, ttl, got)
		}
		c.LabelIf(least > ttl, "expired")
		c.LabelIf(most < ttl, "good")
		if least > ttl || most < ttl {
			c.NonTrivial(true)
		}
	}
	return nil
}

type dirCase struct {
	XDG  string // "", "relative", "absolute"
	Name string
	Home string
}

func checkDirDefault(c *Ctx, k dirCase) error {
	root := c.Scratch()
	home := filepath.Join(root, "home-"+k.Home)
	xdg := ""
	switch k.XDG {
	case "relative":
		xdg = k.Name
	case "dotrelative":
		xdg = "./" + k.Name
	case "absolute":
		xdg = filepath.Join(root, "xdg-"+k.Name)
	}
	oh, ox := os.Getenv("HOME"), os.Getenv("XDG_CACHE_HOME")
	os.Setenv("HOME", home)
	if k.XDG == "unset" {
		os.Unsetenv("XDG_CACHE_HOME")
	} else {
		os.Setenv("XDG_CACHE_HOME", xdg)
	}
	defer func() { os.Setenv("HOME", oh); os.Setenv("XDG_CACHE_HOME", ox) }()
	want := filepath.Join(home, ".cache", "openrdap")
	if k.XDG == "absolute" {
		want = filepath.Join(xdg, "openrdap")
	}
	d := cache.NewDiskCache()
	c.Label("xdg=%s", k.XDG)
	c.NonTrivial(true)
	if d.Dir != want {
		return errf("XDG_CACHE_HOME=%q HOME=%q: cache directory %q, want %q", xdg, home, d.Dir, want)
	}
	if d.Timeout != 24*time.Hour {
		return errf("default TTL %s", d.Timeout)
	}
	if err := d.Save("dns.json", []byte("{}")); err != nil {
		return errf("Save: %w", err)
	}
	if b, err := os.ReadFile(filepath.Join(want, "dns.json")); err != nil || string(b) != "{}" {
		return errf("file not saved in %s: %v", want, err)
	}
	return nil
}

func genDirCase(t *rapid.T) dirCase {
	return dirCase{XDG: pick(t, "xdg", "", "unset", "relative", "dotrelative", "absolute", "absolute"), Name: word(t, "n"), Home: word(t, "h")}
}

// A cache used while another process replaces the file again and again: what
// it calls good must be what it loaded last.
type cacheRaceCase struct {
	Writes int
	Pause  int // microseconds between writes
	Spin   int // loads without asking for the state first
	Size   int
}

func genCacheRace(t *rapid.T) cacheRaceCase {
	return cacheRaceCase{intn(t, "writes", 20, 300), pick(t, "pause", 0, 0, 1, 5, 20, 50), intn(t, "spin", 0, 3), pick(t, "size", 8, 100, 5000, 60000)}
}

func checkCacheRace(c *Ctx, k cacheRaceCase) error {
	root := c.Scratch()
	dir := filepath.Join(root, "cache")
	os.MkdirAll(dir, 0o755)
	name := "dns.json"
	content := func(i int) []byte {
		return append([]byte(fmt.Sprintf("%08d", i)), bytes.Repeat([]byte("x"), k.Size)...)
	}
	start := time.Now().Add(-time.Hour)
	var done atomic.Int64
	put := func(i int) {
		tmp := filepath.Join(root, "tmp")
		mt := start.Add(time.Duration(i) * time.Second)
		if os.WriteFile(tmp, content(i), 0o600) != nil || os.Chtimes(tmp, mt, mt) != nil || os.Rename(tmp, filepath.Join(dir, name)) != nil {
			infra("cannot write in the scratch directory")
		}
		done.Store(int64(i))
	}
	put(1)
	d := cache.NewDiskCache()
	d.Dir = dir
	finished := make(chan struct{})
	go func() {
		defer close(finished)
		for i := 2; i <= k.Writes; i++ {
			put(i)
			if k.Pause > 0 {
				for t := time.Now(); time.Since(t) < time.Duration(k.Pause)*time.Microsecond; {
				}
			}
		}
	}()
	defer func() { <-finished }()
	have, loads := int64(0), 0
	load := func() error {
		b, err := d.Load(name)
		if err != nil {
			return errf("load %d: %s", loads, err)
		}
		var v int64
		if len(b) < 8 {
			return errf("load %d: %d bytes", loads, len(b))
		}
		fmt.Sscanf(string(b[:8]), "%d", &v)
		if !bytes.Equal(b, content(int(v))) {
			return errf("load %d: not the bytes of any stored file", loads)
		}
		if v < have {
			return errf("load %d: version %d after version %d", loads, v, have)
		}
		have = v
		loads++
		return nil
	}
	for i := 0; ; i++ {
		over := false
		select {
		case <-finished:
			over = true
		default:
		}
		for j := 0; j < k.Spin && !over; j++ {
			if err := load(); err != nil {
				return err
			}
		}
		before := done.Load()
		switch st := d.State(name); st {
		case cache.Good:
			if have < before {
				return errf("the state is good, but version %d was stored and version %d loaded last", before, have)
			}
			if over {
				c.NonTrivial(loads > 2)
				return nil
			}
		case cache.ShouldReload:
			if err := load(); err != nil {
				return err
			}
		default:
			return errf("the state is %v while a fresh file is stored", st)
		}
	}
}

// ---------------------------------------------------------------- C10

type crashCase struct {
	Reg     int
	Cut     int    // bytes of the new file on disk, -1: see Garbage
	Garbage string // content instead
	Held    bool   // the client already holds version 1 in memory
	Online  bool
	Touch   bool // an accessor meets the file before the lookup does
	Fails   int  // failing attempts before the network comes back
}

func enumCrash(tier string, yield func(crashCase)) {
	for reg := range regTypes {
		n := len(regDoc(reg, 2, "bs"))
		for cut := 0; cut < n; cut++ {
			yield(crashCase{Reg: reg, Cut: cut, Held: false, Online: true})
			yield(crashCase{Reg: reg, Cut: cut, Held: true, Online: true})
			yield(crashCase{Reg: reg, Cut: cut, Held: false, Online: false})
			yield(crashCase{Reg: reg, Cut: cut, Held: cut%2 == 0, Online: cut%3 == 0, Touch: true})
		}
	}
}

func genCrash(t *rapid.T) crashCase {
	k := crashCase{Reg: uni(t, "reg", 5), Cut: -1, Held: chance(t, "held", 50), Online: chance(t, "on", 60), Touch: chance(t, "touch", 30), Fails: uni(t, "fails", 3)}
	doc := regDoc(k.Reg, 2, "bs")
	switch uni(t, "how", 6) {
	case 4: // a shorter document over a longer one that was zeroed
		k.Garbage = string(doc) + strings.Repeat(pick(t, "tail", "\x00", "\x00", "\xff", "}", "]"), intn(t, "ntail", 1, 40))
	case 5: // two documents
		k.Garbage = string(regDoc(k.Reg, intn(t, "v1", 1, 2), "bs")) + pick(t, "sep", "\n", "", " ", "\x00", ",", "\r\n\r\n", "\n---\n") + string(regDoc(k.Reg, 2, "bs"))
	case 0: // zero filled tail, as after a power cut
		cut := intn(t, "cut", 0, len(doc)-1)
		b := append([]byte{}, doc...)
		for i := cut; i < len(b); i++ {
			b[i] = 0
		}
		k.Garbage = string(b)
	case 1: // two interleaved writers of different length
		cut := intn(t, "cut2", 1, len(doc)-1)
		k.Garbage = string(doc) + string(doc[cut:])
	case 2:
		k.Garbage = pick(t, "g", "null", "[]", "5", "\"\"", "<html>", "\xff\xfe", "{\"services\":[[]]}", "{\"services\":[[[\"com\"]]]}", "{\"services\":5}", "{} {}", "{}", "{\"errorCode\": 500}", "{\"services\":null}", "{\"services\":[[[null],[\"https://x.example/\"]]]}")
	case 3:
		k.Garbage = string(doc[intn(t, "off", 1, len(doc)-1):])
	}
	return k
}

func checkCrash(c *Ctx, k crashCase) error {
	dir := c.Scratch()
	base, _ := url.Parse("https://bs.example/rdap/")
	serve := 1
	online := true
	tr := &stubTransport{f: func(i int, r *http.Request) (*http.Response, error) {
		reg := regIndex(r.URL.Path)
		if !online {
			return nil, errors.New("network down")
		}
		return httpResp(200, regDoc(reg, serve, "bs")), nil
	}}
	mk := func() *bootstrap.Client {
		d := cache.NewDiskCache()
		d.Dir = dir
		return &bootstrap.Client{HTTP: &http.Client{Transport: tr}, BaseURL: base, Cache: d}
	}
	ask := func(cl *bootstrap.Client) lookupRes {
		return toRes(cl.Lookup(&bootstrap.Question{RegistryType: regTypes[k.Reg], Query: regQueries[k.Reg]}))
	}
	cl := mk()
	if r := ask(cl); r.err != nil {
		return errf("first lookup: %w", r.err)
	}
	if !k.Held {
		cl = mk()
	}
	es, _ := os.ReadDir(dir)
	if len(es) != 1 {
		return errf("%d cache files, want 1", len(es))
	}
	file := filepath.Join(dir, es[0].Name())
	content := []byte(k.Garbage)
	if k.Cut >= 0 {
		content = regDoc(k.Reg, 2, "bs")[:k.Cut]
	}
	if err := os.WriteFile(file, content, 0o600); err != nil {
		return errf("the cached file cannot be overwritten: %s", err)
	}
	t := time.Now().Add(time.Second)
	os.Chtimes(file, t, t)
	serve, online = 3, k.Online
	tr.reqs = nil
	if k.Touch {
		v, err := accessorVersion(cl, k.Reg)
		if err != nil {
			return err
		}
		if len(tr.reqs) > 0 {
			return errf("an accessor used the network")
		}
		if v != 0 && !(k.Held && v == 1) {
			return errf("the accessor returned version %d from a damaged file", v)
		}
	}
	c.LabelIf(k.Held, "held")
	c.LabelIf(!k.Online, "offline")
	c.LabelIf(k.Touch, "accessor first")
	c.NonTrivial(true)
	want := regURL(k.Reg, 3, "bs")
	if !k.Online {
		for i := 0; i <= k.Fails; i++ {
			if r := ask(cl); r.err == nil {
				return errf("offline with a damaged cache file: answered %v without an error", r.urls)
			}
			if b, _ := os.ReadFile(file); !bytes.Equal(b, content) {
				return errf("a failed download changed the file to %q", b)
			}
		}
	}
	// Online (again): repaired by exactly one download.
	online = true
	tr.reqs = nil
	r := ask(cl)
	if r.err != nil || !strEq(r.urls, []string{want}) {
		return errf("answered %v (err %v), want a fresh download's %s", r.urls, r.err, want)
	}
	if len(tr.reqs) != 1 {
		return errf("%d downloads, want 1", len(tr.reqs))
	}
	// Neither this client nor a new one needs the network again.
	b, _ := os.ReadFile(file)
	if !bytes.Equal(b, regDoc(k.Reg, 3, "bs")) {
		return errf("the cache file was not repaired: %q", b)
	}
	for _, x := range []*bootstrap.Client{cl, mk()} {
		r := ask(x)
		if r.err != nil || !strEq(r.urls, []string{want}) || len(tr.reqs) != 1 {
			return errf("after the repair: answered %v (err %v), %d downloads", r.urls, r.err, len(tr.reqs))
		}
	}
	return nil
}

func init() {
	register(&Prop{ID: "C06", Level: "exploration",
		Rule:        "histories of up to 14 operations (lookup, forced download, accessor, publication of a new version, ageing the cached file past or just below the TTL, client restart, damage, deletion, TTL change) over one or two clients sharing a disk cache, or one client with a memory/default cache, TTLs of 1h/24h/100h that may change per client; registry files from a few hundred bytes to over a megabyte, served directly or through a redirect, with or without a length. Oracle: a model of which version each client must hold and how many downloads each operation may make. Non-trivial: an expired file was refreshed or a newer file was picked up from disk.",
		Assumptions: []string{"successive writes of a cache file have increasing time stamps"},
		Subs:        []*Sub{sub("history", 48000, 400000, genBsCase(false), checkBs)}})
	register(&Prop{ID: "C07", Level: "fault_enumeration",
		Rule: "the same histories with an injected fault on ~45% of lookups/downloads: connection error, non-200 status, body cut short, truncated/ malformed/empty/HTML document, failing cache write, cancelled context. Oracle: error reported, no answer, old registry and cached bytes unchanged, later operations as if the failed one had not happened. Non-trivial: a download failed (or a refresh/reload happened).",
		Subs: []*Sub{sub("faults", 48000, 400000, genBsCase(true), checkBs)}})
	register(&Prop{ID: "C08", Level: "exploration",
		Rule:        "2-4 clients with equal or different base URLs (default service, with/without slash, ports, schemes, paths, escaped paths, query) sharing one cache directory, or each with a memory cache; lookups, downloads, accessors, restarts, and clients given another base URL between calls. Oracle: every service publishes its own data; fetch URL and answers must belong to the client's own service. Non-trivial: at least two different services.",
		Assumptions: []string{"the cache file name keeps 24 bits of a hash of the base URL; collisions of that hash are not searched for"},
		Subs:        []*Sub{sub("services", 48000, 300000, genIsoCase, checkIso)}})
	register(&Prop{ID: "C09", Level: "exploration",
		Rule: "operation sequences over a DiskCache (two instances sharing a directory, outside writes, time stamp changes, deletion, TTL changes, reopen) or a MemoryCache (with callers scribbling on their buffers), and default directory selection for generated HOME/XDG_CACHE_HOME; time limits of milliseconds with measured ages; a DiskCache in use while the file is replaced up to 300 times by another writer. Oracle: map model plus the documented state definition. Non-trivial: a state was asked while a file was present / any directory case.",
		Subs: []*Sub{sub("model", 72000, 500000, genCacheCase, checkCache), sub("default-dir", 1600, 20000, genDirCase, checkDirDefault), sub("short", 3000, 40000, genShort, checkShort), sub("replaced", 400, 8000, genCacheRace, checkCacheRace)}})
	register(&Prop{ID: "C10", Level: "fault_enumeration",
		Rule: "every possible cut point of the cache file of each of the five registries (fresh client online, client holding an older registry, offline), plus generated damage (zeroed tail, overlong file, garbage, missing head). Oracle: the damaged file is never used, exactly one download repairs it. All cases are non-trivial.",
		Subs: []*Sub{enumSub("cuts", enumCrash, checkCrash), sub("damage", 18000, 120000, genCrash, checkCrash)}})
}
