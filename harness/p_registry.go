package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/netip"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/openrdap/rdap/bootstrap"
	"pgregory.net/rapid"
)

// A Service is one element of a registry file's "services" array.
type Service struct {
	Entries []string
	URLs    []string
	Contact bool // three element form (object-tags.json)
	NoMail  bool // with an empty list of contacts
}

type RegFile struct {
	Services []Service
	Desc     string
	Pub      string
	Ver      string
	Pretty   bool
	Pad      int `json:",omitempty"` // bytes of padding
}

// genPad: a few files are large.
func genPad(t *rapid.T) int {
	if intn(t, "large", 0, 4000) < 4000 {
		return 0
	}
	if intn(t, "huge", 0, 12) == 12 {
		return 11000000
	}
	return pick(t, "pad", 70000, 600000, 1100000, 2200000)
}

func (r RegFile) JSON() []byte {
	services := []any{}
	for _, s := range r.Services {
		e, u := s.Entries, s.URLs
		if e == nil {
			e = []string{}
		}
		if u == nil {
			u = []string{}
		}
		if s.Contact && s.NoMail {
			services = append(services, []any{[]string{}, e, u})
		} else if s.Contact {
			services = append(services, []any{[]string{"contact@example.com"}, e, u})
		} else {
			services = append(services, []any{e, u})
		}
	}
	doc := map[string]any{
		"description": r.Desc, "publication": r.Pub, "version": r.Ver, "services": services,
	}
	if r.Pad > 0 {
		doc["a_pad"] = strings.Repeat("p", r.Pad)
	}
	if r.Pretty {
		b, _ := json.MarshalIndent(doc, "", "  ")
		return b
	}
	return mustJSON(doc)
}

// model returns entry -> URLs as the file states them.
func (r RegFile) model() map[string][]string {
	m := map[string][]string{}
	for _, s := range r.Services {
		var urls []string
		for _, u := range s.URLs {
			if !strings.HasPrefix(u, badURLPrefix) {
				urls = append(urls, u)
			}
		}
		if len(urls) == 0 {
			continue
		}
		for _, e := range s.Entries {
			m[e] = urls
		}
	}
	return m
}

// Every URL with this prefix is unparsable (bad escape in the host).
const badURLPrefix = "http://%zz"

func genURLs(t *rapid.T, tag string) []string {
	n := intn(t, "nurls", 1, 3)
	if intn(t, "manyurls", 0, 150) == 150 {
		n = intn(t, "nmany", 4, 24)
	}
	var urls []string
	for i := 0; i < n; i++ {
		if chance(t, "badurl", 6) {
			urls = append(urls, fmt.Sprintf("%s%d/", badURLPrefix, i))
			continue
		}
		if i > 0 && chance(t, "sameurl", 4) {
			urls = append(urls, urls[uni(t, "which", i)])
			continue
		}
		if chance(t, "fullurl", 3) {
			urls = append(urls, fmt.Sprintf("https://%s%s-%d.example:%d/%s", pick(t, "user", "", "u@", "u:p@", "u%40x:@"), tag, i, pick(t, "port", 80, 443, 8443), pick(t, "fpath", "", "r/?k=v", "r%2Fs/", "r;v=1/", "r/#f", "?", "a//b/")))
			continue
		}
		if chance(t, "v6url", 1) {
			urls = append(urls, fmt.Sprintf("http://[2001:db8::%d]:8080/%s/", i, tag))
			continue
		}
		if chance(t, "oddurl", 3) {
			urls = append(urls, tag+pick(t, "odd", "/relative", ".example", "", ".example/?a=b&c", "#frag")+strconv.Itoa(i))
			continue
		}
		urls = append(urls, fmt.Sprintf("%s://%s-%d.example/%s", pick(t, "scheme", "https", "http"), tag, i, pick(t, "path", "", "rdap/", "a/b/", "rdap")))
	}
	return urls
}

// genServices spreads distinct entries over services.
func genServices(t *rapid.T, entries []string, contact bool) []Service {
	var out []Service
	i := 0
	for i < len(entries) {
		n := intn(t, "group", 1, 4)
		if i+n > len(entries) {
			n = len(entries) - i
		}
		s := Service{Entries: entries[i : i+n], Contact: contact}
		s.URLs = genURLs(t, fmt.Sprintf("s%d", len(out)))
		if chance(t, "nourls", 4) {
			s.URLs = nil
		}
		out = append(out, s)
		i += n
	}
	return out
}

func permute[T any](t *rapid.T, xs []T) []T {
	if len(xs) < 2 {
		return xs
	}
	return rapid.Permutation(xs).Draw(t, "perm")
}

func urlStrings(us []*url.URL) []string {
	var out []string
	for _, u := range us {
		out = append(out, u.String())
	}
	return out
}

// stubTransport answers from a function, recording what was asked.
type stubTransport struct {
	reqs []*http.Request
	f    func(i int, r *http.Request) (*http.Response, error)
}

func (s *stubTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	s.reqs = append(s.reqs, r)
	resp, err := s.f(len(s.reqs)-1, r)
	if resp != nil && resp.Request == nil {
		resp.Request = r
	}
	return resp, err
}

// respHeaders are sets of headers that servers send and that change nothing.
var respHeaders = []http.Header{
	{},
	{"Etag": {`"v1"`}, "Cache-Control": {"max-age=86400"}},
	{"Retry-After": {"3600"}},
	{"Retry-After": {"0"}},
	{"Set-Cookie": {"sid=1; Path=/", "b=2"}},
	{"Last-Modified": {"Mon, 01 Jan 2001 00:00:00 GMT"}, "Date": {"Tue, 02 Jan 2001 00:00:00 GMT"}, "Age": {"999999"}},
	{"Cache-Control": {"no-store, max-age=0"}, "Expires": {"0"}, "Pragma": {"no-cache"}},
	{"Link": {`<https://other.example/rdap/>; rel="alternate"`}, "Content-Location": {"https://other.example/"}, "Location": {"https://other.example/"}},
	{"Expires": {"Fri, 01 Jan 2100 00:00:00 GMT"}, "Last-Modified": {"Fri, 01 Jan 2099 00:00:00 GMT"}, "X-Ratelimit-Remaining": {"0"}},
}

func addHeaders(r *http.Response, n int) {
	if r == nil {
		return
	}
	for k, v := range respHeaders[n%len(respHeaders)] {
		if k == "Location" && (r.StatusCode/100 == 3 || r.StatusCode == 201) {
			continue
		}
		r.Header[k] = v
	}
}

func httpResp(code int, body []byte) *http.Response {
	return &http.Response{
		StatusCode: code, Status: fmt.Sprintf("%d %s", code, http.StatusText(code)),
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": {"application/rdap+json"}},
		Body:   io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body)),
	}
}

type lookupRes struct {
	urls  []string
	entry string
	query string
	err   error
	nilA  bool
}

func newReg(rt bootstrap.RegistryType, doc []byte) (bootstrap.Registry, error) {
	switch rt {
	case bootstrap.DNS:
		return bootstrap.NewDNSRegistry(doc)
	case bootstrap.IPv4:
		return bootstrap.NewNetRegistry(doc, 4)
	case bootstrap.IPv6:
		return bootstrap.NewNetRegistry(doc, 6)
	case bootstrap.ASN:
		return bootstrap.NewASNRegistry(doc)
	default:
		return bootstrap.NewServiceProviderRegistry(doc)
	}
}

func toRes(a *bootstrap.Answer, err error) lookupRes {
	r := lookupRes{err: err, nilA: a == nil}
	if a != nil {
		r.urls, r.entry, r.query = urlStrings(a.URLs), a.Entry, a.Query
	}
	return r
}

// lookupBoth asks a registry directly and through a bootstrap client which
// downloads the same document; both must agree.
//
// A registry and a client that were asked |prior| before must give the answer
// of fresh ones.
func lookupBoth(rt bootstrap.RegistryType, doc []byte, query string, prior []string) (lookupRes, error) {
	reg, err := newReg(rt, doc)
	if err != nil {
		return lookupRes{}, errf("registry file rejected: %s", err)
	}
	a := toRes(reg.Lookup(&bootstrap.Question{RegistryType: rt, Query: query}))
	// Asking again must not change the answer.
	a2 := toRes(reg.Lookup(&bootstrap.Question{RegistryType: rt, Query: query}))
	tr := &stubTransport{f: func(int, *http.Request) (*http.Response, error) { return httpResp(200, doc), nil }}
	c := &bootstrap.Client{HTTP: &http.Client{Transport: tr}}
	b := toRes(c.Lookup(&bootstrap.Question{RegistryType: rt, Query: query}))
	all := []lookupRes{a2, b}
	if len(prior) > 0 {
		reg2, err := newReg(rt, doc)
		if err != nil {
			return lookupRes{}, errf("registry file rejected: %s", err)
		}
		for _, q := range prior {
			reg2.Lookup(&bootstrap.Question{RegistryType: rt, Query: q})
			c.Lookup(&bootstrap.Question{RegistryType: rt, Query: q})
		}
		all = append(all, toRes(reg2.Lookup(&bootstrap.Question{RegistryType: rt, Query: query})),
			toRes(c.Lookup(&bootstrap.Question{RegistryType: rt, Query: query})))
	}
	for _, o := range all {
		if (a.err == nil) != (o.err == nil) || a.entry != o.entry || a.query != o.query || !strEq(a.urls, o.urls) {
			return a, errf("the same question got different answers: %+v and %+v", a, o)
		}
	}
	return a, nil
}

func expectMatch(got lookupRes, wantEntry string, wantURLs []string) error {
	if got.err != nil {
		return errf("lookup failed: %s", got.err)
	}
	if !strEq(got.urls, wantURLs) {
		return errf("URLs %q, want %q (entry %q, want %q)", got.urls, wantURLs, got.entry, wantEntry)
	}
	if got.entry != wantEntry {
		return errf("matched entry %q, want %q", got.entry, wantEntry)
	}
	return nil
}

// genPrior draws questions asked earlier: entries of the registry, and texts
// close to them or to the query.
func genPrior(t *rapid.T, f RegFile, query string) []string {
	if !chance(t, "prior", 30) {
		return nil
	}
	var all []string
	for _, sv := range f.Services {
		all = append(all, sv.Entries...)
	}
	var out []string
	for i := intn(t, "npr", 1, 4); i > 0; i-- {
		q := query
		if len(all) > 0 && chance(t, "pe", 50) {
			q = all[uni(t, "pi", len(all))]
		}
		switch uni(t, "pf", 9) {
		case 0:
			q = "x." + q
		case 1:
			if j := strings.IndexAny(q, ".:-/"); j >= 0 {
				q = q[j+1:]
			}
		case 2:
			if j := strings.LastIndexAny(q, ".:-/"); j >= 0 {
				q = q[:j]
			}
		case 3:
			q += pick(t, "ps", "1", ".", "/8", "0", "-VRSN", "/24", "::1")
		case 4:
			q = strings.ToUpper(q)
		case 5:
			if len(q) > 0 {
				q = q[:len(q)-1] + pick(t, "pc", "0", "1", "9", "a", "")
			}
		case 6:
			if j := strings.LastIndex(q, "-"); j >= 0 {
				q = q[j+1:]
			}
		}
		out = append(out, q)
	}
	return out
}

// ---------------------------------------------------------------- C01

type dnsCase struct {
	File  RegFile
	Query string
	Prior []string
}

var dnsLabels = []string{"com", "co", "uk", "a", "b", "example", "xn--p1ai", "net", "an", "om", "0", "münchen", "x-y", "test"}

func genDNSName(t *rapid.T, name string, lo, hi int) string {
	n := intn(t, name+"labels", lo, hi)
	var ls []string
	for i := 0; i < n; i++ {
		if chance(t, "rndlabel", 15) {
			ls = append(ls, word(t, "lab"))
		} else {
			ls = append(ls, dnsLabels[intn(t, name, 0, len(dnsLabels)-1)])
		}
	}
	return strings.Join(ls, ".")
}

func genDNSCase(t *rapid.T) dnsCase {
	n := intn(t, "n", 0, 14)
	var entries []string
	for i := 0; i < n; i++ {
		lo := 1
		if chance(t, "root", 5) {
			lo = 0
		}
		e := genDNSName(t, "e", lo, 4)
		if lo == 0 {
			e = ""
		}
		entries = append(entries, e)
		if chance(t, "child", 40) && e != "" {
			entries = append(entries, genDNSName(t, "c", 1, 2)+"."+e)
		}
	}
	entries = unique(entries)
	f := RegFile{Services: genServices(t, entries, false), Pretty: chance(t, "pretty", 20), Pad: genPad(t)}
	var q string
	switch {
	case len(entries) > 0 && chance(t, "fromentry", 75):
		e := entries[intn(t, "ei", 0, len(entries)-1)]
		switch intn(t, "how", 0, 5) {
		case 0:
			q = e
		case 1, 2:
			q = genDNSName(t, "p", 1, 3) + "." + e
		case 3: // not on a label boundary
			q = word(t, "glue") + e
			if chance(t, "sym", 40) {
				q = pick(t, "above", "", "a.", "www.", "a.b.") + pick(t, "gl", "_", "-", "__", "*", "xn--", "www", "0", " ", "%", "/", "\\") + e
			}
		case 4: // drop the first character
			q = e
			if len(q) > 0 && q[0] < 0x80 {
				q = q[1:]
			}
		case 5:
			q = e + "." + genDNSName(t, "s", 1, 1)
		}
	default:
		q = genDNSName(t, "q", 0, 5)
	}
	if chance(t, "unusual", 12) {
		switch uni(t, "un", 6) {
		case 0: // very deep
			q = strings.Repeat(pick(t, "rep", "a.", "com.", "x-y."), intn(t, "deep", 5, 140)) + q
		case 1: // very long label
			q = strings.Repeat("l", intn(t, "long", 40, 400)) + "." + q
		case 2: // empty labels
			q = strings.Replace(q, ".", "..", intn(t, "nd", 1, 2))
		case 3:
			q = pick(t, "pre", ".", "*.", "_dmarc.", "a b.", "%2e.", "a/b.", "..", "\x00.") + q
		case 4:
			q += "."
		case 5:
			q = strings.Replace(q, ".", pick(t, "sep", "-", "%2E", ",", "。"), 1)
		}
	}
	q = randCase(t, q)
	if chance(t, "dot", 25) {
		q += "."
	}
	return dnsCase{f, q, genPrior(t, f, q)}
}

func checkDNS(c *Ctx, k dnsCase) error {
	m := k.File.model()
	q := strings.ToLower(k.Query)
	if strings.HasSuffix(q, ".") {
		q = q[:len(q)-1]
	}
	labels := strings.Split(q, ".")
	wantEntry, matches := "", 0
	var want []string
	for i := 0; i <= len(labels); i++ {
		s := strings.Join(labels[i:], ".")
		if u, ok := m[s]; ok {
			if matches == 0 {
				wantEntry, want = s, u
			}
			matches++
		}
	}
	c.Label("matches=%d", min(matches, 3))
	c.LabelIf(k.Query != q, "canonicalised")
	c.NonTrivial(matches > 0 || len(m) > 2)
	got, err := lookupBoth(bootstrap.DNS, k.File.JSON(), k.Query, k.Prior)
	if err != nil {
		return err
	}
	if err := expectMatch(got, wantEntry, want); err != nil {
		return errf("query %q: %w", k.Query, err)
	}
	if got.query != q {
		return errf("query %q: canonical query reported as %q, want %q", k.Query, got.query, q)
	}
	return nil
}

// ---------------------------------------------------------------- C02

type ipCase struct {
	File  RegFile
	V6    bool
	Query string
	Bad   bool // malformed, or of the other address family
	Prior []string
}

func genAddr(t *rapid.T, v6 bool) netip.Addr {
	if v6 {
		var a [16]byte
		a[0], a[1] = 0x20, byte(pick(t, "a1", 0x01, 0x02, 0x03))
		for i := 2; i < 16; i++ {
			if chance(t, "nz", 35) {
				a[i] = byte(intn(t, "b", 0, 255))
			}
		}
		if chance(t, "anyv6", 10) {
			a[0] = byte(pick(t, "hi", 0, 0xff, 0xfe, 0x80, 0x2a))
			a[2] |= 1 // keep clear of the IPv4-mapped block
		}
		return netip.AddrFrom16(a)
	}
	var a [4]byte
	for i := range a {
		a[i] = byte(pick(t, "oct", 0, 1, 2, 10, 41, 127, 128, 192, 254, 255))
	}
	if chance(t, "rnd4", 30) {
		a[intn(t, "pos", 0, 3)] = byte(intn(t, "val", 0, 255))
	}
	return netip.AddrFrom4(a)
}

func genPrefix(t *rapid.T, v6 bool) netip.Prefix {
	max := 32
	if v6 {
		max = 128
	}
	bits := intn(t, "bits", 0, max)
	if chance(t, "commonbits", 50) {
		bits = min(max, pick(t, "cb", 0, 1, 7, 8, 9, 12, 16, 20, 23, 24, 25, 31, 32, 48, 64, 127, 128))
	}
	return netip.PrefixFrom(genAddr(t, v6), bits).Masked()
}

func lastAddr(p netip.Prefix) netip.Addr {
	b := p.Addr().AsSlice()
	for i := p.Bits(); i < len(b)*8; i++ {
		b[i/8] |= 1 << (7 - i%8)
	}
	a, _ := netip.AddrFromSlice(b)
	return a
}

func isMapped(a netip.Addr) bool { return a.Is4In6() }

func genIPCase(t *rapid.T) ipCase {
	k := genIPCase0(t)
	k.Prior = genPrior(t, k.File, k.Query)
	return k
}

func genIPCase0(t *rapid.T) ipCase {
	v6 := chance(t, "v6", 50)
	n := intn(t, "n", 0, 16)
	var ps []netip.Prefix
	for i := 0; i < n; i++ {
		p := genPrefix(t, v6)
		ps = append(ps, p)
		if chance(t, "nest", 35) { // a more specific network inside
			max := p.Addr().BitLen()
			if p.Bits() < max {
				a := p.Addr()
				if chance(t, "last", 50) {
					a = lastAddr(p)
				}
				ps = append(ps, netip.PrefixFrom(a, intn(t, "nb", p.Bits()+1, max)).Masked())
			}
		}
		if chance(t, "sib", 25) && p.Bits() > 0 { // the adjacent network
			if nx := lastAddr(p).Next(); nx.IsValid() {
				ps = append(ps, netip.PrefixFrom(nx, p.Bits()).Masked())
			}
		}
	}
	if chance(t, "bulk", 3) && len(ps) > 0 { // many networks of one size
		p := ps[0]
		n := intn(t, "bulkn", 20, 150)
		if intn(t, "bulkbig", 0, 40) == 40 {
			n = intn(t, "bulkbign", 200, 1500)
		}
		for i := n; i > 0 && p.Bits() > 0; i-- {
			nx := lastAddr(p).Next()
			if !nx.IsValid() {
				break
			}
			p = netip.PrefixFrom(nx, p.Bits()).Masked()
			if i%7 != 3 {
				ps = append(ps, p)
			}
		}
	}
	var entries []string
	var clean []netip.Prefix
	for _, p := range ps {
		if v6 && (isMapped(p.Addr()) || isMapped(lastAddr(p))) {
			continue
		}
		entries = append(entries, p.String())
		clean = append(clean, p)
	}
	if chance(t, "junk", 25) {
		entries = append(entries, pick(t, "jk", "foo", "10.0.0.0/33", "2001:db8::/129", "1.2.3.0", "300.0.0.0/8", "", "/8"))
	}
	if chance(t, "otherfam", 25) {
		entries = append(entries, genPrefix(t, !v6).String())
	}
	entries = permute(t, unique(entries))
	k := ipCase{V6: v6, File: RegFile{Services: genServices(t, entries, false), Pad: genPad(t)}}
	switch h := intn(t, "how", 0, 9); {
	case h <= 5 && len(clean) > 0:
		p := clean[intn(t, "pi", 0, len(clean)-1)]
		a := p.Addr()
		switch intn(t, "where", 0, 4) {
		case 0:
		case 1:
			a = lastAddr(p)
		case 2:
			if x := p.Addr().Prev(); x.IsValid() {
				a = x
			}
		case 3:
			if x := lastAddr(p).Next(); x.IsValid() {
				a = x
			}
		case 4: // somewhere inside
			b := a.AsSlice()
			r := genAddr(t, v6).AsSlice()
			for i := p.Bits(); i < len(b)*8; i++ {
				b[i/8] |= r[i/8] & (1 << (7 - i%8))
			}
			a, _ = netip.AddrFromSlice(b)
		}
		k.Query = a.String()
		if chance(t, "cidr", 50) {
			max := a.BitLen()
			bits := intn(t, "qb", 0, max)
			if chance(t, "nearbits", 60) {
				bits = p.Bits() + pick(t, "d", -1, 0, 1)
				bits = max0(min(bits, max))
			}
			q := netip.PrefixFrom(a, bits)
			if chance(t, "masked", 70) {
				q = q.Masked()
			}
			k.Query = q.String()
			if isMapped(q.Masked().Addr()) {
				k.Query = a.String()
			}
		}
		if isMapped(a) {
			k.Query = "2001:db8::1"
		}
	case h <= 7:
		a := genAddr(t, v6)
		if isMapped(a) {
			a = netip.MustParseAddr("2001:db8::1")
		}
		k.Query = a.String()
		if v6 && chance(t, "form", 40) {
			k.Query = a.StringExpanded()
			if chance(t, "up", 50) {
				k.Query = strings.ToUpper(k.Query)
			}
		}
	case h == 8: // the other address family
		k.Bad = true
		if chance(t, "net", 50) {
			p := genPrefix(t, !v6)
			for isMapped(p.Addr()) {
				p = netip.MustParsePrefix("2001:db8::/32")
			}
			k.Query = p.String()
		} else {
			k.Query = genAddr(t, !v6).String()
		}
	default:
		k.Bad = true
		k.Query = pick(t, "bad", "", "foo", "192.0.2.1%eth0", "10.0.0.1%25", "1.2.3.4%", "1.2.3", "1.2.3.4.5", "256.1.1.1", "1.2.3.4/33", "1.2.3.4/-1", "1.2.3.4/", "/24", "2001:db8::/129",
			"2001:db8:::1", "2001:db8::1::2", "12345::", "1.2.3.4/24/8", "AS12", "example.com", "1.2.3.4 ", " 1.2.3.4", ":", "g::1")
	}
	return k
}

func max0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

func checkIP(c *Ctx, k ipCase) error {
	rt := bootstrap.IPv4
	if k.V6 {
		rt = bootstrap.IPv6
	}
	got, err := lookupBoth(rt, k.File.JSON(), k.Query, k.Prior)
	if err != nil {
		return err
	}
	if k.Bad {
		c.Label("bad")
		c.NonTrivial(true)
		if got.err == nil || len(got.urls) > 0 {
			return errf("query %q is not a %s address or network, but got %+v", k.Query, rt, got)
		}
		return nil
	}
	var q netip.Prefix
	if strings.Contains(k.Query, "/") {
		q = netip.MustParsePrefix(k.Query).Masked()
		c.Label("cidr")
	} else {
		a := netip.MustParseAddr(k.Query)
		q = netip.PrefixFrom(a, a.BitLen())
	}
	m := k.File.model()
	best, n := "", 0
	var want []string
	bits := -1
	for e, us := range m {
		p, err := netip.ParsePrefix(e)
		if err != nil || p.Addr().Is4() == k.V6 {
			continue
		}
		if p.Bits() <= q.Bits() && p.Contains(q.Addr()) {
			n++
			if p.Bits() > bits {
				bits, best, want = p.Bits(), p.String(), us
			}
		}
	}
	c.Label("covering=%d", min(n, 3))
	c.NonTrivial(n > 0 || len(m) > 2)
	if err := expectMatch(got, best, want); err != nil {
		return errf("query %q: %w", k.Query, err)
	}
	gq, perr := netip.ParsePrefix(got.query)
	if perr != nil {
		a, aerr := netip.ParseAddr(got.query)
		if aerr != nil {
			return errf("query %q reported as %q", k.Query, got.query)
		}
		gq = netip.PrefixFrom(a, a.BitLen())
	}
	if gq.Masked() != q {
		return errf("query %q reported as %q", k.Query, got.query)
	}
	return nil
}

// ---------------------------------------------------------------- C03

type asnCase struct {
	File  RegFile
	Query string
	Bad   bool
	Prior []string
}

func genASNCase(t *rapid.T) asnCase {
	k := genASNCase0(t)
	k.Prior = genPrior(t, k.File, k.Query)
	return k
}

func genASNCase0(t *rapid.T) asnCase {
	// Disjoint ranges from sorted distinct cut points.
	n := intn(t, "n", 0, 12)
	cuts := map[uint32]bool{}
	for i := 0; i < n*2; i++ {
		var v uint32
		switch intn(t, "kind", 0, 3) {
		case 0:
			v = uint32(intn(t, "small", 0, 40))
		case 1:
			v = uint32(intn(t, "mid", 0, 70000))
		case 2:
			v = 4294967295 - uint32(intn(t, "hi", 0, 40))
		default:
			v = rapid.Uint32().Draw(t, "v")
		}
		cuts[v] = true
	}
	if chance(t, "bulk", 3) {
		v := uint32(intn(t, "from", 1, 70000))
		n := intn(t, "bulkn", 40, 300)
		if intn(t, "bulkbig", 0, 40) == 40 {
			n = intn(t, "bulkbign", 300, 3000)
		}
		for i := n; i > 0; i-- {
			v += uint32(1 + (i*i)%17)
			cuts[v] = true
		}
	}
	var pts []uint32
	for v := range cuts {
		pts = append(pts, v)
	}
	sort.Slice(pts, func(i, j int) bool { return pts[i] < pts[j] })
	var entries []string
	var edges []uint32
	for i := 0; i < len(pts); {
		if i+1 < len(pts) && !chance(t, "single", 30) {
			if chance(t, "reversed", 4) {
				entries = append(entries, fmt.Sprintf("%d-%d", pts[i+1], pts[i]))
			} else {
				entries = append(entries, fmt.Sprintf("%d-%d", pts[i], pts[i+1]))
			}
			edges = append(edges, pts[i], pts[i+1])
			i += 2
		} else {
			if chance(t, "dash", 20) {
				entries = append(entries, fmt.Sprintf("%d-%d", pts[i], pts[i]))
			} else {
				entries = append(entries, fmt.Sprintf("%d", pts[i]))
			}
			edges = append(edges, pts[i])
			i++
		}
	}
	if chance(t, "junk", 25) {
		entries = append(entries, pick(t, "jk", "x-y", "1-2-3", "4294967296", "", "foo", "10-4294967296", "-"))
	}
	if chance(t, "nearjunk", 12) {
		// Almost a number or range, and so not an entry.
		v := uint32(intn(t, "jv", 1, 70000))
		entries = append(entries, fmt.Sprintf(pick(t, "jfmt", "%[1]d-", "-%[1]d", "%[1]d--%[2]d", "%[1]d-%[2]d-%[2]d", "%[1]d-%[2]d-", "AS%[1]d-AS%[2]d", "AS%[1]d", "AS%[1]d-%[2]d", "%[1]d - %[2]d", "%[1]d-%[2]d ", " %[1]d", "%[1]d..%[2]d", "+%[1]d", "0x%[1]d", "%[1]d-+%[2]d", "%[1]d/%[2]d", "%[1]d,%[2]d", "%[1]d.0", "%[1]d_0", "%[1]d–%[2]d"), v, v+9))
		edges = append(edges, v, v+9)
	}
	entries = permute(t, unique(entries))
	k := asnCase{File: RegFile{Services: genServices(t, entries, false), Pad: genPad(t)}}
	if chance(t, "bad", 12) {
		k.Bad = true
		k.Query = pick(t, "bq", "", "AS", "ASx", "4294967296", "AS4294967296", "-1", "sas12", "aas12", "ASAS5", "s5", "a5", "1.2", "AS 5", "example.com", "0x10", "5AS", "1e3", "AS-5", "18446744073709551621")
		if len(edges) > 0 && chance(t, "bnum", 60) {
			// Close to a number that is listed.
			n := strconv.FormatUint(uint64(edges[uni(t, "bi", len(edges))]), 10)
			k.Query = fmt.Sprintf(pick(t, "bfmt", "+%s", "AS+%s", "as+%s", "-%s", "AS-%s", " %s", "%s ", "AS %s", "AS %s ", "%s.0", "%s.", "0.%s", "%s,", "%s-%[1]s", "AS:%s", "AS#%s", "ASN%s", "asn%s", "AS.%s", "%s_0", "0x%s", "%s\x00", "\x00%s", "%s\n", "AS%s/32", "ASAS%s", "%sAS", "A%s", "S%s", "٠%s", "%s９", "'%s'", "AS(%s)", "%s%%", "%s%[1]s%[1]s%[1]s4294967296"), n)
		}
		return k
	}
	var v uint32
	if len(edges) > 0 && chance(t, "edge", 80) {
		v = edges[intn(t, "ei", 0, len(edges)-1)] + uint32(pick(t, "d", 0, 0, 0, 1, -1, 2, -2))
	} else {
		v = rapid.Uint32().Draw(t, "q")
	}
	k.Query = pick(t, "pfx", "", "AS", "as", "As", "aS") + strconv.FormatUint(uint64(v), 10)
	return k
}

var digits = regexp.MustCompile(`\d+`)

func checkASN(c *Ctx, k asnCase) error {
	got, err := lookupBoth(bootstrap.ASN, k.File.JSON(), k.Query, k.Prior)
	if err != nil {
		return err
	}
	if k.Bad {
		c.Label("bad")
		c.NonTrivial(true)
		if got.err == nil || len(got.urls) > 0 {
			return errf("query %q is not an AS number, but got %+v", k.Query, got)
		}
		return nil
	}
	num := digits.FindString(k.Query)
	v, _ := strconv.ParseUint(num, 10, 32)
	var want []string
	lo, hi, found := uint64(0), uint64(0), false
	for e, us := range k.File.model() {
		parts := strings.Split(e, "-")
		var ns []uint64
		for _, p := range parts {
			n, err := strconv.ParseUint(p, 10, 32)
			if err != nil {
				ns = nil
				break
			}
			ns = append(ns, n)
		}
		if len(ns) != len(parts) || len(ns) == 0 || len(ns) > 2 {
			continue
		}
		a, b := min(ns[0], ns[len(ns)-1]), max(ns[0], ns[len(ns)-1])
		if a <= v && v <= b {
			want, lo, hi, found = us, a, b, true
		}
	}
	c.LabelIf(found, "match")
	c.LabelIf(found && (v == lo || v == hi), "at-edge")
	c.NonTrivial(found || len(k.File.Services) > 1)
	if got.err != nil {
		return errf("query %q: %s", k.Query, got.err)
	}
	if !strEq(got.urls, want) {
		return errf("query %q: URLs %q, want %q", k.Query, got.urls, want)
	}
	if got.query != num {
		return errf("query %q reported as %q, want %q", k.Query, got.query, num)
	}
	if found != (got.entry != "") {
		return errf("query %q: entry %q but match=%v", k.Query, got.entry, found)
	}
	if found {
		ds := digits.FindAllString(got.entry, -1)
		w := []string{strconv.FormatUint(lo, 10), strconv.FormatUint(hi, 10)}
		if len(ds) == 1 {
			ds = append(ds, ds[0])
		}
		if !strEq(ds, w) {
			return errf("query %q: matching entry reported as %q, want the range %v", k.Query, got.entry, w)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C04

type tagCase struct {
	File  RegFile
	Query string
	Tag   string // the tag the query carries, "" for none
	Prior []string
}

func genTag(t *rapid.T) string {
	if chance(t, "known", 60) {
		return pick(t, "tag", "VRSN", "ARIN", "RIPE", "A", "AB", "ABC", "FRNIC", "9", "VR", "SN")
	}
	n := intn(t, "tn", 1, 6)
	if chance(t, "longtag", 10) {
		n = intn(t, "ltn", 7, 70)
	}
	b := make([]byte, n)
	chars := pick(t, "chars", "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789", "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789", "abcXYZ0189_.")
	for i := range b {
		b[i] = chars[uni(t, "tc", len(chars))]
	}
	return string(b)
}

// nearTag gives a tag that differs a little from the given one.
func nearTag(t *rapid.T, tag string) string {
	switch uni(t, "near", 8) {
	case 0:
		return strings.ToLower(tag)
	case 1:
		return strings.ToUpper(tag)
	case 2:
		return strings.ToUpper(tag[:1]) + strings.ToLower(tag[1:])
	case 3:
		return tag[1:]
	case 4:
		return tag[:len(tag)-1]
	case 5:
		return tag + pick(t, "suf", "0", "S", " ", ".", "\n", "\x00", "/")
	case 6:
		return pick(t, "pre", "0", "X", " ") + tag
	}
	return tag + tag
}

func genTagCase(t *rapid.T) tagCase {
	k := genTagCase0(t)
	k.Prior = genPrior(t, k.File, k.Query)
	return k
}

func genTagCase0(t *rapid.T) tagCase {
	compound := false
	n := intn(t, "n", 0, 8)
	var tags []string
	for i := 0; i < n; i++ {
		tags = append(tags, genTag(t))
	}
	if chance(t, "compound", 15) {
		// Never a tag: a tag has no separator.
		for i := intn(t, "comp", 1, 3); i > 0; i-- {
			tags = append(tags, genTag(t)+pick(t, "csep", "-", "~")+genTag(t))
		}
		compound = true
	}
	tags = unique(tags)
	k := tagCase{File: RegFile{Services: genServices(t, tags, true), Pad: genPad(t)}}
	tag := genTag(t)
	if len(tags) > 0 && chance(t, "reg", 65) {
		tag = tags[intn(t, "ti", 0, len(tags)-1)]
		if chance(t, "near?", 30) {
			tag = nearTag(t, tag)
		}
	}
	handle := pick(t, "handle", "12345", "OPS4", "a-b", "x~y", "-", "", "H-"+genTag(t), "H~"+genTag(t), "日本", "a b", "A-")
	switch intn(t, "form", 0, 7) {
	case 0:
		k.Query = tag // no tag separator: no service tag
	case 1:
		k.Query = handle + pick(t, "sep", "-", "~") // empty tag
	case 2:
		k.Query = pick(t, "plain", "", "OPS4", "foo bar", "12345", "VRSN")
	default:
		k.Query = handle + pick(t, "sep2", "-", "-", "-", "~") + tag
		k.Tag = tag
	}
	if compound {
		if i := strings.LastIndexAny(k.Query, "-~"); i >= 0 {
			k.Tag = k.Query[i+1:]
		}
	}
	return k
}

func checkTag(c *Ctx, k tagCase) error {
	got, err := lookupBoth(bootstrap.ServiceProvider, k.File.JSON(), k.Query, k.Prior)
	if err != nil {
		return err
	}
	m := k.File.model()
	var want []string
	entry := ""
	if u, ok := m[k.Tag]; ok && k.Tag != "" {
		want, entry = u, k.Tag
	}
	c.LabelIf(entry != "", "match")
	c.LabelIf(k.Tag == "", "untagged")
	c.NonTrivial(entry != "" || len(m) > 0)
	if err := expectMatch(got, entry, want); err != nil {
		return errf("query %q: %w", k.Query, err)
	}
	if got.query != k.Query {
		return errf("query %q reported as %q", k.Query, got.query)
	}
	return nil
}

// ---------------------------------------------------------------- C05

type fileCase struct {
	File  RegFile
	Extra map[string]any // further top level members
	Break string         // "" or how the document is broken
	At    int
	Raw   string // for Break=="raw"
	Space string // white space around the document
}

var brokenServices = []string{
	`[]`, `[["a"]]`, `[["a"],["http://x.example/"],["c"],["d"]]`, `"x"`, `5`, `{}`, `["a","http://x.example/"]`, `[["a"],"http://x.example/"]`,
	`[[5],["http://x.example/"]]`, `[["a"],[5]]`, `[["a"],[null,{}]]`, `[{"a":1},["http://x.example/"]]`, `true`,
	`null`, `[["a",null],["http://x.example/"]]`, `[[null],["http://x.example/"]]`, `[["a"],[null]]`, `[["a"],["http://x.example/",null]]`, `[[["a"]],["http://x.example/"]]`, `[["c"],["a",null],["http://x.example/"]]`,
}

func genFileCase(t *rapid.T) fileCase {
	n := intn(t, "n", 0, 10)
	var entries []string
	for i := 0; i < n; i++ {
		entries = append(entries, pick(t, "e", genDNSName(t, "d", 1, 2), fmt.Sprintf("%d-%d", i*10, i*10+5), fmt.Sprintf("10.%d.0.0/16", i), rapid.StringN(0, 6, -1).Draw(t, "s")))
	}
	entries = unique(entries)
	k := fileCase{File: RegFile{Services: genServices(t, entries, false), Desc: rapid.StringN(0, 12, -1).Draw(t, "desc"), Pub: "2024-01-01T00:00:00Z", Ver: pick(t, "ver", "1.0", "", "2"), Pretty: chance(t, "pretty", 30), Pad: genPad(t)}}
	if intn(t, "huge", 0, 600) == 600 {
		// As many services, or entries of one service, as the real files have.
		n, group := intn(t, "hugen", 100, 3000), pick(t, "hugegroup", 1, 1, 2, 5000)
		var ss []Service
		for i := 0; i < n; i++ {
			e := pick2(n, fmt.Sprintf("tld%d", i), fmt.Sprintf("%d-%d", i*10, i*10+5), fmt.Sprintf("10.%d.%d.0/24", i/256, i%256))
			if i%group == 0 {
				ss = append(ss, Service{URLs: []string{fmt.Sprintf("https://h%d.example/", i)}})
			}
			ss[len(ss)-1].Entries = append(ss[len(ss)-1].Entries, e)
		}
		k.File.Services = ss
	}
	for i := range k.File.Services {
		if i < 12 {
			k.File.Services[i].Contact = chance(t, "contact", 30)
			k.File.Services[i].NoMail = chance(t, "nomail", 20)
		}
	}
	k.Space = pick(t, "space", "", "", "", "", "", "\n", "\r\n", " \t", "\n\n  ")
	if chance(t, "extra", 30) {
		k.Extra = map[string]any{"x_" + word(t, "xk"): pick[any](t, "xv", "v", 5.0, true, nil, []any{"a"}, map[string]any{"b": "c"})}
	}
	switch intn(t, "brk", 0, 9) {
	case 0, 1:
		k.Break = "truncate"
		k.At = intn(t, "at", 0, 1<<20)
	case 2, 3:
		k.Break = "service"
		k.At = intn(t, "sat", 0, 1<<20)
		k.Raw = pick(t, "bs", brokenServices...)
	case 4:
		if chance(t, "around", 50) {
			k.Break = pick(t, "where", "trail", "lead")
			k.Raw = pick(t, "junk", "x", "}", "{}", " 5", ",", "]", "\x00", "null", "\ufeff", "\n[]", "//", "{\"services\":[]}", "\n{\"services\":[]}\n", "\x00\x00\x00\x00", "\n}", ";")
			break
		}
		k.Break = "raw"
		k.Raw = pick(t, "raw", "", " ", "[]", `"x"`, "5", "{", "}", "{}x", "{}{}", `{"services":5}`, `{"services":{}}`, `{"services":"x"}`, `{"services":[5]}`, "<html></html>", "\x00", `{"services":[[["a"],["http://x/"]],]}`, `{"version":5,"services":[]}`,
			"null", "{}", `{"services":null}`, `{"version":"1.0"}`, `{"errorCode":429,"title":"slow down"}`, `{"service":[[["a"],["http://x/"]]]}`)
	}
	return k
}

func (k fileCase) bytes() []byte {
	b := k.File.JSON()
	if len(k.Extra) > 0 {
		var m map[string]json.RawMessage
		json.Unmarshal(b, &m)
		for x, v := range k.Extra {
			m[x] = mustJSON(v)
		}
		b = mustJSON(m)
	}
	if k.Space != "" && k.Break == "" {
		b = append(append([]byte(k.Space), b...), k.Space...)
	}
	switch k.Break {
	case "truncate":
		return b[:k.At%len(b)]
	case "service":
		var m map[string]json.RawMessage
		json.Unmarshal(b, &m)
		var ss []json.RawMessage
		json.Unmarshal(m["services"], &ss)
		at := k.At % (len(ss) + 1)
		ns := append([]json.RawMessage{}, ss[:at]...)
		ns = append(ns, json.RawMessage(k.Raw))
		ns = append(ns, ss[at:]...)
		m["services"] = mustJSON(ns)
		return mustJSON(m)
	case "raw":
		return []byte(k.Raw)
	case "trail":
		return append(b, k.Raw...)
	case "lead":
		return append([]byte(k.Raw), b...)
	}
	return b
}

func checkFile(c *Ctx, k fileCase) error {
	doc := k.bytes()
	orig := append([]byte{}, doc...)
	c.Label("break=%s", k.Break)
	c.NonTrivial(k.Break != "" || len(k.File.Services) > 0)
	f, err := bootstrap.NewFile(doc)
	for _, rt := range []bootstrap.RegistryType{bootstrap.DNS, bootstrap.IPv4, bootstrap.IPv6, bootstrap.ASN, bootstrap.ServiceProvider} {
		reg, rerr := newReg(rt, doc)
		if (rerr == nil) != (err == nil) {
			return errf("NewFile err=%v but %s registry err=%v", err, rt, rerr)
		}
		if rerr == nil {
			if reg.File() == nil || !bytes.Equal(reg.File().JSON, orig) {
				return errf("%s registry: File().JSON is not the document", rt)
			}
			if len(reg.File().Entries) != len(f.Entries) {
				return errf("%s registry: File() has %d entries, want %d", rt, len(reg.File().Entries), len(f.Entries))
			}
		}
	}
	if k.Break != "" {
		if err == nil {
			return errf("broken registry file accepted (%s): %.300s", k.Break, doc)
		}
		return nil
	}
	if err != nil {
		return errf("valid registry file rejected: %s", err)
	}
	if !bytes.Equal(doc, orig) {
		return errf("the document was modified")
	}
	if f.Description != k.File.Desc || f.Publication != k.File.Pub || f.Version != k.File.Ver {
		return errf("header fields %q %q %q", f.Description, f.Publication, f.Version)
	}
	if !bytes.Equal(f.JSON, orig) {
		return errf("File.JSON is not the document")
	}
	want := k.File.model()
	for e, us := range want {
		if !strEq(urlStrings(f.Entries[e]), us) {
			return errf("entry %q: URLs %q, want %q", e, urlStrings(f.Entries[e]), us)
		}
	}
	for e := range f.Entries {
		if _, ok := want[e]; !ok {
			return errf("entry %q is not in the file", e)
		}
	}
	return nil
}

func init() {
	register(&Prop{ID: "C01", Level: "exploration",
		Rule: "registry files of up to ~28 nested/adjacent DNS entries spread over services with shuffled and partly unusable URLs; the query is derived from an entry (exact, below it, glued without a dot, cut, above it) or random, with mixed case and trailing dots. Oracle: the longest label-wise suffix found in the file. Non-trivial: some entry matches, or the file has >2 entries.",
		Subs: []*Sub{sub("suffix", 480000, 4000000, genDNSCase, checkDNS)}})
	register(&Prop{ID: "C02", Level: "exploration",
		Rule: "registry files of nested, adjacent and random IPv4/IPv6 prefixes (plus malformed and other-family entries); queries are first/last/neighbouring/inside addresses of an entry, CIDR queries with a length near an entry's, random addresses in several spellings, and malformed or wrong-family text. Oracle: brute force over netip prefixes. Non-trivial: an entry covers the query, the query is bad, or the file has >2 entries.",
		Subs: []*Sub{sub("prefix", 480000, 4000000, genIPCase, checkIP)}})
	register(&Prop{ID: "C03", Level: "exploration",
		Rule:        "registry files of disjoint AS ranges and single numbers (incl. 0 and 2^32-1, malformed entries, shuffled); queries at, beside and between range ends, with all AS prefix spellings, and malformed AS numbers. Oracle: linear scan. Non-trivial: a range matches, the query is malformed, or the file has >1 service.",
		Assumptions: []string{"ranges of one registry file do not overlap (as published by IANA)"},
		Subs:        []*Sub{sub("range", 480000, 4000000, genASNCase, checkASN)}})
	register(&Prop{ID: "C04", Level: "exploration",
		Rule: "object-tag registries and handles with one or more separators (- and ~), registered/unregistered/empty/missing tags. Oracle: the text after the last separator looked up exactly. Non-trivial: the registry has a tag.",
		Subs: []*Sub{sub("tag", 480000, 4000000, genTagCase, checkTag)}})
	register(&Prop{ID: "C05", Level: "exploration",
		Rule: "registry documents with mixed two/three element services, unusable URLs, unknown members; a third are broken: cut at a generated byte, one malformed service inserted at a generated position, or not a registry document. Oracle: the generator's own entry table, exact both ways; broken documents must be rejected by every constructor. Non-trivial: broken, or at least one service.",
		Subs: []*Sub{sub("file", 300000, 2500000, genFileCase, checkFile)}})
}
