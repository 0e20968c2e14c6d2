package main

import (
	"context"
	"errors"
	"net"
	"net/http"
	"net/netip"
	"net/url"
	"reflect"
	"strconv"
	"strings"

	"github.com/openrdap/rdap"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C11, C12

// reqKind is the documented form of one request type.
type reqKind struct {
	typ   rdap.RequestType
	name  string
	path  string // path segment(s) before the query, or the whole path for searches
	param string // search parameter
}

var reqKinds = []reqKind{
	{rdap.DomainRequest, "domain", "domain/", ""},
	{rdap.AutnumRequest, "autnum", "autnum/", ""},
	{rdap.EntityRequest, "entity", "entity/", ""},
	{rdap.IPRequest, "ip", "ip/", ""},
	{rdap.NameserverRequest, "nameserver", "nameserver/", ""},
	{rdap.HelpRequest, "help", "help", ""},
	{rdap.DomainSearchRequest, "domain-search", "domains", "name"},
	{rdap.DomainSearchByNameserverRequest, "domain-search-by-nameserver", "domains", "nsLdhName"},
	{rdap.DomainSearchByNameserverIPRequest, "domain-search-by-nameserver-ip", "domains", "nsIp"},
	{rdap.NameserverSearchRequest, "nameserver-search", "nameservers", "name"},
	{rdap.NameserverSearchByNameserverIPRequest, "nameserver-search-by-ip", "nameservers", "ip"},
	{rdap.EntitySearchRequest, "entity-search", "entities", "fn"},
	{rdap.EntitySearchByHandleRequest, "entity-search-by-handle", "entities", "handle"},
	{rdap.AutnumSearchRequest, "autnum-search", "autnums", "handle"},
	{rdap.RawRequest, "url", "", ""},
}

func genServerURL(t *rapid.T) string {
	s := pick(t, "scheme", "https", "http") + "://"
	if chance(t, "user", 15) {
		s += pick(t, "userinfo", "u@", "user:pw@", "u%40x:p%2Fw@", ":pw@", "u:@")
	}
	s += pick(t, "host", "rdap.example", "RDAP.Example.com", "192.0.2.1", "[2001:db8::1]", "x.example:8080", "[2001:db8::1]:8443", "a")
	s += pick(t, "path", "", "", "/", "/", "/rdap", "/rdap/", "/a/b", "/a/b/", "/v1//", "/a%20b/", "/a%2Fb", "/%7Euser/", "/a;b=c/", "/a.b/../c", "/x+y", "/(z)!*'")
	if chance(t, "squery", 25) {
		n := intn(t, "nq", 1, 3)
		v := []string{}
		for i := 0; i < n; i++ {
			v = append(v, url.QueryEscape(pick(t, "qk", "key", "name", "handle", "a b", "x", "nsIp", "é"))+"="+url.QueryEscape(pick(t, "qv", "1", "", "a&b=c", "%", "v 2", "#?/")))
		}
		s += "?" + strings.Join(v, "&")
	} else if chance(t, "emptyq", 4) {
		s += "?"
	}
	if chance(t, "sfrag", 12) {
		s += "#" + pick(t, "frag", "top", "a%20b", "x/y?z")
	}
	return s
}

var nastyPieces = []string{"/", "?", "#", "%", "%2F", "%2e%2e", "..", "../", ".", ":", "@", "//", "\\", " ", "+", "&", "=", ";", ",", "\n", "\r\n", "\t", "\x00", "\x7f", "\xff", "é", "münchen", "日本", "*", "(", ")", "!", "'", "\"", "<", ">", "[", "]", "{", "}", "|", "^", "`", "~", "$", "_", "-", "://", "@evil.example", "?a=b", "#frag", "%zz", "\u2028", "\ufffd", "%25", "%2525", "%41", "%C3%A9", "%00", "%20", "%3f"}

func genQueryText(t *rapid.T) Q {
	switch uni(t, "qkind", 4) {
	case 0:
		return Q(pick(t, "plain", "example.com", "192.0.2.0", "192.0.2.0/24", "2001:db8::/32", "2001:db8::1", "AS64500", "64500", "H1-VRSN", "ns1.example.com", "exam*.com", "", "xn--p1ai", "EXAMPLE.Com."))
	case 1:
		n := intn(t, "nb", 0, 12)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(uni(t, "byte", 256))
		}
		return Q(b)
	default:
		n := intn(t, "np", 1, 5)
		s := ""
		for i := 0; i < n; i++ {
			if chance(t, "nasty", 60) {
				s += pick(t, "piece", nastyPieces...)
			} else {
				s += word(t, "w")
			}
		}
		return Q(s)
	}
}

type urlCase struct {
	Kind   int
	Query  Q
	Server string
	Params map[string][]Q
	Ops    []int
	Verb   bool
	Ctor   bool // made by a New...Request function
}

func genURLCase(t *rapid.T) urlCase {
	k := urlCase{Kind: uni(t, "kind", len(reqKinds)), Query: genQueryText(t), Server: genServerURL(t), Verb: chance(t, "verb", 20), Ctor: chance(t, "ctor", 40)}
	if k.Ctor && reqKinds[k.Kind].typ == rdap.IPRequest {
		v6 := chance(t, "v6", 50)
		a := genAddr(t, v6)
		if k.Query = Q(a.String()); chance(t, "net", 50) {
			k.Query = Q(netip.PrefixFrom(a, intn(t, "bits", 0, a.BitLen())).Masked().String())
		}
	}
	if k.Ctor && reqKinds[k.Kind].typ == rdap.AutnumRequest {
		k.Query = Q(strconv.FormatUint(uint64(rapid.Uint32().Draw(t, "asn")), 10))
	}
	if chance(t, "params", 35) {
		k.Params = map[string][]Q{}
		n := intn(t, "np", 1, 3)
		for i := 0; i < n; i++ {
			key := pick(t, "pk", "key", "name", "jscard", "ip", "fn", "handle", "nsLdhName", "a b", "x&y", "é")
			vs := []Q{}
			for j := pick(t, "pvn", 1, 1, 2, 2, 3, 3, 0); j > 0; j-- {
				vs = append(vs, Q(pick(t, "pv", "1", "", "a&b", "x y", "é", "%41", "#", "+")))
			}
			k.Params[key] = vs
		}
	}
	n := intn(t, "ops", 1, 8)
	for i := 0; i < n; i++ {
		k.Ops = append(k.Ops, uni(t, "op", 10))
	}
	return k
}

func (k urlCase) params() url.Values {
	if k.Params == nil {
		return nil
	}
	v := url.Values{}
	for a, b := range k.Params {
		v[a] = []string{}
		for _, x := range b {
			v[a] = append(v[a], string(x))
		}
	}
	return v
}

func sameParams(a, b url.Values) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || !strEq(v, w) {
			return false
		}
	}
	return true
}

func (k urlCase) request() (*rdap.Request, *url.URL, error) {
	srv, err := url.Parse(k.Server)
	if err != nil {
		infra("generated server URL %q: %s", k.Server, err)
	}
	if k.Ctor {
		if req := k.construct(srv); req != nil {
			if req.Query != string(k.Query) && req.Type != rdap.HelpRequest && req.Type != rdap.RawRequest {
				return nil, nil, errf("the constructor made a request for %q of %q", req.Query, string(k.Query))
			}
			req.Query = string(k.Query)
			if req.Type != reqKinds[k.Kind].typ {
				return nil, nil, errf("the constructor made a request of the type %s, want %s", req.Type, reqKinds[k.Kind].name)
			}
			if req.Server != nil && req.Type != rdap.RawRequest {
				return nil, nil, errf("the constructor chose the server %s", req.Server)
			}
			if req.Type == rdap.RawRequest && (req.Server == nil || req.Server.String() != srv.String()) {
				return nil, nil, errf("the constructor made a raw request for %v of %s", req.Server, srv)
			}
			req.Params, req.Server = k.params(), srv
			return req, srv, nil
		}
	}
	return &rdap.Request{Type: reqKinds[k.Kind].typ, Query: string(k.Query), Params: k.params(), Server: srv}, srv, nil
}

// construct uses the package's own function for the type, nil if the query
// does not fit it.
func (k urlCase) construct(srv *url.URL) *rdap.Request {
	q := string(k.Query)
	switch typ := reqKinds[k.Kind].typ; typ {
	case rdap.HelpRequest:
		return rdap.NewHelpRequest()
	case rdap.AutnumRequest:
		n, err := strconv.ParseUint(q, 10, 32)
		if err != nil || strconv.FormatUint(n, 10) != q {
			return nil
		}
		return rdap.NewAutnumRequest(uint32(n))
	case rdap.IPRequest:
		if ip := net.ParseIP(q); ip != nil && ip.String() == q {
			return rdap.NewIPRequest(ip)
		}
		if _, n, err := net.ParseCIDR(q); err == nil && n.String() == q {
			return rdap.NewIPNetRequest(n)
		}
		return nil
	case rdap.DomainRequest:
		return rdap.NewDomainRequest(q)
	case rdap.EntityRequest:
		return rdap.NewEntityRequest(q)
	case rdap.NameserverRequest:
		return rdap.NewNameserverRequest(q)
	case rdap.RawRequest:
		return rdap.NewRawRequest(srv)
	default:
		return rdap.NewRequest(typ, q)
	}
}

// splitURL takes an absolute URL apart without net/url.
func splitURL(s string) (scheme, authority, path, query, frag string) {
	if i := strings.Index(s, "#"); i >= 0 {
		s, frag = s[:i], s[i+1:]
	}
	if i := strings.Index(s, "?"); i >= 0 {
		s, query = s[:i], s[i+1:]
	}
	if i := strings.Index(s, "://"); i >= 0 {
		scheme, s = s[:i], s[i+3:]
	}
	if i := strings.Index(s, "/"); i >= 0 {
		authority, path = s[:i], s[i:]
	} else {
		authority = s
	}
	return
}

// expectPathQuery judges an absolute request URL.
func expectURL(k urlCase, got string) error {
	rk := reqKinds[k.Kind]
	for i := 0; i < len(got); i++ {
		if got[i] <= ' ' || got[i] >= 0x7f {
			return errf("request URL %q has the raw byte %#x", got, got[i])
		}
	}
	srv, _ := url.Parse(k.Server)
	clean := *srv
	clean.RawQuery, clean.ForceQuery, clean.Fragment, clean.RawFragment = "", false, "", ""
	ws, wa, wp, _, _ := splitURL(clean.String())
	gs, ga, gp, gq, _ := splitURL(got)
	if ws != gs || wa != ga {
		return errf("request URL %q goes to %s://%s, the server is %s://%s", got, gs, ga, ws, wa)
	}
	if rk.typ == rdap.RawRequest {
		if got != srv.String() {
			return errf("raw request URL %q, want %q", got, srv)
		}
		return nil
	}
	if !strings.HasSuffix(wp, "/") {
		wp += "/"
	}
	if !strings.HasPrefix(gp, wp+rk.path) {
		return errf("request path %q, want it to start with %q", gp, wp+rk.path)
	}
	rest := gp[len(wp+rk.path):]
	if strings.HasSuffix(rk.path, "/") {
		dec, err := url.PathUnescape(rest)
		if err != nil {
			return errf("request path %q does not decode: %s", gp, err)
		}
		if dec != string(k.Query) {
			return errf("the path carries the query %q, want %q (URL %s)", dec, string(k.Query), got)
		}
		if rk.typ != rdap.IPRequest && strings.Contains(rest, "/") {
			return errf("the query %q spans path segments: %s", string(k.Query), got)
		}
	} else if rest != "" {
		return errf("request path %q, want %q", gp, wp+rk.path)
	}
	want := srv.Query()
	for a, b := range k.params() {
		want[a] = b
	}
	for a, b := range want {
		if len(b) == 0 {
			delete(want, a) // a parameter set to no values
		}
	}
	if rk.param != "" {
		want[rk.param] = []string{string(k.Query)}
	}
	have, err := url.ParseQuery(gq)
	if err != nil {
		return errf("request query string %q does not parse: %s", gq, err)
	}
	if len(want) != len(have) {
		return errf("request parameters %q, want %q", have, want)
	}
	for a, b := range want {
		if !strEq(have[a], b) {
			return errf("request parameter %q is %q, want %q", a, have[a], b)
		}
	}
	return nil
}

func checkURL(c *Ctx, k urlCase) error {
	req, srv, err := k.request()
	if err != nil {
		return err
	}
	u := req.URL()
	if u == nil {
		return errf("no URL for a valid server %s", k.Server)
	}
	if err := expectURL(k, u.String()); err != nil {
		return err
	}
	if reqKinds[k.Kind].typ != rdap.RawRequest && u.Fragment != srv.Fragment {
		return errf("fragment %q, want %q", u.Fragment, srv.Fragment)
	}
	// The same, as sent.
	tr := &stubTransport{f: func(int, *http.Request) (*http.Response, error) { return nil, errors.New("refused") }}
	cl := &rdap.Client{HTTP: &http.Client{Transport: tr}}
	if k.Verb {
		cl.Verbose = func(string) {}
	}
	resp, err := cl.Do(req)
	if err == nil {
		return errf("no error although the connection failed")
	}
	if len(tr.reqs) != 1 || resp == nil || len(resp.HTTP) != 1 {
		return errf("%d requests sent", len(tr.reqs))
	}
	if err := expectURL(k, tr.reqs[0].URL.String()); err != nil {
		return errf("as sent: %s", err)
	}
	if err := expectURL(k, resp.HTTP[0].URL); err != nil {
		return errf("as recorded in the response: %s", err)
	}
	// The request line, as a server reads it.
	line := tr.reqs[0].URL.RequestURI()
	_, _, wp, wq, _ := splitURL(u.String())
	if wp == "" {
		wp = "/"
	}
	if wq != "" || u.ForceQuery {
		wp += "?" + wq
	}
	if line != wp {
		return errf("request line %q, want %q", line, wp)
	}
	c.Label("type=%s", reqKinds[k.Kind].name)
	special := strings.ContainsFunc(string(k.Query), func(r rune) bool {
		return !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '.' || r == '-')
	})
	c.LabelIf(special, "special characters")
	c.LabelIf(len(k.Params) > 0, "params")
	c.NonTrivial(special || len(k.Params) > 0 || strings.ContainsAny(k.Server, "?#@%"))
	return nil
}

func cloneURL(u *url.URL) url.URL {
	v := *u
	if u.User != nil {
		p, has := u.User.Password()
		if has {
			v.User = url.UserPassword(u.User.Username(), p)
		} else {
			v.User = url.User(u.User.Username())
		}
	}
	return v
}

func checkURLPure(c *Ctx, k urlCase) error {
	req, srv, err := k.request()
	if err != nil {
		return err
	}
	req.FetchRoles = []string{"registrant", "all"}
	before := cloneURL(srv)
	wantParams := k.params()
	typ := reqKinds[k.Kind].typ
	first := ""
	other, _ := url.Parse("https://other.example/base?o=1#of")
	otherBefore := cloneURL(other)
	same := func(what string) error {
		if !reflect.DeepEqual(cloneURL(srv), before) {
			return errf("%s changed the server URL: %+v, was %+v", what, *srv, before)
		}
		if !sameParams(req.Params, wantParams) {
			return errf("%s changed the parameters: %q, were %q", what, req.Params, wantParams)
		}
		if !reflect.DeepEqual(cloneURL(other), otherBefore) {
			return errf("%s changed the URL given to WithServer: %v", what, other)
		}
		if req.Type != typ || req.Query != string(k.Query) || req.Server != srv || req.Timeout != 0 || !strEq(req.FetchRoles, []string{"registrant", "all"}) {
			return errf("%s changed the request", what)
		}
		return nil
	}
	judge := func(u *url.URL, what string) error {
		if u == nil {
			return errf("%s: no URL", what)
		}
		s := u.String()
		if first == "" {
			first = s
			if err := expectURL(k, s); err != nil {
				return errf("%s: %s", what, err)
			}
		} else if s != first {
			return errf("%s: the URL is %q, before it was %q", what, s, first)
		}
		if u.Fragment != srv.Fragment {
			return errf("%s: fragment %q, want %q", what, u.Fragment, srv.Fragment)
		}
		return nil
	}
	scribble := func(u *url.URL) {
		u.Scheme, u.Host, u.Path, u.RawPath, u.RawQuery, u.Fragment, u.User = "gopher", "evil.example", "/x", "", "z=1", "f", url.User("mallory")
	}
	for i, op := range k.Ops {
		var err error
		what := "step " + strconv.Itoa(i)
		switch op {
		case 0, 1:
			err = judge(req.URL(), what+" URL()")
		case 2:
			u := req.URL()
			if err = judge(u, what+" URL()"); err == nil {
				scribble(u)
				what += " scribbling on the returned URL"
			}
		case 3:
			r2 := req.WithServer(other)
			u := r2.URL()
			if u == nil || u.Host != "other.example" {
				err = errf("WithServer: URL %v", u)
			} else if r2.Query != req.Query || r2.Type != req.Type || r2.Context() != req.Context() {
				err = errf("WithServer changed more than the server")
			} else if u2 := req.WithServer(srv).URL(); true {
				err = judge(u2, what+" URL() of a copy with the same server")
			}
		case 4:
			r2 := req.WithContext(context.WithValue(context.Background(), ctxKey{}, 1))
			if r2.Context().Value(ctxKey{}) != 1 {
				err = errf("WithContext: the context is lost")
			} else if req.Context().Value(ctxKey{}) != nil {
				err = errf("WithContext changed the original request's context")
			} else {
				err = judge(r2.URL(), what+" URL() of a copy with context")
			}
		case 5:
			r2 := req.WithServer(nil)
			if r2.URL() != nil {
				err = errf("a request without server has the URL %s", r2.URL())
			}
		case 6:
			// Another request sharing the server URL and parameters.
			r2 := &rdap.Request{Type: rdap.EntitySearchRequest, Query: "zz", Server: srv, Params: req.Params}
			if u := r2.URL(); u == nil || u.Query().Get("fn") != "zz" {
				err = errf("other request: %v", u)
			}
		case 8:
			// The URL is that of the request as it is now.
			k2 := k
			k2.Query, req.Query = "changed/é", "changed/é"
			u := req.URL()
			if u == nil {
				err = errf("no URL after a change of the query")
			} else if e := expectURL(k2, u.String()); e != nil {
				err = errf("after a change of the query: %s", e)
			}
			req.Query = string(k.Query)
		case 9:
			k2 := k
			k2.Kind = (k.Kind + 1 + i) % (len(reqKinds) - 1)
			r2 := *req
			r2.Type = reqKinds[k2.Kind].typ
			u := r2.URL()
			if u == nil {
				err = errf("no URL after a change of the type")
			} else if e := expectURL(k2, u.String()); e != nil {
				err = errf("after a change of the type: %s", e)
			}
		case 7:
			tr := &stubTransport{f: func(int, *http.Request) (*http.Response, error) { return httpResp(500, nil), nil }}
			cl := &rdap.Client{HTTP: &http.Client{Transport: tr}}
			cl.Do(req)
			if len(tr.reqs) != 1 {
				err = errf("Do sent %d requests", len(tr.reqs))
			} else if first != "" && tr.reqs[0].URL.String() != first && tr.reqs[0].URL.String() != strings.SplitN(first, "#", 2)[0] {
				err = errf("Do sent %q, the URL is %q", tr.reqs[0].URL, first)
			}
			what += " Do()"
		}
		if err != nil {
			return err
		}
		if err := same(what); err != nil {
			return err
		}
		c.Label("op=%d", op)
	}
	if err := judge(req.URL(), "finally"); err != nil {
		return err
	}
	if err := same("URL()"); err != nil {
		return err
	}
	c.NonTrivial(len(k.Ops) > 1)
	c.LabelIf(strings.Contains(k.Server, "?"), "server with query")
	c.LabelIf(strings.Contains(k.Server, "#"), "server with fragment")
	return nil
}

type ctxKey struct{}

// ---------------------------------------------------------------- C13

type autoCase struct {
	Class string
	Text  Q
	Want  string // address, prefix, number, host
}

func genHostname(t *rapid.T) string {
	n := intn(t, "labels", 1, 4)
	var ls []string
	for i := 0; i < n; i++ {
		ls = append(ls, pick(t, "label", "example", "com", "a", "xn--p1ai", "as12", "123", "x-y", "net", "0", "as", "e2", "www"))
	}
	return strings.Join(ls, ".")
}

func genAutoCase(t *rapid.T) autoCase {
	switch uni(t, "class", 12) {
	case 0:
		h := genHostname(t)
		s := pick(t, "scheme", "http", "https", "HTTP", "Https") + "://" + pick(t, "user", "", "", "", "u@", "u:p@") + h + pick(t, "slash", "", "/") +
			pick(t, "uq", "", "", "", "?", "?a=b", "?x=/y/z") + pick(t, "uf", "", "", "", "#top", "#/x/y")
		return autoCase{"urlhost", Q(s), h}
	case 1:
		s := pick(t, "scheme", "http", "https", "HTTPS") + "://" + genHostname(t) + pick(t, "port", "", "", ":8080") +
			pick(t, "path", "/domain/example.com", "/x", "//", "/rdap/ip/192.0.2.0/24", "/a%20b", "/as12", "/./", "/%2F") +
			pick(t, "q", "", "", "?a=b", "?x=1&x=2") + pick(t, "f", "", "", "#frag")
		return autoCase{"rawurl", Q(s), ""}
	case 2, 3:
		v6 := chance(t, "v6", 50)
		a := genAddr(t, v6)
		s := a.String()
		if v6 {
			switch uni(t, "form", 4) {
			case 0:
				s = a.StringExpanded()
			case 1:
				s = strings.ToUpper(s)
			case 2:
				// dotted tail
				b := a.As16()
				if !strings.Contains(s, "::") {
					i := strings.LastIndex(s, ":")
					j := strings.LastIndex(s[:i], ":")
					s = s[:j+1] + netip.AddrFrom4([4]byte(b[12:])).String()
				}
			}
		}
		if v6 && chance(t, "mapped", 6) {
			b := a.As16()
			a = netip.AddrFrom16(netip.AddrFrom4([4]byte(b[12:])).As16())
			s = pick(t, "mform", a.String(), a.StringExpanded(), strings.ToUpper(a.String()))
		}
		return autoCase{"ip", Q(s), a.String()}
	case 4:
		v6 := chance(t, "v6", 50)
		a := genAddr(t, v6)
		if isMapped(a) {
			a = netip.MustParseAddr("2001:db8::1")
		}
		bits := intn(t, "bits", 0, a.BitLen())
		p := netip.PrefixFrom(a, bits)
		return autoCase{"cidr", Q(p.String()), p.Masked().String()}
	case 5:
		n := uint32(pick(t, "asn", 0, 1, 12, 64500, 65535, 65536, 4294967295, 4294967294))
		if chance(t, "rnd", 60) {
			n = rapid.Uint32().Draw(t, "n")
		}
		s := strconv.FormatUint(uint64(n), 10)
		if chance(t, "zeros", 15) {
			s = strings.Repeat("0", intn(t, "nz", 1, 9)) + s
		}
		s = pick(t, "as", "", "", "AS", "as", "As", "aS") + s
		return autoCase{"autnum", Q(s), strconv.FormatUint(uint64(n), 10)}
	case 6:
		// Near misses without a dot: entities.
		s := pick(t, "near", "AS", "as", "ASAS12", "sas12", "AS4294967296", "4294967296", "99999999999999999999", "-1", "+1", "AS-1", "AS+5", "AS 12", " 12", "12 ", "1_000", "0x10", "1e3", "AS12x", "xAS12",
			"2001:db8:::1", "2001:db8::/129", "::1/", "::g", "fe80::1%eth0", "1:2:3:4:5:6:7", "OPS4-RIPE", "H1-VRSN", "", "-", "~", "com", "http", "https", "ftp", "*", "a/b", "AS1/2", "1/2", "12/24", "٣", "１２",
			"[::1]", "[2001:db8::1]", "[2001:db8::1]/64", "::1%25eth0", "例え。jp", "example．com", "a｡b", "urn:x", "\"::1\"", "<::1>", "::1,::2", "2001-db8--1", "AS#12", "AS:12", "ASN12", "AS_12", "AS٣", "12AS", "#12", "\u00a012", "12\n", "::1\n", "tel:12", "mailto:x", "HTTP", "://", "http//x", "0b1", "1,000", "AS0x1f")
		return autoCase{"entity", Q(s), ""}
	case 7:
		s := pick(t, "near", "1.2.3", "1.2.3.4.5", "256.1.1.1", "1.2.3.4/33", "01.2.3.4", "1.2.3.4/", "1.2.3.4/-1", "1.2.3.4 ", " 1.2.3.4", "AS1.2", "AS12.", "1.", ".", "..", ".com", "12.0", "1.2.3.4/24/24", "example.com.", "::1.2.3.4.5",
			"example.com/x", "ex ample.com", "a.b#c", "a.b?c", "@x.y", "x.y:80", "as12.example", "1.2.3.4/a",
			"[192.0.2.1]", "[::ffff:192.0.2.1]", "<1.2.3.4>", "1.2.3.4,1.2.3.5", "1.2.3.4-1.2.3.5", "1.2.3.4%eth0", "192.0.2", "192.0.2.", "0x7f.1", "1.2.3.4\n", "ftp://example.com/x", "ftp://example.com", "//example.com", "//example.com/x", "/a.b", "mailto:x@y.z", "example.com\n", "\texample.com", "AS1.AS2", "1.0e3", "::1.", "2001:db8::1.2.3.4/129", "012.1.1.1", "1.2.3.4/ 24", "٣.٣.٣.٣", "htt.p://x/y", "https.example/x")
		return autoCase{"domain", Q(s), ""}
	case 8:
		h := genHostname(t)
		if !strings.Contains(h, ".") {
			h += ".example"
		}
		if _, err := netip.ParseAddr(h); err == nil {
			h = "x." + h
		}
		return autoCase{"domain", Q(randCase(t, h)), ""}
	case 9:
		return autoCase{"entity", Q(word(t, "w") + pick(t, "sep", "-", "~", "_", " ", "/") + pick(t, "tag", "RIPE", "VRSN", "x", "12")), ""}
	case 10:
		n := intn(t, "nal", 0, 14)
		b := ""
		for i := 0; i < n; i++ {
			b += pick(t, "al", "0", "1", "2", "5", "9", ".", ".", ":", "/", "a", "A", "s", "S", "f", "-", "25", "::")
		}
		return autoCase{"any", Q(b), ""}
	default:
		return autoCase{"any", genQueryText(t), ""}
	}
}

func checkAuto(c *Ctx, k autoCase) error {
	text := string(k.Text)
	req := rdap.NewAutoRequest(text)
	if req == nil {
		return errf("no request")
	}
	class := k.Class
	if class == "any" {
		low := strings.ToLower(text)
		if strings.HasPrefix(low, "http:") || strings.HasPrefix(low, "https:") || strings.Contains(text, "ſ") {
			return nil
		}
		addr, err := netip.ParseAddr(text)
		pfx, perr := netip.ParsePrefix(text)
		_, nerr := strconv.ParseUint(strings.TrimPrefix(strings.ToLower(text), "as"), 10, 32)
		switch {
		case err == nil && addr.Zone() == "":
			class, k.Want = "ip", addr.String()
		case perr == nil:
			class, k.Want = "cidr", pfx.Masked().String()
		case strings.Contains(text, "/") && nerr != nil:
			// net.ParseCIDR accepts spellings netip does not: only these are open.
			if req.Type == rdap.IPRequest {
				return nil
			}
			fallthrough
		default:
			if nerr == nil {
				class = "autnum"
				n, _ := strconv.ParseUint(strings.TrimPrefix(strings.ToLower(text), "as"), 10, 32)
				k.Want = strconv.FormatUint(n, 10)
			} else if strings.Contains(text, ".") {
				class = "domain"
			} else {
				class = "entity"
			}
		}
	}
	c.Label("class=%s", class)
	c.NonTrivial(true)
	bad := func() error {
		return errf("%q became a %s request for %q (server %v), want %s %q", text, req.Type, req.Query, req.Server, class, k.Want)
	}
	if class != "rawurl" && req.Server != nil {
		return bad()
	}
	switch class {
	case "urlhost":
		if req.Type != rdap.DomainRequest || req.Query != k.Want {
			return bad()
		}
	case "rawurl":
		want, err := url.Parse(text)
		if err != nil {
			infra("%s", err)
		}
		if req.Type != rdap.RawRequest || req.Server == nil || req.Server.String() != want.String() {
			return bad()
		}
		if u := req.URL(); u == nil || u.String() != want.String() {
			return errf("%q is fetched as %v", text, u)
		}
	case "ip":
		got, err := netip.ParseAddr(req.Query)
		if req.Type != rdap.IPRequest || err != nil || got.Unmap() != netip.MustParseAddr(k.Want).Unmap() {
			return bad()
		}
	case "cidr":
		got, err := netip.ParsePrefix(req.Query)
		want := netip.MustParsePrefix(k.Want)
		if isMapped(want.Addr()) {
			return nil
		}
		if req.Type != rdap.IPRequest || err != nil || got != want {
			return bad()
		}
	case "autnum":
		if req.Type != rdap.AutnumRequest || req.Query != k.Want {
			return bad()
		}
	case "domain":
		if req.Type != rdap.DomainRequest || req.Query != text {
			return bad()
		}
	case "entity":
		if req.Type != rdap.EntityRequest || req.Query != text {
			return bad()
		}
	}
	return nil
}

func init() {
	register(&Prop{ID: "C11", Level: "exploration",
		Rule: "all 15 request types, query text of arbitrary bytes, URL syntax fragments (/, ?, #, %2F, .., //, @host, control bytes, non-ASCII) or ordinary queries, made literally or by the package's constructors, server URLs with/without credentials, port, IPv6 host, escaped or dotted base paths, own parameters, fragment, and extra request parameters. Oracle: a hand-written URL splitter plus percent-decoding must give back server, path prefix, query bytes and parameter table; checked on Request.URL(), on the request the HTTP transport receives and on the recorded attempt. Non-trivial: the query has a character beyond letters, digits, '.', '-', or there are parameters, or the server URL has more than host and path.",
		Subs: []*Sub{sub("encode", 600000, 6000000, genURLCase, checkURL)}})
	register(&Prop{ID: "C12", Level: "exploration",
		Rule: "sequences of up to 8 operations on one request (URL(), before and after changes of its query or type, scribbling on the returned URL, WithServer, WithContext, a second request sharing server and parameters, Client.Do) with generated server URLs (parameters, fragments, credentials) and parameters. Oracle: deep snapshots of server URL, parameters and request; the URL text must never change and match the parameter model. Non-trivial: at least two operations.",
		Subs: []*Sub{sub("pure", 480000, 4000000, genURLCase, checkURLPure)}})
	register(&Prop{ID: "C13", Level: "exploration",
		Rule:        "query texts built for a class (http(s) URL with/without path, IPv4/IPv6 address in several spellings, networks with host bits set, AS numbers with all prefix spellings and zeros, domains, entities), near misses of each class, and arbitrary bytes judged by an independent classifier over netip. Oracle: the class and the value the text was built from. All cases are non-trivial.",
		Assumptions: []string{"URLs with a port or credentials but no path, and opaque http: texts, are left open"},
		Subs:        []*Sub{sub("auto", 600000, 8000000, genAutoCase, checkAuto)}})
}
