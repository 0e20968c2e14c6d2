package main

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- helpers

var answerClasses = []string{"domain", "autnum", "ip network", "entity", "nameserver", "error", "help", "domains", "entities", "nameservers"}

// answerDoc is a small valid response of a class; |mark| can be read back.
func answerDoc(class, mark string) []byte {
	m := map[string]any{"rdapConformance": []string{"rdap_level_0", mark}}
	switch class {
	case "domain", "autnum", "ip network", "entity", "nameserver":
		m["objectClassName"] = class
		m["handle"] = "H-" + mark
	case "error":
		m["errorCode"] = 418
		m["title"] = "T-" + mark
	case "domains":
		m["domainSearchResults"] = []any{}
	case "entities":
		m["entitySearchResults"] = []any{}
	case "nameservers":
		m["nameserverSearchResults"] = []any{}
	}
	return mustJSON(m)
}

// classOf tells the class and mark of a decoded object.
func classOf(o any) (class, mark string) {
	var conf []string
	switch x := o.(type) {
	case *rdap.Domain:
		class, conf = "domain", x.Conformance
	case *rdap.Autnum:
		class, conf = "autnum", x.Conformance
	case *rdap.IPNetwork:
		class, conf = "ip network", x.Conformance
	case *rdap.Entity:
		class, conf = "entity", x.Conformance
	case *rdap.Nameserver:
		class, conf = "nameserver", x.Conformance
	case *rdap.Error:
		class, conf = "error", x.Conformance
	case *rdap.Help:
		class, conf = "help", x.Conformance
	case *rdap.DomainSearchResults:
		class, conf = "domains", x.Conformance
	case *rdap.EntitySearchResults:
		class, conf = "entities", x.Conformance
	case *rdap.NameserverSearchResults:
		class, conf = "nameservers", x.Conformance
	default:
		return fmt.Sprintf("%T", o), ""
	}
	if len(conf) == 2 {
		mark = conf[1]
	}
	return class, mark
}

func clientErrType(err error) rdap.ClientErrorType {
	var ce *rdap.ClientError
	if errors.As(err, &ce) {
		return ce.Type
	}
	var cv rdap.ClientError
	if errors.As(err, &cv) {
		return cv.Type
	}
	return 0
}

// bootKind: request types which are bootstrapped, with queries that match
// regEntries (and one that does not).
type bootKind struct {
	typ     rdap.RequestType
	reg     int
	queries []string
	miss    []string
}

var bootKinds = []bootKind{
	{rdap.DomainRequest, 0, []string{"example.com", "www.example.com", "COM", "a.b.c.com.", "x--y.com"}, []string{"example.net", "com.example", "xcom"}},
	{rdap.IPRequest, 1, []string{"192.0.2.77", "192.0.2.0/24", "192.0.2.128/25", "192.0.2.255"}, []string{"192.0.3.0", "192.0.2.0/23", "10.0.0.1"}},
	{rdap.IPRequest, 2, []string{"2001:db8::77", "2001:DB8::", "2001:db8::/32", "2001:db8:ffff::/48"}, []string{"2001:db9::", "::1", "2001:db8::/31"}},
	{rdap.AutnumRequest, 3, []string{"AS64500", "64500", "as64511", "64496"}, []string{"AS64512", "1", "64495"}},
	{rdap.EntityRequest, 4, []string{"H1-VRSN", "A-B-VRSN", "x~VRSN"}, []string{"H1-RIPE", "VRSN", "H1", "H1-"}},
}

func bootPath(k bootKind, q string) string {
	for _, rk := range reqKinds {
		if rk.typ == k.typ {
			return rk.path + q
		}
	}
	return ""
}

func multiRegDoc(reg int, urls []string) []byte {
	return RegFile{Desc: "d", Ver: "1.0", Pub: "p", Services: []Service{
		{Entries: []string{"decoy"}, URLs: []string{"https://decoy.example/"}, Contact: reg == 4},
		{Entries: []string{regEntries[reg]}, URLs: urls, Contact: reg == 4}}}.JSON()
}

// ---------------------------------------------------------------- C14

type outcome struct {
	Kind   string // ok, conn, cut, status, 404, empty, bad, unusable
	Status int
	Class  string
	Body   Q
	CType  string // Content-Type
	NoLen  bool   // no Content-Length
	Redir  int    // redirect status before the outcome
	Hops   int    // redirects in a row, beyond the first
	Pad    int    // bytes of padding in a usable answer
	Hdr    int    // respHeaders index
}

func (o outcome) answer(i int) []byte {
	b := answerDoc(o.Class, fmt.Sprintf("mark%d", i))
	if o.Pad > 0 {
		pad := `,"x_pad":"` + strings.Repeat("p", o.Pad) + `"}`
		b = append(b[:len(b)-1:len(b)-1], pad...)
	}
	return b
}

type failCase struct {
	Layout   int // 0 hosts differ, 1 paths of one host, 2 schemes and ports of one host
	Boot     int // bootKinds index, -1: explicit server
	Query    int
	Outcomes []outcome
	Verbose  bool
	Warm     bool // a previous query on the same client
	TypeIdx  int  // explicit server: request type
}

var badBodies = []string{"{", "[]", `"x"`, "5", "<html></html>", " \n", `{"objectClassName":"banana"}`, `{"objectClassName":5}`, `{"objectClassName":null}`, `{"objectClassName":"Domain"}`, `{"objectClassName":""}`, `{"objectClassName":"domain"`, `{"objectClassName":"domain"}}`, "\xff\xfe", `{'objectClassName':'domain'}`, `{"objectClassName":["domain"]}`, "not found"}

func genOutcome(t *rapid.T) outcome {
	o := outcome{Kind: pick(t, "outcome", "ok", "conn", "conn", "cut", "status", "status", "404", "empty", "bad", "bad", "unusable", "status", "empty")}
	switch o.Kind {
	case "ok":
		o.Status = pick(t, "st", 200, 200, 200, 201, 203, 299, 202, 206, 226)
		o.Class = pick(t, "cls", answerClasses...)
	case "cut":
		o.Status = pick(t, "st", 200, 200, 500)
		o.Class = pick(t, "cls", answerClasses...)
	case "status":
		o.Status = pick(t, "st", 400, 401, 403, 405, 410, 429, 451, 500, 501, 502, 503, 504, 599, 300, 304, 403)
		switch uni(t, "stbody", 4) {
		case 0:
		case 1:
			o.Body = "oops"
		case 2:
			o.Body = Q(answerDoc("error", "m"))
		case 3:
			o.Body = Q(answerDoc("domain", "wrong"))
		}
	case "404":
		o.Status = 404
		o.Body = Q(pick(t, "b404", "", "nope", string(answerDoc("error", "m")), string(answerDoc("domain", "wrong"))))
	case "empty":
		o.Status = pick(t, "st", 200, 204, 202)
	case "bad":
		o.Status = pick(t, "st", 200, 200, 202)
		o.Body = Q(pick(t, "bad", badBodies...))
	}
	o.CType = pick(t, "ctype", "application/rdap+json", "application/rdap+json", "application/json", "application/rdap+json; charset=utf-8", "text/html", "text/plain", "")
	o.NoLen = chance(t, "nolen", 30)
	if chance(t, "hdr", 40) {
		o.Hdr = uni(t, "hdrn", len(respHeaders))
	}
	if o.Kind == "ok" && intn(t, "big", 0, 400) == 400 {
		o.Pad = pick(t, "pad", 5000, 66000, 300000, 1100000, 2200000)
		if intn(t, "huge", 0, 20) == 20 {
			o.Pad = pick(t, "hugepad", 5000000, 11000000, 17000000)
		}
	}
	if o.Kind != "unusable" && chance(t, "redir", 10) {
		o.Redir = pick(t, "rst", 301, 302, 303, 307, 308)
		if chance(t, "hops", 25) {
			o.Hops = intn(t, "hopn", 1, 8)
		}
	}
	return o
}

func genFailCase(t *rapid.T) failCase {
	k := failCase{Layout: pick(t, "layout", 0, 0, 1, 2), Boot: uni(t, "boot", 6) - 1, Query: uni(t, "q", 5), Verbose: chance(t, "verbose", 25), Warm: chance(t, "warm", 25), TypeIdx: uni(t, "type", len(reqKinds))}
	n := 1
	if k.Boot >= 0 {
		n = intn(t, "n", 1, 8)
	}
	for i := 0; i < n; i++ {
		o := genOutcome(t)
		if k.Boot < 0 && o.Kind == "unusable" {
			o.Kind = "conn"
		}
		k.Outcomes = append(k.Outcomes, o)
	}
	return k
}

func serverFor(i int, o outcome, layout int) string {
	if o.Kind == "unusable" {
		return []string{"mailto:rdap@example.com", "ftp://s.example/", "foo", "http://", "x:y", "//a b", "//%zz"}[i%7]
	}
	switch layout {
	case 1:
		return fmt.Sprintf("https://s.example/p%d/", i)
	case 2:
		return fmt.Sprintf("%s/p%d/", []string{"https://s.example", "http://s.example", "https://s.example:8443", "https://s.example:443"}[i%4], i)
	}
	return fmt.Sprintf("https://s%d.example/p%d/", i, i)
}

var serverPath = regexp.MustCompile(`^/p(\d+)/`)

func checkFail(c *Ctx, k failCase) error {
	var servers []string
	for i, o := range k.Outcomes {
		s := serverFor(i, o, k.Layout)
		if u, err := url.Parse(s); err != nil || u == nil {
			s = "foo"
		}
		servers = append(servers, s)
	}
	closed := 0
	serve := func(i int, o outcome) (*http.Response, error) {
		body := []byte(o.Body)
		switch o.Kind {
		case "conn":
			return nil, errors.New("connection refused")
		case "ok", "cut":
			body = o.answer(i)
		}
		r := httpResp(o.Status, body)
		r.Header = http.Header{}
		if o.CType != "" {
			r.Header.Set("Content-Type", o.CType)
		}
		addHeaders(r, o.Hdr)
		if o.NoLen {
			r.ContentLength = -1
		}
		if o.Kind == "cut" {
			r.Body = io.NopCloser(&truncReader{b: body[:len(body)/2]})
		}
		r.Body = &closeCounter{ReadCloser: r.Body, n: &closed}
		return r, nil
	}
	var asked []int
	given, unknown, redirected := 0, 0, 0
	tr := &stubTransport{}
	tr.f = func(_ int, r *http.Request) (*http.Response, error) {
		if r.URL.Host == "data.iana.org" {
			if k.Boot < 0 {
				return nil, errors.New("unexpected bootstrap")
			}
			return httpResp(200, multiRegDoc(bootKinds[k.Boot].reg, servers)), nil
		}
		if m := serverPath.FindStringSubmatch(r.URL.Path); m != nil {
			i, _ := strconv.Atoi(m[1])
			hop, moved := 0, strings.HasSuffix(r.URL.Host, ".moved.example")
			if moved {
				fmt.Sscanf(r.URL.Host, "m%d.", &hop)
			}
			if i < len(servers) && (moved || strings.HasPrefix(r.URL.String(), servers[i])) {
				o := k.Outcomes[i]
				if !moved {
					asked = append(asked, i)
				}
				if o.Redir != 0 && hop <= o.Hops {
					redirected++
					resp := httpResp(o.Redir, []byte(answerDoc("domain", "redirect")))
					resp.Header.Set("Location", fmt.Sprintf("https://m%d.moved.example%s", hop+1, r.URL.RequestURI()))
					return resp, nil
				}
				resp, err := serve(i, o)
				if err == nil {
					given++
				}
				return resp, err
			}
		}
		unknown++
		return nil, fmt.Errorf("unknown host %s", r.URL.Host)
	}
	hc := &http.Client{Transport: tr}
	cl := &rdap.Client{HTTP: hc, Bootstrap: &bootstrap.Client{HTTP: hc}}
	if k.Verbose {
		cl.Verbose = func(string) {}
	}
	var req *rdap.Request
	if k.Boot >= 0 {
		bk := bootKinds[k.Boot]
		req = &rdap.Request{Type: bk.typ, Query: bk.queries[k.Query%len(bk.queries)]}
	} else {
		u, _ := url.Parse(servers[0])
		req = &rdap.Request{Type: reqKinds[k.TypeIdx].typ, Query: "q", Server: u}
	}
	runs := 1
	if k.Warm {
		runs = 2
	}
	for run := 0; run < runs; run++ {
		asked, given, closed, unknown, redirected = nil, 0, 0, 0, 0
		nBoot := len(tr.reqs)
		resp, err := cl.Do(req)
		if resp == nil {
			return errf("no response (error %v)", err)
		}
		// Model.
		var wantAsked []int
		final := "none"
		winner := -1
		attempts := 0
		for i, o := range k.Outcomes {
			attempts++
			if o.Kind != "unusable" {
				wantAsked = append(wantAsked, i)
			}
			if o.Kind == "ok" {
				final, winner = "ok", i
				break
			}
			if o.Kind == "404" {
				final = "404"
				break
			}
		}
		if fmt.Sprint(asked) != fmt.Sprint(wantAsked) {
			return errf("servers contacted %v, want %v", asked, wantAsked)
		}
		if len(resp.HTTP) != attempts {
			return errf("%d attempts in the response, want %d", len(resp.HTTP), attempts)
		}
		switch final {
		case "ok":
			if err != nil {
				return errf("server %d answered but the query failed: %s", winner, err)
			}
			cls, mark := classOf(resp.Object)
			if cls != k.Outcomes[winner].Class || mark != fmt.Sprintf("mark%d", winner) {
				return errf("the object is a %s of %q, want a %s of server %d", cls, mark, k.Outcomes[winner].Class, winner)
			}
		case "404":
			if err == nil || clientErrType(err) != rdap.ObjectDoesNotExist {
				return errf("after a 404: error %v", err)
			}
		default:
			if err == nil || clientErrType(err) != rdap.NoWorkingServers {
				return errf("no server worked: error %v", err)
			}
		}
		if final != "ok" && resp.Object != nil {
			return errf("an object was returned although the query failed: %T", resp.Object)
		}
		for i, a := range resp.HTTP {
			if a == nil {
				return errf("attempt %d is missing", i)
			}
			o := k.Outcomes[i]
			if o.Kind != "unusable" {
				want, _ := url.Parse(servers[i])
				if got, e := url.Parse(a.URL); e != nil || got.Host != want.Host || (k.Boot >= 0 && !strings.HasPrefix(got.Path, want.Path)) {
					return errf("attempt %d has the URL %q, server %q", i, a.URL, servers[i])
				}
			}
			wantErr := o.Kind == "conn" || o.Kind == "cut" || o.Kind == "bad" || o.Kind == "unusable"
			if (a.Error != nil) != wantErr {
				return errf("attempt %d (%s): recorded error %v", i, o.Kind, a.Error)
			}
			if o.Status != 0 {
				if a.Response == nil || a.Response.StatusCode != o.Status {
					return errf("attempt %d: recorded response %v, want status %d", i, a.Response, o.Status)
				}
				{
					want := []byte(o.Body)
					switch o.Kind {
					case "ok":
						want = o.answer(i)
					case "cut": // what came before the interruption
						want = o.answer(i)
						want = want[:len(want)/2]
					}
					if !bytes.Equal(a.Body, want) {
						return errf("attempt %d: recorded body %.300q, want %.300q", i, a.Body, want)
					}
				}
			} else if a.Response != nil {
				return errf("attempt %d (%s): a response was recorded", i, o.Kind)
			}
		}
		if closed < given {
			return errf("%d of %d response bodies were closed", closed, given)
		}
		if k.Boot >= 0 {
			if resp.BootstrapAnswer == nil || !strEq(urlStrings(resp.BootstrapAnswer.URLs), normURLs(servers)) {
				return errf("bootstrap answer %+v, want the servers %q", resp.BootstrapAnswer, servers)
			}
		} else if resp.BootstrapAnswer != nil {
			return errf("bootstrap answer for a request with server")
		}
		wantTotal := len(wantAsked) + redirected
		if k.Boot >= 0 && run == 0 {
			wantTotal++
		}
		if len(tr.reqs)-nBoot-unknown != wantTotal {
			return errf("%d HTTP requests, want %d", len(tr.reqs)-nBoot, wantTotal)
		}
		c.Label("final=%s", final)
		c.LabelIf(winner > 0, "failover then success")
	}
	for _, o := range k.Outcomes {
		c.Label("outcome=%s", o.Kind)
		c.LabelIf(o.Redir != 0, "redirected")
		c.LabelIf(o.Hops > 0, "redirected repeatedly")
		c.LabelIf(o.Pad > 0, "large answer")
	}
	c.NonTrivial(len(k.Outcomes) > 1 || k.Outcomes[0].Kind != "ok")
	return nil
}

func normURLs(ss []string) []string {
	var out []string
	for _, s := range ss {
		u, err := url.Parse(s)
		if err == nil {
			out = append(out, u.String())
		}
	}
	return out
}

type closeCounter struct {
	io.ReadCloser
	n    *int
	done bool
}

func (c *closeCounter) Close() error {
	if !c.done {
		*c.n++
		c.done = true
	}
	return c.ReadCloser.Close()
}

// ---------------------------------------------------------------- C15

type helperCase struct {
	Helper  string // domain, autnum, ip, do
	Query   string
	Match   string // match, miss, invalid
	Answer  outcome
	Code    int
	BadCode string // JSON text instead of Code
	Title   *string
	Desc    []string
	Status  int
	ReqType int
	BootErr string // "", conn, status
	NilReq  bool
	Wide    bool // the matching entry is one for everything
}

func genHelperCase(t *rapid.T) helperCase {
	k := helperCase{Helper: pick(t, "helper", "domain", "autnum", "ip", "domain", "autnum", "ip", "do")}
	if k.Helper == "do" {
		switch uni(t, "docase", 4) {
		case 3: // the registry cannot be had: not a statement about the query
			bk := pick(t, "bk", bootKinds...)
			k.ReqType = -int(bk.typ)
			k.Query = pick(t, "mq", append(append([]string{}, bk.miss...), bk.queries...)...)
			k.BootErr = pick(t, "be", "conn", "status", "bad", "cut", "cancel", "cancelled")
		case 0:
			k.NilReq = true
		case 1:
			k.ReqType = pick(t, "unsup", 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14)
			k.Query = pick(t, "uq", "", "x", "ns1.example.com", "192.0.2.1")
		case 2:
			bk := pick(t, "bk", bootKinds...)
			k.ReqType = -int(bk.typ)
			k.Query = pick(t, "mq", bk.miss...)
			k.Match = "miss"
		}
		return k
	}
	k.Match = pick(t, "match", "match", "match", "match", "match", "match", "miss", "invalid")
	var bks []bootKind
	switch k.Helper {
	case "domain":
		bks = bootKinds[0:1]
		if k.Match == "invalid" {
			k.Match = "match"
		}
	case "ip":
		bks = bootKinds[1:3]
	case "autnum":
		bks = bootKinds[3:4]
	}
	bk := pick(t, "bk", bks...)
	switch k.Match {
	case "match":
		k.Query = pick(t, "q", bk.queries...)
		k.Wide = chance(t, "wide", 20)
	case "miss":
		k.Query = pick(t, "q", bk.miss...)
	case "invalid":
		k.Query = pick(t, "q", "", "x", "192.0.2", "1.2.3.4.5", "AS", "AS4294967296", "-1", "2001:db8:::", "192.0.2.0/33", " ", "AS 5")
	}
	if k.Match == "match" && chance(t, "booterr", 8) {
		k.BootErr = pick(t, "be", "conn", "status", "bad", "cut")
	}
	switch uni(t, "ans", 8) {
	case 0:
		k.Answer = genOutcome(t)
		if k.Answer.Kind == "unusable" {
			k.Answer.Kind = "conn"
		}
	case 1, 2, 3:
		k.Answer = outcome{Kind: "rdaperror", Status: 200}
		k.Code = pick(t, "code", 400, 404, 429, 500, 501, 1, 65535, 0)
		if chance(t, "badcode", 20) {
			k.BadCode = pick(t, "bc", `"x"`, `-1`, `70000`, `[]`, `{}`, `[404]`, `""`, `1e99`)
		}
		if chance(t, "title", 75) {
			s := pick(t, "tt", "Bad Request", "", "Rate limit 100%s", "é", "title 'quoted'", "404")
			k.Title = &s
		}
		for i := pick(t, "nd", 0, 1, 2, 3, 3, 4, 8); i > 0; i-- {
			k.Desc = append(k.Desc, fmt.Sprintf("%s %c", pick(t, "dd", "first line", "try again later", "%d items", "é", "", strings.Repeat("long ", 300)), 'a'+i))
		}
	default:
		k.Answer = outcome{Kind: "ok", Status: 200, Class: pick(t, "cls", answerClasses...)}
		if chance(t, "right", 40) {
			k.Answer.Class = map[string]string{"domain": "domain", "autnum": "autnum", "ip": "ip network"}[k.Helper]
		}
	}
	return k
}

func checkHelper(c *Ctx, k helperCase) error {
	net := 0
	tr := &stubTransport{}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	tr.f = func(_ int, r *http.Request) (*http.Response, error) {
		net++
		if r.URL.Host == "data.iana.org" {
			switch k.BootErr {
			case "bad":
				return httpResp(200, []byte(`{"services":[`)), nil
			case "cut":
				r := httpResp(200, nil)
				r.Body = io.NopCloser(&truncReader{b: []byte(`{"services":[]`)})
				return r, nil
			case "cancel", "cancelled":
				cancel()
				return nil, r.Context().Err()
			case "conn":
				return nil, errors.New("refused")
			case "status":
				return httpResp(503, nil), nil
			}
			i := regIndex(r.URL.Path)
			if i < 0 {
				return httpResp(404, nil), nil
			}
			if k.Wide {
				return httpResp(200, RegFile{Services: []Service{{Entries: []string{wideEntries[i]}, URLs: []string{"https://s0.example/"}}}}.JSON()), nil
			}
			return httpResp(200, multiRegDoc(i, []string{"https://s0.example/"})), nil
		}
		o := k.Answer
		switch o.Kind {
		case "conn":
			return nil, errors.New("refused")
		case "rdaperror":
			m := map[string]any{"errorCode": k.Code}
			if k.BadCode != "" {
				m["errorCode"] = json.RawMessage(k.BadCode)
			}
			if k.Title != nil {
				m["title"] = *k.Title
			}
			if k.Desc != nil {
				m["description"] = k.Desc
			}
			return httpResp(200, mustJSON(m)), nil
		case "ok":
			return httpResp(o.Status, answerDoc(o.Class, "mk")), nil
		case "cut":
			r := httpResp(o.Status, nil)
			r.Body = io.NopCloser(&truncReader{b: []byte("{")})
			return r, nil
		}
		return httpResp(o.Status, []byte(o.Body)), nil
	}
	hc := &http.Client{Transport: tr}
	cl := &rdap.Client{HTTP: hc, Bootstrap: &bootstrap.Client{HTTP: hc}}

	c.Label("helper=%s", k.Helper)
	c.NonTrivial(true)
	if k.Helper == "do" {
		var req *rdap.Request
		want := rdap.InputError
		if k.BootErr != "" {
			if k.BootErr == "cancelled" {
				cancel()
			}
			resp, err := cl.Do((&rdap.Request{Type: rdap.RequestType(-k.ReqType), Query: k.Query}).WithContext(ctx))
			c.Label("do=registry error")
			if resp != nil && (resp.Object != nil || len(resp.HTTP) > 0) {
				return errf("Do: an object or an attempt with a registry error")
			}
			return registryError(err)
		}
		switch {
		case k.NilReq:
		case k.ReqType < 0:
			req = &rdap.Request{Type: rdap.RequestType(-k.ReqType), Query: k.Query}
			want = rdap.BootstrapNoMatch
		default:
			req = &rdap.Request{Type: reqKinds[k.ReqType].typ, Query: k.Query}
			want = rdap.BootstrapNotSupported
		}
		resp, err := cl.Do(req)
		if err == nil || clientErrType(err) != want {
			return errf("Do: error %v (type %d), want type %d", err, clientErrType(err), want)
		}
		if resp != nil && resp.Object != nil {
			return errf("Do: an object with an error")
		}
		if want != rdap.BootstrapNoMatch && net != 0 {
			return errf("Do: %d network requests for a request that cannot run", net)
		}
		if want == rdap.BootstrapNoMatch && net != 1 {
			return errf("Do: %d network requests, want only the registry download", net)
		}
		if err.Error() == "" {
			return errf("empty error text")
		}
		c.Label("do=%d", want)
		return nil
	}

	var obj any
	var isNil bool
	var err error
	class := k.Helper
	switch k.Helper {
	case "domain":
		var d *rdap.Domain
		d, err = cl.QueryDomain(k.Query)
		obj, isNil = d, d == nil
	case "autnum":
		var d *rdap.Autnum
		d, err = cl.QueryAutnum(k.Query)
		obj, isNil = d, d == nil
	case "ip":
		var d *rdap.IPNetwork
		d, err = cl.QueryIP(k.Query)
		obj, isNil = d, d == nil
		class = "ip network"
	}
	if isNil == (err == nil) {
		return errf("object nil=%v with error %v", isNil, err)
	}
	wantType := func(want rdap.ClientErrorType) error {
		if err == nil || clientErrType(err) != want {
			return errf("error %v (type %d), want type %d", err, clientErrType(err), want)
		}
		c.Label("err=%d", want)
		return nil
	}
	switch {
	case k.Match == "invalid" || k.BootErr != "":
		c.Label("bootstrap error")
		return registryError(err)
	case k.Match == "miss":
		return wantType(rdap.BootstrapNoMatch)
	}
	switch k.Answer.Kind {
	case "ok":
		if k.Answer.Class == class {
			if err != nil {
				return errf("error %v", err)
			}
			if cls, mark := classOf(obj); cls != class || mark != "mk" {
				return errf("object %T %q", obj, mark)
			}
			c.Label("object")
			return nil
		}
		if k.Answer.Class == "error" {
			return wantType(rdap.RDAPServerError)
		}
		return wantType(rdap.WrongResponseType)
	case "rdaperror":
		if e := wantType(rdap.RDAPServerError); e != nil {
			return e
		}
		text := err.Error()
		if k.BadCode == "" && !digitsEq(text, strconv.Itoa(k.Code)) {
			return errf("the error text does not name the code %d: %q", k.Code, text)
		}
		if k.Title != nil && !strings.Contains(text, *k.Title) {
			return errf("the error text does not name the title %q: %q", *k.Title, text)
		}
		pos := 0
		for _, d := range k.Desc {
			i := strings.Index(text[pos:], d)
			if i < 0 {
				return errf("the error text lacks the description %q: %q", d, text)
			}
			pos += i + len(d)
		}
		return nil
	case "404":
		return wantType(rdap.ObjectDoesNotExist)
	default:
		return wantType(rdap.NoWorkingServers)
	}
}

// registryError: a registry that could not be had, or a query it cannot be asked
// for, is an error of none of the kinds that say something else.
func registryError(err error) error {
	if err == nil {
		return errf("no error")
	}
	if err.Error() == "" {
		return errf("empty error text")
	}
	switch t := clientErrType(err); t {
	case rdap.BootstrapNotSupported, rdap.BootstrapNoMatch, rdap.WrongResponseType, rdap.NoWorkingServers, rdap.ObjectDoesNotExist, rdap.RDAPServerError:
		return errf("registry error reported as kind %d: %v", t, err)
	}
	return nil
}

// digitsEq: some maximal digit run of s is n.
func digitsEq(s, n string) bool {
	for _, d := range digits.FindAllString(s, -1) {
		if d == n {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- C16

type timeoutCase struct {
	Mode      string // do, helper
	Boot      bool
	TimeoutMs int // Request.Timeout, 0 none
	CtxMs     int // context deadline, 0 none
	CtxKind   int // with a deadline: direct, below a cancellable context, with values
	Servers   int
	Verbose   bool
	Warm      bool
	Helper    string
	Kind      int  // bootKinds index of Do
	HTTPTime  bool // the HTTP clients have a (long) time limit of their own
	OwnHTTP   bool // the bootstrap client has an HTTP client of its own
	Type      int  // explicit server: request type
}

const ownTimeout = 3 * time.Hour

func genTimeoutCase(t *rapid.T) timeoutCase {
	k := timeoutCase{Mode: pick(t, "mode", "do", "do", "helper"), Boot: chance(t, "boot", 60),
		TimeoutMs: 0, CtxMs: 0, CtxKind: uni(t, "ck", 3), Servers: intn(t, "n", 1, 3),
		Verbose: chance(t, "v", 20), Warm: chance(t, "warm", 20), Helper: pick(t, "h", "domain", "autnum", "ip"),
		Kind: uni(t, "kind", len(bootKinds)), HTTPTime: chance(t, "httptime", 30), OwnHTTP: chance(t, "own", 40), Type: uni(t, "type", len(reqKinds))}
	dur := func(l string) int {
		switch uni(t, l, 4) {
		case 0, 1:
			return 0
		case 2:
			return pick(t, l+"std", 5000, 20000, 29000, 30000, 31000, 45000, 60000, 100000, 3600000, 4000000)
		}
		return intn(t, l+"ms", 1500, 200000)
	}
	k.TimeoutMs, k.CtxMs = dur("T"), dur("C")
	return k
}

func checkDeadline(c *Ctx, k timeoutCase) error {
	type seen struct {
		at  time.Time
		dl  time.Time
		has bool
		url string
	}
	var log []seen
	tr := &stubTransport{}
	var servers []string
	for i := 0; i < k.Servers; i++ {
		servers = append(servers, fmt.Sprintf("https://s%d.example/", i))
	}
	tr.f = func(_ int, r *http.Request) (*http.Response, error) {
		dl, ok := r.Context().Deadline()
		log = append(log, seen{time.Now(), dl, ok, r.URL.String()})
		time.Sleep(300 * time.Microsecond)
		if r.URL.Host == "data.iana.org" {
			return httpResp(200, multiRegDoc(regIndex(r.URL.Path), servers)), nil
		}
		if !strings.HasPrefix(r.URL.Host, fmt.Sprintf("s%d.", k.Servers-1)) {
			return httpResp(503, nil), nil
		}
		return httpResp(200, answerDoc("domain", "m")), nil
	}
	hc := &http.Client{Transport: tr}
	bhc := hc
	if k.OwnHTTP {
		bhc = &http.Client{Transport: tr}
	}
	if k.HTTPTime {
		hc.Timeout, bhc.Timeout = ownTimeout, ownTimeout
	}
	cl := &rdap.Client{HTTP: hc, Bootstrap: &bootstrap.Client{HTTP: bhc}}
	if k.Verbose {
		cl.Verbose = func(string) {}
	}
	runs := 1
	if k.Warm {
		runs = 2
	}
	for run := 0; run < runs; run++ {
		log = nil
		t0 := time.Now()
		var limit []time.Duration
		var ctxDL time.Time
		if k.Mode == "helper" {
			switch k.Helper {
			case "domain":
				cl.QueryDomain("example.com")
			case "autnum":
				cl.QueryAutnum("AS64500")
			case "ip":
				cl.QueryIP("2001:db8::1")
			}
			limit = append(limit, 30*time.Second)
		} else {
			bk := bootKinds[k.Kind]
			req := &rdap.Request{Type: bk.typ, Query: bk.queries[0], Timeout: time.Duration(k.TimeoutMs) * time.Millisecond}
			if !k.Boot {
				req.Type = reqKinds[k.Type].typ
				if req.Type == rdap.RawRequest {
					req.Type = rdap.DomainRequest
				}
				req.Server, _ = url.Parse(fmt.Sprintf("https://s%d.example/", k.Servers-1))
			}
			if k.TimeoutMs > 0 {
				limit = append(limit, req.Timeout)
			}
			if k.CtxMs > 0 {
				ctx, cancel := context.WithDeadline(context.Background(), t0.Add(time.Duration(k.CtxMs)*time.Millisecond))
				ctxDL, _ = ctx.Deadline()
				defer cancel()
				switch k.CtxKind {
				case 1:
					ctx, cancel = context.WithCancel(ctx)
					defer cancel()
				case 2:
					ctx = context.WithValue(ctx, deadlineKey{}, "v")
				}
				req = req.WithContext(ctx)
			} else if k.CtxKind == 1 {
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				req = req.WithContext(ctx)
			}
			t0 = time.Now()
			cl.Do(req)
		}
		if len(log) == 0 {
			return errf("no HTTP request was made")
		}
		first := log[0].at
		for i, s := range log {
			if len(limit) == 0 && ctxDL.IsZero() {
				if s.has && !(k.HTTPTime && !s.dl.Before(t0.Add(ownTimeout))) {
					return errf("request %d (%s) has the deadline %s although no timeout was set", i, s.url, s.dl.Sub(t0))
				}
				continue
			}
			if !s.has {
				return errf("request %d (%s) has no deadline", i, s.url)
			}
			lo, hi := time.Time{}, time.Time{}
			if len(limit) > 0 {
				lo, hi = t0.Add(limit[0]), first.Add(limit[0])
			}
			if !ctxDL.IsZero() {
				if hi.IsZero() || ctxDL.Before(hi) {
					hi = ctxDL
				}
				if lo.IsZero() || ctxDL.Before(lo) {
					lo = ctxDL
				}
			}
			if s.dl.After(hi) || s.dl.Before(lo.Add(-time.Millisecond)) {
				return errf("request %d (%s) has the deadline %s after the start, want between %s and %s", i, s.url, s.dl.Sub(t0), lo.Sub(t0), hi.Sub(t0))
			}
		}
		c.Label("requests=%d", len(log))
	}
	c.Label("mode=%s", k.Mode)
	c.NonTrivial(k.Mode == "helper" || k.TimeoutMs > 0 || k.CtxMs > 0)
	c.LabelIf(k.TimeoutMs > 0 && k.CtxMs > 0, "timeout and deadline")
	c.LabelIf(k.HTTPTime, "HTTP client timeout")
	return nil
}

type deadlineKey struct{}

// A stalled operation must end when its time is up. The transport answers
// (properly) only after half a minute, so a query which does not give up
// succeeds late and is told apart without measuring time.
type stallCase struct {
	How     string // timeout, deadline, cancel
	Where   string // bootstrap, headers, body
	Ms      int
	Servers int
	Stall   int // index of the stalling server
	Boot    bool
	Ns      int // a limit below a millisecond
	Far     int // cancel: another limit, which lies far ahead: 1 Timeout, 2 context deadline, 3 both
}

func genStallCase(t *rapid.T) stallCase {
	k := stallCase{How: pick(t, "how", "timeout", "deadline", "cancel"), Where: pick(t, "where", "bootstrap", "headers", "headers", "body", "body"), Ms: intn(t, "ms", 1, 40), Servers: intn(t, "n", 1, 3), Boot: chance(t, "boot", 60)}
	if k.Where == "bootstrap" || k.Servers > 1 {
		k.Boot = true
	}
	k.Stall = uni(t, "stall", k.Servers)
	if k.How == "cancel" && chance(t, "far?", 60) {
		k.Far = intn(t, "far", 1, 3)
	}
	if k.How != "cancel" && chance(t, "tiny", 20) {
		k.Ns = pick(t, "ns", 1, 100, 1000, 50000, 500000, 999999)
	}
	return k
}

const stallFor = 40 * time.Second

type stallBody struct {
	ctx  context.Context
	head []byte
	tail []byte
	done bool
}

func (s *stallBody) Read(p []byte) (int, error) {
	if len(s.head) > 0 {
		n := copy(p, s.head)
		s.head = s.head[n:]
		return n, nil
	}
	if !s.done {
		select {
		case <-s.ctx.Done():
			return 0, s.ctx.Err()
		case <-time.After(stallFor):
		}
		s.done = true
	}
	if len(s.tail) == 0 {
		return 0, io.EOF
	}
	n := copy(p, s.tail)
	s.tail = s.tail[n:]
	return n, nil
}
func (s *stallBody) Close() error { return nil }

func checkStall(c *Ctx, k stallCase) error {
	var mu sync.Mutex
	var servers []string
	for i := 0; i < k.Servers; i++ {
		servers = append(servers, fmt.Sprintf("https://s%d.example/", i))
	}
	stalled := make(chan struct{}, 16)
	tr := roundTripFunc(func(r *http.Request) (*http.Response, error) {
		mu.Lock()
		defer mu.Unlock()
		ctx := r.Context()
		if ctx.Err() != nil {
			return nil, ctx.Err()
		}
		wait := func() error {
			stalled <- struct{}{}
			select {
			case <-ctx.Done():
				return ctx.Err()
			case <-time.After(stallFor):
				return nil
			}
		}
		doc := answerDoc("domain", "m")
		if r.URL.Host == "data.iana.org" {
			if k.Where == "bootstrap" {
				if err := wait(); err != nil {
					return nil, err
				}
			}
			return httpResp(200, multiRegDoc(regIndex(r.URL.Path), servers)), nil
		}
		var i int
		fmt.Sscanf(r.URL.Host, "s%d.", &i)
		switch {
		case k.Where == "bootstrap":
			return httpResp(200, doc), nil
		case i < k.Stall:
			return nil, errors.New("refused")
		case k.Where == "headers":
			if err := wait(); err != nil {
				return nil, err
			}
			return httpResp(200, doc), nil
		default:
			stalled <- struct{}{}
			resp := httpResp(200, doc)
			resp.Body = &stallBody{ctx: ctx, head: doc[:len(doc)/2], tail: doc[len(doc)/2:]}
			return resp, nil
		}
	})
	hc := &http.Client{Transport: tr}
	cl := &rdap.Client{HTTP: hc, Bootstrap: &bootstrap.Client{HTTP: hc}}
	req := &rdap.Request{Type: rdap.DomainRequest, Query: "example.com"}
	if !k.Boot {
		req.Server, _ = url.Parse("https://s0.example/")
	}
	d := time.Duration(k.Ms) * time.Millisecond
	if k.Ns > 0 {
		d = time.Duration(k.Ns)
		c.Label("limit below a millisecond")
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	switch k.How {
	case "timeout":
		req.Timeout = d
	case "deadline":
		var c2 context.CancelFunc
		ctx, c2 = context.WithTimeout(ctx, d)
		defer c2()
		req = req.WithContext(ctx)
	case "cancel":
		if k.Far&1 != 0 {
			req.Timeout = time.Hour
		}
		if k.Far&2 != 0 {
			var c2 context.CancelFunc
			ctx, c2 = context.WithTimeout(ctx, 2*time.Hour)
			defer c2()
		}
		req = req.WithContext(ctx)
		go func() {
			select {
			case <-stalled:
				time.Sleep(d)
			case <-time.After(stallFor / 2):
			}
			cancel()
		}()
	}
	start := time.Now()
	resp, err := cl.Do(req)
	if e := time.Since(start); e > stallFor*3/4 {
		return errf("the query returned (error %v) only after %s, its limit was %s by %s", err, e, d, k.How)
	}
	if err == nil {
		return errf("the query succeeded although a server stalled for %s (limit %s by %s)", stallFor, d, k.How)
	}
	if resp != nil && resp.Object != nil {
		return errf("an object with an error")
	}
	c.Label("how=%s where=%s", k.How, k.Where)
	c.NonTrivial(true)
	return nil
}

// Without a time limit a query waits for as long as its server takes, whichever
// parts of the client were left for it to fill in.
type slowCase struct {
	HTTP   bool
	BS     bool
	Server bool   // explicit server
	Slow   string // registry, server
	Secs   int
}

func enumSlow(tier string, yield func(slowCase)) {
	secs := 33
	if tier == "thorough" {
		secs = 63
	}
	for _, k := range []slowCase{{false, false, false, "server", secs}, {false, false, false, "registry", secs}, {true, false, false, "registry", secs},
		{false, true, false, "server", secs}, {false, true, false, "registry", secs}, {true, true, false, "registry", secs}, {false, false, true, "server", secs}, {true, true, true, "server", secs}} {
		yield(k)
	}
}

func checkSlow(c *Ctx, k slowCase) error {
	if tr, ok := http.DefaultTransport.(*http.Transport); ok && tr.TLSClientConfig == nil {
		tr.TLSClientConfig = &tls.Config{InsecureSkipVerify: true}
	}
	setWorld(c, func(h hit) reply {
		if h.Method == "CONNECT" {
			return reply{}
		}
		u, _ := url.Parse(h.URL)
		i := regIndex(u.Path)
		if (i >= 0) == (k.Slow == "registry") {
			time.Sleep(time.Duration(k.Secs) * time.Second)
		}
		if i >= 0 {
			return reply{Body: string(multiRegDoc(i, []string{"http://server.example/rdap/"}))}
		}
		return reply{Body: string(answerDoc("domain", "m"))}
	})
	cl := &rdap.Client{}
	if k.HTTP {
		cl.HTTP = &http.Client{}
	}
	if k.BS {
		u, _ := url.Parse("http://bs.example/x/")
		cl.Bootstrap = &bootstrap.Client{BaseURL: u}
	}
	req := &rdap.Request{Type: rdap.DomainRequest, Query: "example.com"}
	if k.Server {
		req.Server, _ = url.Parse("http://server.example/rdap/")
	}
	start := time.Now()
	resp, err := cl.Do(req)
	if err != nil {
		return errf("a query without a time limit, answered after %d s, failed after %s: %s", k.Secs, time.Since(start), err)
	}
	if cls, m := classOf(resp.Object); cls != "domain" || m != "m" {
		return errf("object %T", resp.Object)
	}
	c.Label("slow %s", k.Slow)
	c.NonTrivial(true)
	return nil
}

type roundTripFunc func(r *http.Request) (*http.Response, error)

func (f roundTripFunc) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

// ---------------------------------------------------------------- C17

type dispatchCase struct {
	Boot    int
	Query   string
	Server  string
	Type    int
	Agent   string
	BaseURL string
	Repeat  int
	Accept  bool
	Helper  bool // QueryDomain, QueryIP, QueryAutnum instead of Do
	Wide    int  // the registry has an entry for everything: 1 instead of, 2 besides the usual one
	Out     bool // only the entry for everything matches the query
	Redir   int  `json:",omitempty"` // status of a redirect by the server
	Dead    int  `json:",omitempty"` // servers listed before it that do not answer
}

// Entries that match every query.
var wideEntries = []string{"", "0.0.0.0/0", "::/0", "0-4294967295"}

func genDispatch(t *rapid.T) dispatchCase {
	k := dispatchCase{Boot: uni(t, "boot", 6) - 1, Agent: pick(t, "agent", "", "", "tool/1.0", "OpenRDAP (x; y)"), Repeat: intn(t, "rep", 1, 2)}
	k.BaseURL = pick(t, "base", "", "", "https://bs.example/rdap", "http://bs.example:8080/")
	if k.Boot >= 0 {
		k.Query = pick(t, "q", bootKinds[k.Boot].queries...)
		if chance(t, "random query", 66) {
			switch k.Boot {
			case 0:
				k.Query = pick(t, "label", "a", "www", "xn--bcher-kva", "_dmarc", "a-b", "1", "192", "as64500", "b\u00fccher", "\u65e5\u672c") +
					"." + pick(t, "l2", "example", "x", "net", "10") + "." + pick(t, "tld", "com", "COM", "com.", "Com")
			case 1:
				k.Query = fmt.Sprintf("192.0.2.%d%s", intn(t, "o", 0, 255), pick(t, "len", "", "", "/32"))
			case 2:
				if chance(t, "dotted", 15) {
					k.Query = "2001:db8::" + pick(t, "quad", "192.0.2.1", "1.2.3.4", "ffff:192.0.2.77")
					break
				}
				k.Query = fmt.Sprintf("2001:%s:%x::%x%s", pick(t, "db", "db8", "DB8", "0db8"), intn(t, "h", 0, 65535), intn(t, "o", 0, 65535), pick(t, "len", "", "", "/128"))
			case 3:
				k.Query = fmt.Sprintf("%s%d", pick(t, "as", "", "AS", "as", "As", "aS", "AS0", "00"), intn(t, "n", 64496, 64511))
			case 4:
				k.Query = pick(t, "hdl", "x", "A-B", "1", "\u00e9", "192.0.2.1", "example.com") + pick(t, "sep", "-", "~") + "VRSN"
			}
		}
		k.Helper = k.Boot < 4 && chance(t, "helper", 33)
		if k.Boot < 4 && chance(t, "wide?", 30) {
			k.Wide = intn(t, "wide", 1, 2)
			if k.Boot == 3 {
				k.Wide = 1
			}
			if k.Out = chance(t, "out", 50); k.Out {
				k.Query = pick(t, "oq", bootKinds[k.Boot].miss...)
			}
		}
	} else {
		k.Type = uni(t, "type", len(reqKinds))
		k.Server = pick(t, "srv", "https://chosen.example/rdap/", "http://192.0.2.9:81", "https://chosen.example")
		k.Query = pick(t, "q", "example.com", "192.0.2.77", "2001:db8::77", "AS64500", "H1-VRSN", "x", "")
	}
	if chance(t, "redir", 15) {
		k.Redir = pick(t, "rst", 301, 302, 303, 307, 308)
	}
	if k.Boot >= 0 && k.Wide == 0 && chance(t, "dead", 15) {
		k.Dead = intn(t, "ndead", 1, 3)
	}
	return k
}

func acceptsRDAP(h http.Header) error {
	acc := strings.Join(h.Values("Accept"), ",")
	for _, a := range strings.Split(acc, ",") {
		if strings.TrimSpace(strings.SplitN(a, ";", 2)[0]) == "application/rdap+json" {
			return nil
		}
	}
	return errf("Accept header %q does not ask for application/rdap+json", acc)
}

// toolCase: the requests of the command line tool.
type toolCase struct {
	Boot  int
	Query int
	Srv   bool
	Hops  []int
	Flags []string
}

func genTool(t *rapid.T) toolCase {
	k := toolCase{Boot: uni(t, "boot", 5), Query: uni(t, "q", 5), Srv: chance(t, "srv", 40)}
	for n := pick(t, "hops", 0, 0, 1, 2, 5); n > 0; n-- {
		k.Hops = append(k.Hops, pick(t, "hop", 301, 302, 303, 307, 308))
	}
	if chance(t, "flag", 40) {
		k.Flags = []string{pick(t, "f", "-v", "-k", "--raw", "-j", "--text", "-w", "--exp=object_tag", "-fall", "-T60")}
	}
	return k
}

func checkTool(c *Ctx, k toolCase) error {
	setWorld(c, func(h hit) reply {
		if strings.HasPrefix(h.URL, "http://bs.example/") {
			if i := regIndex(h.URL); i >= 0 {
				return reply{Body: string(multiRegDoc(i, []string{"http://server.example/rdap/"}))}
			}
			return reply{Status: 404}
		}
		n := 0
		fmt.Sscanf(h.URL, "http://m%d.", &n)
		if n < len(k.Hops) {
			return reply{Status: k.Hops[n], Location: fmt.Sprintf("http://m%d.moved.example/x/%d", n+1, n+1)}
		}
		return reply{Body: string(answerDoc("domain", "m"))}
	})
	bk := bootKinds[k.Boot]
	q := bk.queries[k.Query%len(bk.queries)]
	typ := []string{"domain", "ip", "ip", "autnum", "entity"}[k.Boot]
	// (-t ip is for addresses; ranges are recognised.)
	args := []string{"--cache-dir=", "--bs-url=http://bs.example/", q}
	if typ != "ip" {
		args = append(args, "-t", typ)
	}
	var want []string
	server := "http://server.example/rdap/"
	if k.Srv {
		server = "http://chosen.example/"
		args = append(args, "-s", server)
	} else {
		want = append(want, "http://bs.example/"+regFiles[bk.reg])
	}
	want = append(want, server+typ+"/")
	for i := range k.Hops {
		want = append(want, fmt.Sprintf("http://m%d.moved.example/x/%d", i+1, i+1))
	}
	r := runCLI(c, append(args, k.Flags...)...)
	hits := takeHits()
	if r.exit != 0 {
		return errf("%q: %s (requests %v)", args, r, hits)
	}
	if len(hits) != len(want) {
		return errf("%q: requests %v, want to %q", args, hits, want)
	}
	for i, h := range hits {
		if h.Method != "GET" || !strings.HasPrefix(h.URL, want[i]) {
			return errf("%q: request %v, want GET %s", args, h, want[i])
		}
		if i > 0 || k.Srv {
			if err := acceptsRDAP(h.Header); err != nil {
				return errf("%q: request %v: %s", args, h, err)
			}
		}
	}
	c.Label("tool")
	c.LabelIf(len(k.Hops) > 0, "tool, redirected")
	c.NonTrivial(true)
	return nil
}

func checkDispatch(c *Ctx, k dispatchCase) error {
	var servers []string
	if k.Boot >= 0 {
		for i := 0; i < k.Dead; i++ {
			servers = append(servers, fmt.Sprintf("https://dead%d.example/rdap/", i))
		}
		servers = append(servers, regURL(bootKinds[k.Boot].reg, 1, "reg"))
	}
	tr := &stubTransport{}
	tr.f = func(_ int, r *http.Request) (*http.Response, error) {
		if r.URL.Host == "data.iana.org" || strings.HasPrefix(r.URL.Host, "bs.example") {
			i := regIndex(r.URL.Path)
			if i < 0 {
				return httpResp(404, nil), nil
			}
			if k.Wide > 0 && i < len(wideEntries) {
				f := RegFile{Desc: "d", Ver: "1.0", Pub: "p", Services: []Service{{Entries: []string{wideEntries[i]}, URLs: []string{regURL(i, 1, "wide")}}}}
				if k.Wide == 2 {
					f.Services = append(f.Services, Service{Entries: []string{regEntries[i]}, URLs: []string{regURL(i, 1, "reg")}})
				}
				return httpResp(200, f.JSON()), nil
			}
			if k.Dead > 0 {
				return httpResp(200, multiRegDoc(i, servers)), nil
			}
			return httpResp(200, regDoc(i, 1, "reg")), nil
		}
		if strings.HasPrefix(r.URL.Host, "dead") {
			if r.URL.Host == "dead1.example" {
				return httpResp(503, []byte("no")), nil
			}
			return nil, errors.New("connection refused")
		}
		if k.Redir != 0 && r.URL.Host != "moved.example" {
			resp := httpResp(k.Redir, nil)
			resp.Header.Set("Location", "http://moved.example/to/it")
			return resp, nil
		}
		cls := "domain"
		if k.Helper {
			cls = []string{"domain", "ip network", "ip network", "autnum"}[k.Boot]
		}
		return httpResp(200, answerDoc(cls, "m")), nil
	}
	hc := &http.Client{Transport: tr}
	bs := &bootstrap.Client{HTTP: hc}
	if k.BaseURL != "" {
		bs.BaseURL, _ = url.Parse(k.BaseURL)
	}
	cl := &rdap.Client{HTTP: hc, Bootstrap: bs, UserAgent: k.Agent}
	for rep := 0; rep < k.Repeat; rep++ {
		tr.reqs = nil
		req := &rdap.Request{Query: k.Query}
		var want []string
		if k.Boot >= 0 {
			bk := bootKinds[k.Boot]
			req.Type = bk.typ
			if rep == 0 {
				base := k.BaseURL
				if base == "" {
					base = bootstrap.DefaultBaseURL
				}
				want = append(want, strings.TrimSuffix(base, "/")+"/"+regFiles[bk.reg])
			}
			if k.Wide == 1 || k.Out {
				want = append(want, regURL(bk.reg, 1, "wide"))
			} else {
				want = append(want, servers...)
			}
		} else {
			req.Type = reqKinds[k.Type].typ
			req.Server, _ = url.Parse(k.Server)
			want = append(want, k.Server)
		}
		main := len(want) - 1 - k.Dead
		if k.Redir != 0 {
			want = append(want, "http://moved.example/to/it")
		}
		if k.Helper {
			var err error
			switch k.Boot {
			case 0:
				_, err = cl.QueryDomain(k.Query)
			case 1, 2:
				_, err = cl.QueryIP(k.Query)
			case 3:
				_, err = cl.QueryAutnum(k.Query)
			}
			if err != nil {
				return errf("the helper for %q failed: %s", k.Query, err)
			}
		} else {
			resp, err := cl.Do(req)
			if err != nil {
				return errf("the query failed: %s", err)
			}
			if (resp.BootstrapAnswer != nil) != (k.Boot >= 0) {
				return errf("bootstrap answer %v", resp.BootstrapAnswer)
			}
		}
		var got []string
		for _, r := range tr.reqs {
			got = append(got, r.URL.String())
		}
		if len(got) != len(want) {
			return errf("requests %q, want to %q", got, want)
		}
		for i := range want {
			last := i >= main
			if !last && got[i] != want[i] {
				return errf("registry request %q, want %q", got[i], want[i])
			}
			if last && !strings.HasPrefix(got[i], want[i]) {
				return errf("RDAP request %q, want to %q", got[i], want[i])
			}
			r := tr.reqs[i]
			if r.Method != "GET" {
				return errf("method %q", r.Method)
			}
			if r.Body != nil && r.Body != http.NoBody {
				b, _ := io.ReadAll(r.Body)
				if len(b) > 0 {
					return errf("the request has a body %q", b)
				}
			}
			if last {
				if err := acceptsRDAP(r.Header); err != nil {
					return err
				}
				if k.Agent != "" && !strEq(r.Header.Values("User-Agent"), []string{k.Agent}) {
					return errf("User-Agent %q, want %q", r.Header.Values("User-Agent"), k.Agent)
				}
			}
		}
		if k.Boot >= 0 {
			u, _ := url.Parse(got[main])
			dec, _ := url.PathUnescape(strings.TrimPrefix(u.EscapedPath(), "/rdap/"))
			want := bootPath(bootKinds[k.Boot], k.Query)
			if k.Helper && k.Boot == 3 {
				n := strings.TrimLeft(k.Query, "aAsS0")
				want = "autnum/" + n
			}
			if dec != want {
				return errf("RDAP path %q, want %q", dec, want)
			}
		}
	}
	c.Label("boot=%d", k.Boot)
	c.LabelIf(k.Wide > 0, "registry entry for everything")
	c.NonTrivial(true)
	return nil
}

// zeroCase: the zero client of the documentation's examples, and clients with
// only some parts set, over real sockets.
type zeroCase struct {
	Boot   int
	Query  int
	Miss   bool
	Agent  string
	HTTP   bool // HTTP client set
	BS     int  // 0: nil, 1: zero bootstrap client, 2: with base URL
	Helper bool
	Pre    bool // an explicit server first
	Nil    bool // a nil request first
}

func genZero(t *rapid.T) zeroCase {
	k := zeroCase{Boot: uni(t, "boot", 5), Query: intn(t, "q", 0, 5), Miss: chance(t, "miss", 20), Agent: pick(t, "agent", "", "tool/1.0"),
		HTTP: chance(t, "http", 33), BS: pick(t, "bs", 0, 0, 1, 2), Pre: chance(t, "pre", 33), Nil: chance(t, "nil", 20)}
	k.Helper = k.Boot < 4 && chance(t, "helper", 40)
	return k
}

func checkZero(c *Ctx, k zeroCase) error {
	if tr, ok := http.DefaultTransport.(*http.Transport); ok && tr.TLSClientConfig == nil {
		tr.TLSClientConfig = &tls.Config{InsecureSkipVerify: true}
	}
	cls := []string{"domain", "ip network", "ip network", "autnum", "entity"}[k.Boot]
	setWorld(c, func(h hit) reply {
		if h.Method == "CONNECT" {
			return reply{}
		}
		if strings.HasPrefix(h.URL, "http://data.iana.org/") || strings.HasPrefix(h.URL, "https://data.iana.org/") || strings.HasPrefix(h.URL, "http://bs.example/") {
			u, _ := url.Parse(h.URL)
			if i := regIndex(u.Path); i >= 0 {
				return reply{Body: string(multiRegDoc(i, []string{"http://server.example/rdap/"}))}
			}
			return reply{Status: 404}
		}
		return reply{Body: string(answerDoc(cls, "m"))}
	})
	bk := bootKinds[k.Boot]
	qs := bk.queries
	if k.Miss {
		qs = bk.miss
	}
	q := qs[k.Query%len(qs)]
	cl := &rdap.Client{UserAgent: k.Agent}
	if k.HTTP {
		cl.HTTP = &http.Client{}
	}
	base := bootstrap.DefaultBaseURL
	switch k.BS {
	case 1:
		cl.Bootstrap = &bootstrap.Client{}
	case 2:
		base = "http://bs.example/x/"
		u, _ := url.Parse(base)
		cl.Bootstrap = &bootstrap.Client{BaseURL: u}
	}
	if k.Nil {
		if _, err := cl.Do(nil); err == nil {
			return errf("a nil request succeeded")
		}
	}
	gets := func() (out []hit) {
		for _, h := range takeHits() {
			if h.Method != "CONNECT" {
				out = append(out, h)
			}
		}
		return
	}
	if h := gets(); len(h) > 0 {
		return errf("unexpected requests %v", h)
	}
	if k.Pre {
		u, _ := url.Parse("http://chosen.example/rdap")
		if _, err := cl.Do((&rdap.Request{Type: bk.typ, Query: q}).WithServer(u)); err != nil {
			return errf("explicit server: %s", err)
		}
		h := gets()
		if len(h) != 1 || !strings.HasPrefix(h[0].URL, "http://chosen.example/rdap/") {
			return errf("explicit server: requests %v", h)
		}
	}
	for rep := 0; rep < 2; rep++ {
		var err error
		var obj any
		if k.Helper {
			switch k.Boot {
			case 0:
				obj, err = cl.QueryDomain(q)
			case 1, 2:
				obj, err = cl.QueryIP(q)
			case 3:
				obj, err = cl.QueryAutnum(q)
			}
		} else {
			var resp *rdap.Response
			resp, err = cl.Do(&rdap.Request{Type: bk.typ, Query: q})
			if err == nil {
				obj = resp.Object
			}
		}
		h := gets()
		want := 1
		if rep == 0 {
			if len(h) == 0 || h[0].URL != base+regFiles[bk.reg] {
				return errf("query %q: requests %v, want the registry %s first", q, h, base+regFiles[bk.reg])
			}
			want = 2
		}
		if k.Miss {
			if err == nil || len(h) != want-1 {
				return errf("unmatched query %q: error %v, requests %v", q, err, h)
			}
			continue
		}
		if err != nil {
			return errf("query %q: %s (requests %v)", q, err, h)
		}
		if gc, gm := classOf(obj); gc != cls || gm != "m" {
			return errf("query %q: object %T", q, obj)
		}
		if len(h) != want || !strings.HasPrefix(h[want-1].URL, "http://server.example/rdap/"+[]string{"domain", "ip", "ip", "autnum", "entity"}[k.Boot]+"/") {
			return errf("query %q: requests %v", q, h)
		}
		if k.Agent != "" && h[want-1].Header.Get("User-Agent") != k.Agent {
			return errf("User-Agent %q, want %q", h[want-1].Header.Get("User-Agent"), k.Agent)
		}
	}
	c.Label("zero boot=%d", k.Boot)
	c.NonTrivial(true)
	return nil
}

var _ = json.Valid

func init() {
	register(&Prop{ID: "C14", Level: "fault_enumeration",
		Rule: "lists of 1..8 servers (bootstrapped through any of the five registries, or one explicit server with any request type), each with a generated outcome: connection error, body cut short, 30 kinds of error status with or without bodies, 404, empty 2xx, undecodable 2xx, unusable server URL, valid 2xx of any RDAP class, answered directly or through a redirect, small or large, with any content type; servers on different or the same host; first and repeated query, verbose or not. Oracle: a model of the failover loop predicts contacted servers, every recorded attempt, object and error kind; response bodies must be closed. Non-trivial: more than one server, or the only one does not answer properly.",
		Subs: []*Sub{sub("failover", 240000, 2000000, genFailCase, checkFail)}})
	register(&Prop{ID: "C15", Level: "exploration",
		Rule: "QueryDomain/QueryAutnum/QueryIP and Do with matching, unmatched and invalid queries, failing registries, answers of all ten RDAP classes, generated RDAP errors (code, title, description present or not, format characters), HTTP failures; Do with nil and with every type that cannot be bootstrapped. Oracle: table of the documented error kinds, text of server errors, and the number of network requests. All cases are non-trivial.",
		Subs: []*Sub{sub("errors", 240000, 2000000, genHelperCase, checkHelper)}})
	register(&Prop{ID: "C16", Level: "exploration",
		Rule:        "combinations of Request.Timeout, context deadline (1.5 s to an hour; below cancellable contexts), HTTP client time limits and typed helpers, all request types, with and without bootstrapping, 1..3 servers, first and later queries: the deadline each HTTP request carries must lie within the interval computed from measured times; plus the command-line tool with -T against stalled registries and servers; plus stalled registries, headers and bodies ended by timeout, deadline or cancellation (a query that does not give up succeeds after 40 s and is reported), limits down to a nanosecond; plus unlimited queries of zero-value and partly set clients whose registry or server takes 33 s (thorough: 63 s), which must succeed. Non-trivial: some limit applies.",
		Assumptions: []string{"deadlines are read from the context given to the HTTP transport"},
		Subs:        []*Sub{sub("deadline", 80000, 1000000, genTimeoutCase, checkDeadline), sub("stall", 1200, 20000, genStallCase, checkStall), enumSub("cli", enumCLITimeout, checkCLITimeout), enumSub("slow", enumSlow, checkSlow)}})
	register(&Prop{ID: "C17", Level: "exploration",
		Rule: "every request type with an explicit server, and the bootstrapped types through Do and the typed helpers with generated query spellings, default or custom registry base URL, first and second query on a client, user agents; zero-value and partly set clients, and the command line tool, over loopback sockets; servers that redirect. Oracle: exact list of contacted URLs, registry file, method, body and headers. All cases are non-trivial.",
		Subs: []*Sub{sub("dispatch", 240000, 1000000, genDispatch, checkDispatch), sub("zero", 4000, 40000, genZero, checkZero), sub("tool", 4000, 40000, genTool, checkTool)}})
}
