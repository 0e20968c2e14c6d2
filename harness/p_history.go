package main

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C36

type indReq struct {
	Boot    int // bootKinds index, -1: explicit server
	Type    int // explicit server: reqKinds index
	Query   int
	Miss    bool
	Server  int
	Timeout int // milliseconds
	Param   string
}

type indStep struct {
	Req      int
	Helper   bool
	Outcomes []outcome
	BootErr  string // "", conn, status, bad
	Cancel   bool
	Agent    string
	Verbose  bool
	Nil      bool
}

type indCase struct {
	Layout int
	Reqs   []indReq
	Steps  []indStep
}

func genInd(t *rapid.T) indCase {
	k := indCase{Layout: pick(t, "layout", 0, 0, 1)}
	for i := intn(t, "reqs", 1, 3); i > 0; i-- {
		r := indReq{Boot: uni(t, "boot", 6) - 1, Type: uni(t, "type", len(reqKinds)), Query: intn(t, "q", 0, 5), Miss: chance(t, "miss", 15), Server: intn(t, "srv", 0, 2)}
		r.Timeout = pick(t, "timeout", 0, 0, 60000, 3600000, 60400, 3599501)
		r.Param = pick(t, "param", "", "", "jsonp", "x y")
		k.Reqs = append(k.Reqs, r)
	}
	for i := intn(t, "steps", 2, 6); i > 0; i-- {
		s := indStep{Req: uni(t, "req", len(k.Reqs)), Helper: chance(t, "helper", 25), Cancel: chance(t, "cancel", 6), Agent: pick(t, "agent", "", "", "tool/1", "tool/2"), Verbose: chance(t, "verbose", 20), Nil: chance(t, "nil", 3)}
		if chance(t, "booterr", 10) {
			s.BootErr = pick(t, "be", "conn", "status", "bad")
		}
		for j := 0; j < 3; j++ {
			o := genOutcome(t)
			if o.Kind == "unusable" {
				o.Kind = "conn"
			}
			if chance(t, "works", 25) {
				o = outcome{Kind: "ok", Status: 200, Class: pick(t, "cls", answerClasses...), Hdr: o.Hdr}
			}
			o.NoLen = false
			s.Outcomes = append(s.Outcomes, o)
		}
		k.Steps = append(k.Steps, s)
	}
	return k
}

func checkInd(c *Ctx, k indCase) error {
	srv := func(reg, i int) string {
		if k.Layout == 1 {
			return fmt.Sprintf("https://s.example/r%dp%d/?k=v", reg, i)
		}
		return fmt.Sprintf("https://s%d-%d.example/p%d/", i, reg, i)
	}
	var cur indStep
	mark := ""
	serving := false // registries work and nothing is counted
	type sent struct {
		URL, Method string
		Header      http.Header
		Deadline    bool
	}
	newWorld := func() (*http.Client, *[]sent, *int) {
		var log []sent
		downloads := 0
		tr := &stubTransport{}
		tr.f = func(_ int, r *http.Request) (*http.Response, error) {
			if err := r.Context().Err(); err != nil {
				return nil, err
			}
			if r.URL.Host == "data.iana.org" {
				i := regIndex(r.URL.Path)
				if i < 0 {
					return httpResp(404, nil), nil
				}
				if !serving {
					downloads++
					switch cur.BootErr {
					case "conn":
						return nil, errors.New("connection refused")
					case "status":
						return httpResp(503, nil), nil
					case "bad":
						return httpResp(200, []byte(`{"services": 5}`)), nil
					}
				}
				return httpResp(200, multiRegDoc(i, []string{srv(i, 0), srv(i, 1), srv(i, 2)})), nil
			}
			_, dl := r.Context().Deadline()
			log = append(log, sent{r.URL.String(), r.Method, r.Header.Clone(), dl})
			path := r.URL.Path
			at := strings.Index(path, "p")
			if at < 0 || len(path) < at+2 {
				return httpResp(500, nil), nil
			}
			i, err := strconv.Atoi(path[at+1 : at+2])
			if err != nil || i > 2 {
				return httpResp(500, nil), nil
			}
			o := cur.Outcomes[i]
			if o.Redir != 0 && r.URL.Host != "moved.example" {
				resp := httpResp(o.Redir, nil)
				resp.Header.Set("Location", "https://moved.example"+r.URL.RequestURI())
				return resp, nil
			}
			body := []byte(o.Body)
			switch o.Kind {
			case "conn":
				return nil, errors.New("connection refused")
			case "ok", "cut":
				body = answerDoc(o.Class, fmt.Sprintf("%s-%d", mark, i))
			}
			resp := httpResp(o.Status, body)
			addHeaders(resp, o.Hdr)
			if o.Kind == "cut" {
				resp.Body = readerCloser{&truncReader{b: body[:len(body)/2]}}
			}
			return resp, nil
		}
		return &http.Client{Transport: tr}, &log, &downloads
	}
	loaded := func(b *bootstrap.Client) (out []bootstrap.RegistryType) {
		if b.DNS() != nil {
			out = append(out, bootstrap.DNS)
		}
		if b.IPv4() != nil {
			out = append(out, bootstrap.IPv4)
		}
		if b.IPv6() != nil {
			out = append(out, bootstrap.IPv6)
		}
		if b.ASN() != nil {
			out = append(out, bootstrap.ASN)
		}
		if b.ServiceProvider() != nil {
			out = append(out, bootstrap.ServiceProvider)
		}
		return
	}
	mkReq := func(r indReq) (*rdap.Request, *url.URL) {
		q := &rdap.Request{Timeout: time.Duration(r.Timeout) * time.Millisecond}
		if r.Boot >= 0 {
			bk := bootKinds[r.Boot]
			qs := bk.queries
			if r.Miss {
				qs = bk.miss
			}
			q.Type, q.Query = bk.typ, qs[r.Query%len(qs)]
		} else {
			q.Type, q.Query = reqKinds[r.Type].typ, "q"
			q.Server, _ = url.Parse(srv(9, r.Server))
		}
		if r.Param != "" {
			q.Params = url.Values{"param": {r.Param}}
		}
		return q, q.Server
	}
	type result struct {
		obj       any
		err       string
		errType   rdap.ClientErrorType
		attempts  []string
		answer    string
		sent      []sent
		downloads int
	}
	run := func(cl *rdap.Client, q *rdap.Request, r indReq, log *[]sent, downloads *int) (res result, resp *rdap.Response) {
		*log, *downloads = nil, 0
		var err error
		cl.UserAgent = cur.Agent
		cl.Verbose = nil
		if cur.Verbose {
			cl.Verbose = func(string) {}
		}
		if cur.Nil {
			resp, err = cl.Do(nil)
		} else if cur.Helper && r.Boot >= 0 && r.Boot < 4 {
			var o any
			switch r.Boot {
			case 0:
				o, err = cl.QueryDomain(q.Query)
			case 3:
				o, err = cl.QueryAutnum(q.Query)
			default:
				o, err = cl.QueryIP(q.Query)
			}
			res.obj = o
		} else if cur.Cancel {
			ctx, cancel := context.WithCancel(context.Background())
			cancel()
			resp, err = cl.Do(q.WithContext(ctx))
		} else {
			resp, err = cl.Do(q)
		}
		if err != nil {
			res.err, res.errType = err.Error(), clientErrType(err)
		}
		if resp != nil {
			res.obj = resp.Object
			for _, a := range resp.HTTP {
				st := 0
				if a.Response != nil {
					st = a.Response.StatusCode
				}
				res.attempts = append(res.attempts, fmt.Sprintf("%s %d %q %v", a.URL, st, a.Body, a.Error))
			}
			if b := resp.BootstrapAnswer; b != nil {
				res.answer = fmt.Sprintf("%q %q %q", b.Query, b.Entry, urlStrings(b.URLs))
			}
		}
		res.sent, res.downloads = *log, *downloads
		return
	}
	hc, log, downloads := newWorld()
	shared := &rdap.Client{HTTP: hc, Bootstrap: &bootstrap.Client{HTTP: hc}}
	// The bootstrap client's own messages go where its owner wants them.
	var heard []string
	shared.Bootstrap.Verbose = func(text string) { heard = append(heard, text) }
	type reqState struct {
		q      *rdap.Request
		server *url.URL
		ctx    context.Context
	}
	var reqs []reqState
	for _, r := range k.Reqs {
		q, s := mkReq(r)
		reqs = append(reqs, reqState{q, s, q.Context()})
	}
	type kept struct {
		step int
		resp *rdap.Response
		res  result
		body string
	}
	var old []kept
	okSeen, failSeen := false, false
	for i, s := range k.Steps {
		cur, mark = s, fmt.Sprintf("m%d", i)
		// The reference: a client that never did anything but download.
		fhc, flog, fdown := newWorld()
		fresh := &rdap.Client{HTTP: fhc, Bootstrap: &bootstrap.Client{HTTP: fhc}}
		serving = true
		for _, rt := range loaded(shared.Bootstrap) {
			if err := fresh.Bootstrap.Download(rt); err != nil {
				return errf("download of %s: %s", rt, err)
			}
		}
		serving = false
		r := k.Reqs[s.Req]
		fq, _ := mkReq(r)
		want, _ := run(fresh, fq, r, flog, fdown)
		got, resp := run(shared, reqs[s.Req].q, r, log, downloads)
		if !reflect.DeepEqual(got, want) {
			return errf("step %d: the client's %s; a fresh client's %s", i, head(fmt.Sprintf("%+v", got), 900), head(fmt.Sprintf("%+v", want), 900))
		}
		heard = nil
		if f := shared.Bootstrap.Verbose; f != nil {
			f("ping")
		}
		if !strEq(heard, []string{"ping"}) {
			return errf("step %d replaced the bootstrap client's verbose callback: %q reached it", i, heard)
		}
		if got.err == "" {
			okSeen = true
		} else {
			failSeen = true
		}
		if resp != nil {
			kp := kept{i, resp, got, ""}
			if n := len(resp.HTTP); n > 0 && got.err == "" {
				kp.body = string(resp.HTTP[n-1].Body)
			}
			old = append(old, kp)
		}
		for j, rs := range reqs {
			ref, _ := mkReq(k.Reqs[j])
			q := rs.q
			if q.Type != ref.Type || q.Query != ref.Query || q.Timeout != ref.Timeout || !reflect.DeepEqual(q.Params, ref.Params) || q.Server != rs.server ||
				fmt.Sprint(q.Server) != fmt.Sprint(ref.Server) || q.Context() != rs.ctx || q.FetchRoles != nil {
				return errf("step %d changed request %d: %+v", i, j, q)
			}
		}
	}
	for _, kp := range old {
		var attempts []string
		for _, a := range kp.resp.HTTP {
			st := 0
			if a.Response != nil {
				st = a.Response.StatusCode
			}
			attempts = append(attempts, fmt.Sprintf("%s %d %q %v", a.URL, st, a.Body, a.Error))
		}
		answer := ""
		if b := kp.resp.BootstrapAnswer; b != nil {
			answer = fmt.Sprintf("%q %q %q", b.Query, b.Entry, urlStrings(b.URLs))
		}
		if !reflect.DeepEqual(attempts, kp.res.attempts) || answer != kp.res.answer {
			return errf("the response of step %d changed later: %q %s, was %q %s", kp.step, attempts, answer, kp.res.attempts, kp.res.answer)
		}
		if kp.body != "" {
			o, err := rdap.NewDecoder([]byte(kp.body)).Decode()
			if err != nil || !reflect.DeepEqual(any(o), any(kp.resp.Object)) {
				return errf("the object of step %d changed later", kp.step)
			}
		}
	}
	c.LabelIf(okSeen && failSeen, "success and failure")
	c.Label("%d steps", len(k.Steps))
	c.NonTrivial(okSeen || len(old) > 1)
	return nil
}

type readerCloser struct{ *truncReader }

func (readerCloser) Close() error { return nil }

func init() {
	register(&Prop{ID: "C36", Level: "exploration",
		Rule: "histories of 2..6 queries on one client over 1..3 request objects used again and again (five bootstrapped kinds, matched or not, every type with an explicit server, parameters, timeouts), through Do, the typed helpers, with a cancelled context or a nil request, changing user agent and verbose callback, with registry failures and a generated outcome per server. Oracle: every query gives the object, error, attempts, bootstrap answer, downloads and exact HTTP requests of a fresh client that merely holds the same registries; the caller's requests are unchanged, the bootstrap client's verbose callback is in place, and so are all earlier responses at the end. Non-trivial: a query succeeded, or two gave a response.",
		Subs: []*Sub{sub("histories", 60000, 1000000, genInd, checkInd)}})
}
