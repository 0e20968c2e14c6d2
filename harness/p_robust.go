package main

import (
	"bytes"
	"embed"
	"fmt"
	"hash/fnv"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
	"github.com/openrdap/rdap/bootstrap/cache"
	"pgregory.net/rapid"
)

//go:embed corpus
var corpusFS embed.FS

var corpus = func() []string {
	var out []string
	es, _ := corpusFS.ReadDir("corpus")
	for _, e := range es {
		b, _ := corpusFS.ReadFile("corpus/" + e.Name())
		out = append(out, string(b))
	}
	return out
}()

// ---------------------------------------------------------------- C22

type fuzzCase struct{ Doc Q }

// tokens splits JSON-like text into tokens; joining them gives the text back.
func tokens(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		j := i + 1
		switch c := s[i]; {
		case c == '"':
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			j = min(j+1, len(s))
		case strings.IndexByte("{}[],:", c) >= 0:
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			for j < len(s) && strings.IndexByte(" \n\t\r", s[j]) >= 0 {
				j++
			}
		default:
			for j < len(s) && strings.IndexByte("{}[],: \n\t\r\"", s[j]) < 0 {
				j++
			}
		}
		out = append(out, s[i:j])
		i = j
	}
	return out
}

var interesting = []string{"null", "true", "false", "0", "-1", "1e999", "-1e400", "1e19", "18446744073709551616", "9223372036854775808", "0.1", "-0", "1e-400", "00", "NaN", "nul", "[]", "{}", "[[]]", "[null]", "[{}]", `[[[[[["x"]]]]]]`,
	`""`, `"\u0000"`, `"\ud800"`, `"\ud800\udc00"`, `"\uDEAD\uBEEF"`, `"\x"`, "\"\xff\xfe\"", "\"\xc0\x80\"", `"a`, `"vcard"`, `"vCard"`, `"objectClassName"`, `"entity"`, `"domain"`, `"ip network"`, `"autnum"`, `"nameserver"`, `"vcardArray"`, `"entities"`, `"roles"`, `"status"`, `"events"`, `"secureDNS"`, `"errorCode"`,
	`["vcard",[["adr",{},"text",[[],[[]],null,{}]]]]`, `["vcard",[["tel",{"type":[]},"uri",[]]]]`, `["vcard",[["tel",{"type":null},"uri","x"]]]`, `["vcard",[["fn",{},"text",[]]]]`, `["vcard",[["adr",{},"text",[]]]]`, `["vcard",[["adr",{},"text",null]]]`, `["vcard",[[]]]`, `["vcard",[null]]`, `["vcard",null]`, `["vcard",[["fn",{},"text",[[[["x"]]]]]]]`,
	"{", "}", "[", "]", ",", ":", "\"", "\\", " ", "\n", "\x00", "\xff", "\ufeff", "/*", "//", `{"a":{"a":{"a":{}}}}`, `{"":""}`, `{"objectClassName":"entity","vcardArray":["vcard",[["fn",{},"text","X"]]]}`}

func deepDoc(t *rapid.T) string {
	n := pick(t, "deep", 50, 500, 3000, 9990, 20000)
	switch uni(t, "deepkind", 5) {
	case 0:
		return strings.Repeat("[", n) + strings.Repeat("]", n)
	case 1:
		n = min(n, 2500)
		return `{"objectClassName":"domain",` + strings.Repeat(`"x":{`, n) + strings.Repeat("}", n) + "}"
	case 2:
		n = min(n, 1500)
		return `{"objectClassName":"entity"` + strings.Repeat(`,"entities":[{"handle":"h"`, n) + strings.Repeat("}]", n) + "}"
	case 3:
		return `{"objectClassName":"entity","vcardArray":["vcard",[["fn",{},"text",` + strings.Repeat("[", n) + strings.Repeat("]", n) + `]]]}`
	}
	return `{"objectClassName":"domain","x":` + strings.Repeat("[", n) + `"v"` + strings.Repeat("]", n) + "}"
}

func genFuzz(t *rapid.T) fuzzCase {
	var s string
	switch uni(t, "seed", 12) {
	case 0:
		s = pick(t, "corpus", corpus...)
	case 1:
		if chance(t, "deepdoc", 10) {
			return fuzzCase{Q(deepDoc(t))}
		}
		n := intn(t, "nb", 0, 40)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(uni(t, "b", 256))
		}
		return fuzzCase{Q(b)}
	case 2:
		n := intn(t, "nt", 1, 30)
		for i := 0; i < n; i++ {
			s += pick(t, "tok", interesting...)
			if chance(t, "sep", 50) {
				s += pick(t, "sepc", ",", ":")
			}
		}
		if chance(t, "obj", 50) {
			s = "{" + s + "}"
		}
		return fuzzCase{Q(s)}
	default:
		g := newDocGen(t)
		g.corrupt = pick(t, "corr", 0, 10, 30)
		g.unknown = pick(t, "unk", 0, 30)
		g.evil = chance(t, "evil", 20)
		s = encode(g.top(pick(t, "class", allClasses...)), uni(t, "style", 3))
	}
	for k := intn(t, "muts", 0, 4); k > 0; k-- {
		tk := tokens(s)
		if len(tk) == 0 {
			break
		}
		at := uni(t, "at", len(tk))
		end := min(len(tk), at+intn(t, "len", 1, 8))
		switch uni(t, "mut", 9) {
		case 0, 1:
			tk[at] = pick(t, "tok", interesting...)
		case 2:
			tk = append(append([]string{}, tk[:at]...), tk[end:]...)
		case 3:
			tk = append(append(append([]string{}, tk[:end]...), tk[at:end]...), tk[end:]...)
		case 4:
			b := uni(t, "swap", len(tk))
			tk[at], tk[b] = tk[b], tk[at]
		case 5:
			x := []byte(tk[at])
			x[uni(t, "pos", len(x))] ^= 1 << uni(t, "bitno", 8)
			tk[at] = string(x)
		case 6:
			tk = tk[:at]
		case 7:
			tk[at] = pick(t, "tok", interesting...) + tk[at]
		case 8:
			// A whole value elsewhere in the document.
			b := uni(t, "from", len(tk))
			tk[at] = strings.Join(tk[b:min(len(tk), b+intn(t, "vlen", 1, 12))], "")
		}
		s = strings.Join(tk, "")
	}
	return fuzzCase{Q(s)}
}

func walkCards(rv reflect.Value, f func(*rdap.VCard)) {
	switch rv.Kind() {
	case reflect.Pointer, reflect.Interface:
		if rv.IsNil() {
			return
		}
		if vc, ok := rv.Interface().(*rdap.VCard); ok {
			f(vc)
			return
		}
		if _, ok := rv.Interface().(*rdap.DecodeData); ok {
			return
		}
		walkCards(rv.Elem(), f)
	case reflect.Struct:
		for i := range rv.NumField() {
			if rv.Type().Field(i).IsExported() {
				walkCards(rv.Field(i), f)
			}
		}
	case reflect.Slice:
		for i := range rv.Len() {
			walkCards(rv.Index(i), f)
		}
	}
}

// outputs runs everything that can be done with an object.
func outputs(o rdap.RDAPObject) string {
	h := fnv.New128a()
	for _, p := range []rdap.Printer{{}, {BriefOutput: true, BriefLinks: true, IndentSize: 1}, {OmitNotices: true, OmitRemarks: true, IndentChar: '\t', IndentSize: 1}} {
		p.Writer = h
		p.Print(o)
	}
	w := (&rdap.Response{Object: o}).ToWhoisStyleResponse()
	fmt.Fprintf(h, "%q", w.KeyDisplayOrder)
	for _, k := range w.KeyDisplayOrder {
		fmt.Fprintf(h, "%q", w.Data[k])
	}
	walkCards(reflect.ValueOf(o), func(v *rdap.VCard) {
		m := contactOf(v)
		for _, k := range []string{"Name", "Email", "Org", "POBox", "ExtendedAddress", "StreetAddress", "Locality", "Region", "PostalCode", "Country", "Tel", "Fax"} {
			fmt.Fprintf(h, "%q", m[k])
		}
		fmt.Fprintf(h, "%q", v.String())
		for _, p := range v.Properties {
			fmt.Fprintf(h, "%q", p.Values())
		}
	})
	return string(h.Sum(nil))
}

func checkFuzz(c *Ctx, k fuzzCase) error {
	var first struct {
		o   rdap.RDAPObject
		err error
		out string
	}
	for i := 0; i < 2; i++ {
		in := []byte(k.Doc)
		o, err := rdap.NewDecoder(in).Decode()
		if string(in) != string(k.Doc) {
			return errf("decoding changed the input")
		}
		isNil := o == nil || reflect.ValueOf(o).Kind() == reflect.Pointer && reflect.ValueOf(o).IsNil()
		if isNil != (err != nil) {
			return errf("object %T (nil %v) with error %v", o, isNil, err)
		}
		out := ""
		if err == nil {
			out = outputs(o)
		}
		if string(in) != string(k.Doc) {
			return errf("printing changed the input")
		}
		if i == 0 {
			first.o, first.err, first.out = o, err, out
			continue
		}
		if (err == nil) != (first.err == nil) {
			return errf("the same bytes give error %v, then %v", first.err, err)
		}
		if err == nil && (!reflect.DeepEqual(o, first.o) || out != first.out) {
			return errf("the same bytes give another object or output the second time")
		}
	}
	c.LabelIf(first.err == nil, "decoded")
	c.LabelIf(first.err != nil, "rejected")
	c.LabelIf(len(k.Doc) > 2000, "large")
	c.NonTrivial(first.err == nil || len(k.Doc) > 30)
	for _, opt := range []rdap.VCardOptions{{}, {IgnoreInvalidProperties: true}} {
		in := []byte(k.Doc)
		v, err := rdap.NewVCardWithOptions(in, opt)
		if (v == nil) != (err != nil) || string(in) != string(k.Doc) {
			return errf("NewVCard: %v, %v", v, err)
		}
		if v != nil {
			contactOf(v)
			_ = v.String()
		}
	}
	return nil
}

func genCardFuzz(t *rapid.T) fuzzCase {
	k := genVCardCase(true)(t)
	s := string(k.Doc)
	for i := intn(t, "muts", 0, 3); i > 0; i-- {
		tk := tokens(s)
		if len(tk) == 0 {
			break
		}
		tk[uni(t, "at", len(tk))] = pick(t, "tok", interesting...)
		s = strings.Join(tk, "")
	}
	if chance(t, "embed", 50) {
		s = `{"objectClassName":"domain","entities":[{"roles":["registrar","registrant","technical"],"vcardArray":` + s + `}]}`
	}
	return fuzzCase{Q(s)}
}

// What a server can do to a client besides sending documents.

type wireCase struct {
	CLI     bool
	Boot    bool
	Format  string
	Replies []Q // what is sent for the requests, one after another; the last one stays
}

func genWire(t *rapid.T) wireCase {
	k := wireCase{CLI: chance(t, "cli", 60), Boot: chance(t, "boot", 30), Format: pick(t, "fmt", "", "-r", "-j", "-w", "-v")}
	for i := intn(t, "n", 1, 4); i > 0; i-- {
		k.Replies = append(k.Replies, genWireReply(t))
	}
	return k
}

func genWireReply(t *rapid.T) Q {
	body := string(answerDoc(pick(t, "cls", answerClasses...), "m"))
	head := func(status string, more ...string) string {
		return "HTTP/1.1 " + status + "\r\n" + strings.Join(append(more, "Connection: close", "", ""), "\r\n")
	}
	length := fmt.Sprintf("Content-Length: %d", len(body))
	ctype := "Content-Type: application/rdap+json"
	var raw string
	switch uni(t, "kind", 12) {
	case 0, 1, 2:
		raw = head(pick(t, "rst", "301 X", "302 X", "303 X", "307 X", "308 X"), "Location: "+pick(t, "loc", "", "/", "http://rdap.example/domain/example.com", "http://other.example/x", "//other.example/y",
			"again", "?again=1", "#f", "ftp://x.example/", "mailto:x", "http://", "http://:80:80/", "%", "http://[::1/", "https://[", "javascript:x", "http://a b/", "\x7f", "file:///etc/hostname", "http://u:p@rdap.example/", strings.Repeat("a/", 3000)), "Content-Length: 0")
	case 3:
		raw = head(pick(t, "st", "200 OK", "200", "99 X", "1000 X", "abc X", "-1 X", "000 X", "600 X", "204 No", "205 X", "304 X", "100 Continue", "101 Switching", "103 Early"), ctype, length) + body
	case 4:
		raw = strings.Repeat("HTTP/1.1 "+pick(t, "info", "100 Continue", "102 X", "103 Early Hints")+"\r\n\r\n", intn(t, "times", 1, 12)) + head("200 OK", ctype, length) + body
	case 5:
		raw = head("200 OK", ctype, "Content-Length: "+pick(t, "cl", "0", "-1", "99999999999999999999", "x", "1", "+5", "0x10", "5, 5", "9223372036854775807")) + body
	case 6:
		raw = head("200 OK", ctype, "Transfer-Encoding: "+pick(t, "te", "chunked", "gzip", "identity", "chunked, chunked", "x")) + pick(t, "chunks", "0\r\n\r\n", "5\r\nabc", "zz\r\n", "ffffffffffffffffff\r\n", "-1\r\n", fmt.Sprintf("%x\r\n%s\r\n0\r\n\r\n", len(body), body), fmt.Sprintf("%x;x=y\r\n%s\r\n0\r\nTrailer: x\r\n\r\n", len(body), body))
	case 7:
		raw = head("200 OK", ctype, "Content-Encoding: "+pick(t, "ce", "gzip", "deflate", "br", "gzip, gzip", "identity"), length) + body
	case 8:
		raw = head("200 OK", ctype, length, pick(t, "odd", "X", ": y", "X : y", "X: \x00", "X: "+strings.Repeat("x", 100000), strings.Repeat("A: b\r\n", 2000)+"C: d", "Set-Cookie: a=b", "Content-Type", "Content-Type: \xff", "Refresh: 0", "Location: /x")) + body
	case 9:
		raw = pick(t, "junk", "", "\n", "\x00", "HTTP", "HTTP/1.1", "HTTP/1.1 200 OK", "HTTP/1.1 200 OK\r\n", "HTTP/2 200\r\n\r\n", "HTTP/0.9 200 OK\r\n\r\n", "ICY 200 OK\r\n\r\n", "SSH-2.0-x\r\n", "\x16\x03\x01\x00\x05", body, "<html>", strings.Repeat("\r\n", 5000), strings.Repeat("H", 200000))
	case 10:
		raw = head("200 OK", ctype, length) + body
		at := intn(t, "cut", 0, len(raw))
		raw = raw[:at]
	default:
		raw = head("200 OK", ctype) + string(genFuzz(t).Doc)
	}
	return Q(raw)
}

func checkWire(c *Ctx, k wireCase) error {
	const limit = 40
	n := 0
	var mu sync.Mutex
	setWorld(c, func(h hit) reply {
		if h.URL == "http://registry.example/dns.json" {
			return reply{Body: string(RegFile{Desc: "d", Ver: "1.0", Pub: "p", Services: []Service{{Entries: []string{"com"}, URLs: []string{"http://rdap.example/", "http://rdap2.example/"}}}}.JSON())}
		}
		mu.Lock()
		defer mu.Unlock()
		n++
		if n > 2*limit {
			return reply{Status: 500} // or it would never end
		}
		return reply{Fault: "raw", Body: string(k.Replies[min(n, len(k.Replies))-1])}
	})
	startWorld()
	ok := false
	if k.CLI {
		args := []string{"--cache-dir=", "example.com"}
		if k.Boot {
			args = append(args, "--bs-url=http://registry.example/")
		} else {
			args = append(args, "-s", "http://rdap.example/")
		}
		if k.Format != "" {
			args = append(args, k.Format)
		}
		r := runCLI(c, args...)
		if isPanic(r) || r.exit != 0 && r.exit != 1 {
			return errf("%q: %s", args, r)
		}
		if r.exit == 1 && r.stdout != "" {
			return errf("%q failed, yet printed: %s", args, r)
		}
		ok = r.exit == 0
	} else {
		cl := &rdap.Client{}
		req := rdap.NewDomainRequest("example.com")
		if k.Boot {
			u, _ := url.Parse("http://registry.example/")
			cl.Bootstrap = &bootstrap.Client{BaseURL: u}
		} else {
			u, _ := url.Parse("http://rdap.example/")
			req = req.WithServer(u)
		}
		resp, err := cl.Do(req)
		isNil := resp == nil || resp.Object == nil
		if isNil != (err != nil) {
			return errf("object given: %v, error %v", !isNil, err)
		}
		ok = err == nil
	}
	takeHits()
	if n > limit {
		return errf("the query took %d requests", n)
	}
	c.LabelIf(ok, "answered")
	c.LabelIf(n > 2, "redirected")
	c.LabelIf(n > 8, "redirected without end")
	c.NonTrivial(true)
	return nil
}

// ---------------------------------------------------------------- C35

type histOp struct {
	Op, Doc, Opt int
}

type histCase struct {
	Docs []string
	Ops  []histOp
}

var printerOpts = []rdap.Printer{{}, {BriefOutput: true}, {BriefLinks: true}, {OmitNotices: true}, {OmitRemarks: true}, {IndentSize: 5}, {IndentChar: '#'}}

func genHist(t *rapid.T) histCase {
	var k histCase
	for i := intn(t, "nd", 1, 3); i > 0; i-- {
		g := newDocGen(t)
		g.corrupt = pick(t, "corr", 0, 0, 10)
		g.unknown = pick(t, "unk", 0, 30)
		g.evil = chance(t, "evil", 20)
		k.Docs = append(k.Docs, encode(g.top(pick(t, "class", "domain", "domain", "entity", "domain", "autnum", "ip network", "nameserver", "error", "help", "domains", "entities", "nameservers")), uni(t, "style", 3)))
	}
	for i := intn(t, "no", 2, 14); i > 0; i-- {
		k.Ops = append(k.Ops, histOp{uni(t, "op", 9), uni(t, "doc", len(k.Docs)), uni(t, "opt", len(printerOpts))})
	}
	return k
}

func checkHist(c *Ctx, k histCase) error {
	type docState struct {
		buf []byte
		dec *rdap.Decoder
		obj rdap.RDAPObject
		ref rdap.RDAPObject
		rsp *rdap.Response // used for every conversion of obj
	}
	var ds []*docState
	for _, d := range k.Docs {
		s := &docState{buf: []byte(d)}
		s.dec = rdap.NewDecoder(s.buf)
		var err, err2 error
		s.obj, err = s.dec.Decode()
		s.ref, err2 = rdap.NewDecoder([]byte(d)).Decode()
		if err != nil || err2 != nil {
			return errf("decode: %v, %v", err, err2)
		}
		if !reflect.DeepEqual(s.obj, s.ref) {
			return errf("two decodes of one document differ")
		}
		s.rsp = &rdap.Response{Object: s.obj}
		ds = append(ds, s)
	}
	// What each operation gives on untouched, freshly decoded objects.
	texts := map[[2]int]string{}
	fresh := func(d int) rdap.RDAPObject {
		o, err := rdap.NewDecoder([]byte(k.Docs[d])).Decode()
		if err != nil {
			return nil
		}
		return o
	}
	text := func(d, opt int) string {
		key := [2]int{d, opt}
		if _, ok := texts[key]; !ok {
			p := printerOpts[opt]
			texts[key] = printWith(p, fresh(d))
		}
		return texts[key]
	}
	shared := make([]*rdap.Printer, len(printerOpts))
	repeats := map[histOp]int{}
	for i, op := range k.Ops {
		s := ds[op.Doc]
		repeats[op]++
		c.NonTrivial(len(k.Ops) > 3)
		switch op.Op {
		case 0, 1: // print with a new printer
			p := printerOpts[op.Opt]
			if got := printWith(p, s.obj); got != text(op.Doc, op.Opt) {
				return errf("operation %d: printing document %d gives another output than a fresh object: %s", i, op.Doc, firstDiff(got, text(op.Doc, op.Opt)))
			}
		case 2: // print with a printer used before
			if shared[op.Opt] == nil {
				p := printerOpts[op.Opt]
				shared[op.Opt] = &p
			}
			var b bytes.Buffer
			shared[op.Opt].Writer = &b
			shared[op.Opt].Print(s.obj)
			if b.String() != text(op.Doc, op.Opt) {
				return errf("operation %d: a printer used before gives another output for document %d: %s", i, op.Doc, firstDiff(b.String(), text(op.Doc, op.Opt)))
			}
		case 3, 4: // convert, then use the result freely
			want := (&rdap.Response{Object: fresh(op.Doc)}).ToWhoisStyleResponse()
			got := s.rsp.ToWhoisStyleResponse()
			if !reflect.DeepEqual(got, want) {
				return errf("operation %d: WHOIS conversion of document %d gives %v, a fresh object gives %v", i, op.Doc, got, want)
			}
			if op.Op == 4 {
				for k := range got.Data {
					for j := range got.Data[k] {
						got.Data[k][j] = "SCRIBBLE"
					}
				}
				for j := range got.KeyDisplayOrder {
					got.KeyDisplayOrder[j] = "SCRIBBLE"
				}
				got.Data["SCRIBBLE"] = []string{"SCRIBBLE"}
				got.KeyDisplayOrder = append(got.KeyDisplayOrder, "SCRIBBLE")
			}
		case 5: // decode again, same decoder and new decoder
			o, err := s.dec.Decode()
			if err != nil || !reflect.DeepEqual(o, s.ref) {
				return errf("operation %d: decoding document %d again differs (%v)", i, op.Doc, err)
			}
			// What a caller does with that result is his own business.
			scribble(reflect.ValueOf(o))
			o, err = rdap.NewDecoder(s.buf).Decode()
			if err != nil || !reflect.DeepEqual(o, s.ref) {
				return errf("operation %d: a new decoder for document %d differs (%v)", i, op.Doc, err)
			}
		case 6: // vCard accessors
			walkCards(reflect.ValueOf(s.obj), func(v *rdap.VCard) {
				contactOf(v)
				_ = v.String()
				for _, p := range v.Properties {
					vs := p.Values()
					for j := range vs {
						vs[j] = "SCRIBBLE"
					}
					ps := v.Get(p.Name)
					for j := range ps {
						ps[j] = nil
					}
				}
			})
		case 7: // decode data of the top object
			if dd, _ := reflect.ValueOf(s.obj).Elem().FieldByName("DecodeData").Interface().(*rdap.DecodeData); dd != nil {
				for _, l := range [][]string{dd.Fields(), dd.UnknownFields()} {
					for j := range l {
						_ = dd.Value(l[j])
						l[j] = "SCRIBBLE"
					}
				}
				_ = dd.String()
			}
		case 8: // the object is independent of another decode of the same bytes
			o := fresh(op.Doc)
			if op.Opt%2 == 0 {
				stripData(reflect.ValueOf(o))
			} else {
				scribble(reflect.ValueOf(o))
			}
		}
		if string(s.buf) != k.Docs[op.Doc] {
			return errf("operation %d changed the document", i)
		}
	}
	again := 0
	for _, n := range repeats {
		if n > 1 {
			again++
		}
	}
	c.LabelIf(again > 0, "an operation repeated")
	for i, s := range ds {
		if !reflect.DeepEqual(s.obj, s.ref) {
			return errf("the object of document %d changed during %v", i, k.Ops)
		}
		// The object does not depend on the caller's buffer.
		for j := range s.buf {
			s.buf[j] = 'x'
		}
		if !reflect.DeepEqual(s.obj, s.ref) || outputs(s.obj) != outputs(s.ref) {
			return errf("the object of document %d depends on the input buffer", i)
		}
	}
	return nil
}

// scribble overwrites everything reachable from a decoded object.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		if dd, ok := v.Interface().(*rdap.DecodeData); ok {
			for _, f := range dd.Fields() {
				scribbleAny(dd.Value(f))
			}
			return
		}
		scribble(v.Elem())
	case reflect.Interface:
		if !v.IsNil() {
			scribbleAny(v.Interface())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			scribble(v.MapIndex(k))
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				scribble(v.Field(i))
			}
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("SCRIBBLE")
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(77)
		}
	case reflect.Float64:
		if v.CanSet() {
			v.SetFloat(77)
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	}
}

func scribbleAny(x any) {
	switch x := x.(type) {
	case map[string]any:
		for k, v := range x {
			scribbleAny(v)
			x[k] = "SCRIBBLE"
		}
	case []any:
		for i, v := range x {
			scribbleAny(v)
			x[i] = "SCRIBBLE"
		}
	}
}

func firstDiff(a, b string) string {
	al, bl := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range min(len(al), len(bl)) {
		if al[i] != bl[i] {
			return fmt.Sprintf("line %d is %q instead of %q", i+1, al[i], bl[i])
		}
	}
	return fmt.Sprintf("%d instead of %d lines", len(al), len(bl))
}

// ---------------------------------------------------------------- C23

type concCase struct {
	Docs     []string
	Regs     []RegFile
	Queries  [][]string // per registry
	Server   string
	Queries2 []Q
	Threads  [][]histOp
}

func genConc(t *rapid.T) concCase {
	var k concCase
	for i := intn(t, "nd", 1, 2); i > 0; i-- {
		g := newDocGen(t)
		g.budget = pick(t, "cb", 15, 40)
		g.unknown = pick(t, "unk", 0, 30)
		g.corrupt = pick(t, "corr", 0, 10)
		g.evil = chance(t, "evil", 20)
		k.Docs = append(k.Docs, encode(g.top(pick(t, "class", "domain", "domain", "entity", "autnum", "ip network", "nameserver", "domains", "error")), 0))
	}
	for i := range regTypes {
		f := RegFile{Desc: "d", Ver: "1.0", Pub: "p"}
		var qs []string
		for j := 0; j < 4; j++ {
			var e, q string
			n := i*10 + j
			switch i {
			case 0:
				e = []string{"com", "example.com", "net", "a.b.org"}[j]
				q = []string{"www.example.com", "x.com", "nope.test", "Z.A.B.ORG."}[j]
			case 1:
				e = []string{"10.0.0.0/8", "10.1.0.0/16", "192.0.2.0/24", "10.1.2.0/24"}[j]
				q = []string{"10.1.2.3", "10.1.0.0/16", "10.200.0.1", "11.0.0.0"}[j]
			case 2:
				e = []string{"2001::/16", "2001:db8::/32", "2001:db8:1::/48", "fe80::/10"}[j]
				q = []string{"2001:db8::1", "2001:db8:1::/64", "2002::", "2001:1::"}[j]
			case 3:
				e = []string{"100-200", "1-50", "64512-65534", "4200000000"}[j]
				q = []string{"AS150", "51", "as65534", "4200000000"}[j]
			case 4:
				e = []string{"ARIN", "RIPE", "VRSN", "X"}[j]
				q = []string{"A-ARIN", "B-C-RIPE", "n-x", "Y~VRSN"}[j]
			}
			f.Services = append(f.Services, Service{Entries: []string{e}, URLs: []string{fmt.Sprintf("https://s%d.example/", n)}, Contact: i == 4})
			qs = append(qs, q)
		}
		f.Services = permute(t, f.Services)
		k.Regs = append(k.Regs, f)
		k.Queries = append(k.Queries, qs)
	}
	k.Server = genServerURL(t)
	for i := 0; i < 3; i++ {
		k.Queries2 = append(k.Queries2, genQueryText(t))
	}
	n := intn(t, "threads", 2, 8)
	focus := -1
	if chance(t, "focus", 60) {
		focus = uni(t, "fop", 11)
	}
	for i := 0; i < n; i++ {
		var ops []histOp
		for j := intn(t, "ops", 1, 6); j > 0; j-- {
			op := histOp{uni(t, "op", 11), uni(t, "doc", 4), uni(t, "opt", len(printerOpts)*len(reqKinds))}
			if focus >= 0 && chance(t, "onfocus", 70) {
				op.Op = focus
			}
			ops = append(ops, op)
		}
		k.Threads = append(k.Threads, ops)
	}
	return k
}

// enumCold: each operation in eight goroutines, as the first thing a process does.
func enumCold(tier string, yield func(concCase)) {
	n := 44
	if tier == "thorough" {
		n = 440
	}
	g := rapid.Custom(genConc)
	for i := 0; i < n; i++ {
		k := g.Example(i)
		k.Threads = nil
		for th := 0; th < 8; th++ {
			k.Threads = append(k.Threads, []histOp{{i % 11, th % 2, i / 11 * 3}, {i % 11, 0, th}})
		}
		yield(k)
	}
}

func checkConc(c *Ctx, k concCase) error {
	type shared struct {
		bufs   [][]byte
		objs   []rdap.RDAPObject
		regs   []bootstrap.Registry
		server *url.URL
		reqs   []*rdap.Request
		dir    string
	}
	// Only what the operations share is made beforehand: whatever else they
	// initialise is initialised at once.
	uses := [11]bool{}
	for _, ops := range k.Threads {
		for _, op := range ops {
			uses[op.Op] = true
		}
	}
	mk := func() (*shared, error) {
		s := &shared{dir: c.Scratch()}
		for _, d := range k.Docs {
			b := []byte(d)
			s.bufs = append(s.bufs, b)
			if !uses[1] && !uses[2] {
				continue
			}
			o, err := rdap.NewDecoder(b).Decode()
			if err != nil {
				return nil, errf("decode: %s", err)
			}
			s.objs = append(s.objs, o)
		}
		for i, f := range k.Regs {
			if !uses[3] && !uses[4] {
				break
			}
			r, err := newReg(regTypes[i], f.JSON())
			if err != nil {
				return nil, errf("registry: %s", err)
			}
			s.regs = append(s.regs, r)
		}
		s.server, _ = url.Parse(k.Server)
		for i, q := range k.Queries2 {
			s.reqs = append(s.reqs, &rdap.Request{Type: reqKinds[i*3].typ, Query: string(q), Server: s.server})
		}
		return s, nil
	}
	do := func(s *shared, op histOp) (res any) {
		defer func() {
			if r := recover(); r != nil {
				res = fmt.Sprintf("panic: %v", r)
			}
		}()
		d := op.Doc % len(s.bufs)
		switch op.Op {
		case 0: // decode shared bytes
			o, err := rdap.NewDecoder(s.bufs[d]).Decode()
			if err != nil {
				return err.Error()
			}
			return o
		case 1: // print a shared object
			return printWith(printerOpts[op.Opt%len(printerOpts)], s.objs[d])
		case 2: // convert a shared object, read its vCards
			w := (&rdap.Response{Object: s.objs[d]}).ToWhoisStyleResponse()
			var cs []map[string]string
			walkCards(reflect.ValueOf(s.objs[d]), func(v *rdap.VCard) { cs = append(cs, contactOf(v)) })
			return []any{w, cs}
		case 3, 4: // look up in a shared registry
			i := op.Opt % len(regTypes)
			a, err := s.regs[i].Lookup(&bootstrap.Question{RegistryType: regTypes[i], Query: k.Queries[i][op.Doc%4]})
			if err != nil {
				return err.Error()
			}
			return []any{a.Entry, a.Query, urlStrings(a.URLs)}
		case 5: // URL of a shared request
			return fmt.Sprint(s.reqs[op.Doc%len(s.reqs)].URL())
		case 6: // URL of an own request to the shared server URL
			r := &rdap.Request{Type: reqKinds[op.Opt%len(reqKinds)].typ, Query: string(k.Queries2[op.Doc%len(k.Queries2)])}
			return fmt.Sprint(r.WithServer(s.server).URL())
		case 7: // an own client
			body := []byte(k.Docs[d])
			tr := &stubTransport{f: func(_ int, r *http.Request) (*http.Response, error) {
				if i := regIndex(r.URL.Path); i >= 0 {
					return httpResp(200, k.Regs[i].JSON()), nil
				}
				return httpResp(200, body), nil
			}}
			hc := &http.Client{Transport: tr}
			cl := &rdap.Client{HTTP: hc, Bootstrap: &bootstrap.Client{HTTP: hc}}
			i := op.Opt % 4
			q := k.Queries[i][0]
			resp, err := cl.Do(&rdap.Request{Type: []rdap.RequestType{rdap.DomainRequest, rdap.IPRequest, rdap.IPRequest, rdap.AutnumRequest}[i], Query: q})
			if err != nil {
				return err.Error()
			}
			return []any{resp.Object, len(resp.HTTP), resp.HTTP[0].URL}
		case 8: // an own bootstrap client on a shared cache directory
			tr := &stubTransport{f: func(_ int, r *http.Request) (*http.Response, error) {
				if i := regIndex(r.URL.Path); i >= 0 {
					return httpResp(200, k.Regs[i].JSON()), nil
				}
				return httpResp(404, nil), nil
			}}
			dc := cache.NewDiskCache()
			dc.Dir = s.dir
			bc := &bootstrap.Client{HTTP: &http.Client{Transport: tr}, Cache: dc}
			i := op.Opt % len(regTypes)
			a, err := bc.Lookup(&bootstrap.Question{RegistryType: regTypes[i], Query: k.Queries[i][op.Doc%4]})
			if err != nil {
				return err.Error()
			}
			return []any{a.Entry, a.Query, urlStrings(a.URLs)}
		case 9: // classification and vCards
			r := rdap.NewAutoRequest(string(k.Queries2[op.Doc%len(k.Queries2)]))
			v, err := rdap.NewVCard([]byte(corpus[len(corpus)-1-op.Doc%len(corpus)]))
			if err != nil {
				return []any{r.Type, r.Query, err.Error()}
			}
			return []any{r.Type, r.Query, v.String(), contactOf(v)}
		case 10: // the command line tool, as the demonstration server runs it
			args := []string{"--cache-dir=", "-T", "600", "-s", "http://rdap.example/" + fmt.Sprint(d), pick2(op.Opt, "--text", "-w", "-j", "-r"), "-t", "domain", "example.com"}
			if op.Opt%3 == 0 {
				args = append(args, "-P", "DigiCert_RDAP_Pilot_Client_Certificate.p12:no")
			}
			r := runCLIWith(rdap.CLIOptions{Sandbox: true}, args...)
			return []any{r.exit, r.stdout, r.stderr}
		}
		return nil
	}
	setWorld(c, func(h hit) reply {
		for i, d := range k.Docs {
			if strings.HasPrefix(h.URL, fmt.Sprintf("http://rdap.example/%d/", i)) {
				return reply{Body: d}
			}
		}
		return reply{Status: 404}
	})
	// All at once, first, so that nothing is initialised yet.
	con, err := mk()
	if err != nil {
		return err
	}
	got := make([][]any, len(k.Threads))
	var start, wg sync.WaitGroup
	start.Add(1)
	for i, ops := range k.Threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			start.Wait()
			for _, op := range ops {
				got[i] = append(got[i], do(con, op))
			}
		}()
	}
	start.Done()
	wg.Wait()
	// One after another, on another copy.
	seq, err := mk()
	if err != nil {
		return err
	}
	var want [][]any
	for _, ops := range k.Threads {
		var rs []any
		for _, op := range ops {
			rs = append(rs, do(seq, op))
		}
		want = append(want, rs)
	}
	used := map[int]int{}
	for i, ops := range k.Threads {
		seen := map[int]bool{}
		for j, op := range ops {
			if !seen[op.Op] {
				seen[op.Op] = true
				used[op.Op]++
			}
			if !reflect.DeepEqual(got[i][j], want[i][j]) {
				return errf("goroutine %d operation %d (%v): %s at once, %s one after another", i, j, op, head(fmt.Sprintf("%v", got[i][j]), 300), head(fmt.Sprintf("%v", want[i][j]), 300))
			}
		}
	}
	var ops []int
	for op, n := range used {
		if n > 1 {
			ops = append(ops, op)
		}
	}
	sort.Ints(ops)
	for _, op := range ops {
		c.Label("operation %d in several goroutines", op)
	}
	c.NonTrivial(len(ops) > 0)
	return nil
}

func init() {
	register(&Prop{ID: "C22", Level: "exploration",
		Rule: "bytes: generated and recorded responses with up to four token-level mutations (replacement by 70 awkward tokens, deletion, duplication, moves, bit flips, truncation, invalid UTF-8), token soup, random bytes, nesting up to 20000. Oracle: no panic, no hang (120 s), object xor error, everything an object offers (three printer settings, WHOIS, all vCard accessors) runs, the same bytes give the same object and output, input unchanged. wire: up to four raw HTTP replies (redirects to 21 kinds of targets, odd status lines, lengths, encodings, headers, interim responses, junk, cut replies, documents as above) to one query of the tool or of a zero-value client; it must end within 40 requests, with an object or an error, or exit 0 or 1 (and print nothing when it fails). Non-trivial: decoded, or longer than 30 bytes, or a wire case.",
		Subs: []*Sub{sub("bytes", 180000, 3000000, genFuzz, checkFuzz), sub("cards", 90000, 1000000, genCardFuzz, checkFuzz), sub("wire", 9000, 100000, genWire, checkWire)}})
	register(&Prop{ID: "C35", Level: "exploration",
		Rule: "histories of 2..14 operations over 1..3 documents: print (7 option sets; new or used printer), WHOIS conversion, decode again with the same or a new decoder, vCard accessors, decode data; results, decoded objects included, are scribbled over. Oracle: every result equals the one of a freshly decoded object; afterwards objects equal fresh ones, documents are unchanged, and overwriting the input buffer changes nothing. Non-trivial: more than three operations.",
		Subs: []*Sub{sub("histories", 50000, 800000, genHist, checkHist)}})
	register(&Prop{ID: "C23", Level: "exploration", Race: true,
		Rule:        "2..8 goroutines with 1..6 operations each on shared documents, objects, registries, requests, server URL and cache directory, and own clients, mostly several goroutines with the same operation, under the race detector. Oracle: results equal those of running the operations one after another; no race report. Non-trivial: some operation runs in several goroutines.",
		Assumptions: []string{"the race detector sees the races of the schedules that were executed"},
		Fresh:       44,
		Subs:        []*Sub{enumSub("cold", enumCold, checkConc), sub("concurrent", 4000, 100000, genConc, checkConc)}})
}
