package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"net/url"
	"os"
	"sort"
	"strconv"
	"strings"

	"github.com/openrdap/rdap"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C30

type cliOutcome struct {
	Kind   string // ok, conn, cut, status, 404, empty, bad
	Status int
	Body   Q
	Wire   string `json:",omitempty"` // how the body is sent: "", gzip, chunked, close
	Hops   []int  `json:",omitempty"` // redirect statuses before the answer
	Cross  bool   `json:",omitempty"` // the redirects lead to other hosts
	Pad    int    `json:",omitempty"` // bytes added to the body
}

type cliCase struct {
	Flags    []string // output flags
	Boot     int      // bootKinds index, -1: explicit server
	Query    int
	Miss     bool
	RegFault string
	Outcomes []cliOutcome
	Binary   bool `json:",omitempty"`
	Room     int  `json:",omitempty"` // bytes standard output takes before it fails, -1: no limit
	Full     bool `json:",omitempty"` // run with the limit
}

var outFlags = map[string]string{"--text": "text", "-w": "whois", "--whois": "whois", "-j": "json", "--json": "json", "-r": "raw", "--raw": "raw"}

func genBody(t *rapid.T, class string) Q {
	g := newDocGen(t)
	g.unknown = pick(t, "unk", 0, 20)
	g.xprefix = true
	o := g.top(class)
	if chance(t, "numbers", 40) {
		o = append(o, kv{"x_num", []any{rawNum("12345678901234567890123"), rawNum("1.10"), rawNum("1E5"), rawNum("-0"), rawNum("0.1e-7")}})
	}
	if chance(t, "esc", 30) {
		o = append(o, kv{"x_esc", "<a href=\"x\">&</a>\u2028%s %d %%"})
	}
	if chance(t, "dupkey", 15) {
		o = append(o, kv{"x_dup", "one"}, kv{"x_dup", "two"})
	}
	if chance(t, "bulk", 4) {
		o = append(o, kv{"x_bulk", strings.Repeat("0123456789abcdef", 6000)})
	}
	bad := chance(t, "badutf8", 4)
	if bad {
		o = append(o, kv{"x_bytes", "caf#1# #2# end"})
	}
	s := encode(o, uni(t, "style", 3))
	if bad {
		s = strings.NewReplacer("#1#", "\xe9", "#2#", "\xff\xfe\xc0\x80").Replace(s)
	}
	switch uni(t, "ws", 4) {
	case 0:
		s += "\n"
	case 1:
		s = " \r\n" + s + "\n\n"
	}
	return Q(s)
}

func genCLIOutcome(t *rapid.T) cliOutcome {
	o := cliOutcome{Kind: pick(t, "outcome", "ok", "ok", "ok", "ok", "conn", "cut", "status", "404", "empty", "bad")}
	class := pick(t, "class", "domain", "domain", "domain", "autnum", "ip network", "entity", "nameserver", "error", "help", "domains", "entities", "nameservers")
	switch o.Kind {
	case "ok":
		o.Status = pick(t, "st", 200, 200, 200, 203)
		o.Body = genBody(t, class)
		if intn(t, "huge", 0, 3000) == 3000 {
			o.Pad = pick(t, "pad", 1100000, 2200000, 5000000, 11000000)
		}
	case "cut":
		o.Status = 200
		o.Body = Q(answerDoc(class, "cut"))
	case "status":
		o.Status = pick(t, "st", 400, 403, 429, 500, 503)
		o.Body = Q(pick(t, "sb", "", "oops", string(answerDoc("error", "m")), string(answerDoc("domain", "wrong"))))
	case "404":
		o.Status = 404
		o.Body = Q(pick(t, "b404", "", "nope", string(answerDoc("error", "m")), string(answerDoc("domain", "wrong"))))
	case "empty":
		o.Status = pick(t, "st", 200, 202)
	case "bad":
		o.Status = 200
		o.Body = Q(pick(t, "bad", badBodies...))
	}
	if o.Kind != "conn" && o.Kind != "cut" {
		o.Wire = pick(t, "wire", "", "", "", "gzip", "chunked", "close")
		if chance(t, "redirected", 12) {
			n := intn(t, "hops", 1, 3)
			if chance(t, "manyhops", 15) {
				n = intn(t, "hopsn", 4, 9)
			}
			o.Cross = chance(t, "cross", 50)
			for ; n > 0; n-- {
				o.Hops = append(o.Hops, pick(t, "hop", 301, 302, 303, 307, 308))
			}
		}
	}
	return o
}

func genCLI(binary bool) func(t *rapid.T) cliCase {
	return func(t *rapid.T) cliCase {
		k := cliCase{Boot: uni(t, "boot", 7) - 2, Query: uni(t, "q", 5), Binary: binary}
		if k.Boot < -1 {
			k.Boot = -1
		}
		switch uni(t, "nflags", 8) {
		case 0:
		case 1:
			k.Flags = []string{pick(t, "f1", "--text", "-w"), pick(t, "f2", "-j", "--raw")}
			if chance(t, "jsonraw", 25) {
				k.Flags[0] = "--json"
				k.Flags[1] = "-r"
			}
		default:
			k.Flags = []string{pick(t, "f", "--text", "-w", "--whois", "-j", "--json", "-r", "--raw")}
		}
		n := 1
		if k.Boot >= 0 {
			n = intn(t, "n", 1, 4)
			if chance(t, "many", 15) {
				n = intn(t, "manyn", 5, 8)
			}
			k.Miss = chance(t, "miss", 8)
			k.RegFault = pick(t, "regfault", "", "", "", "", "", "", "", "", "conn", "500", "bad", "cut")
		}
		for i := 0; i < n; i++ {
			k.Outcomes = append(k.Outcomes, genCLIOutcome(t))
		}
		return k
	}
}

func (o cliOutcome) reply() reply {
	switch o.Kind {
	case "conn":
		return reply{Fault: "conn"}
	case "cut":
		return reply{Status: o.Status, Body: string(o.Body), Fault: "cut"}
	}
	return reply{Status: o.Status, Body: string(o.Body), Wire: o.Wire}
}

// reply2 is the answer to a request for |u| below |server|, hop by hop.
func (o cliOutcome) reply2(server, u string) reply {
	if len(o.Hops) == 0 {
		return o.reply()
	}
	n := 0
	if _, rest, ok := strings.Cut(u, pathOf(server)+"hop"); ok {
		fmt.Sscanf(rest, "%d", &n)
	}
	if n < len(o.Hops) {
		if o.Cross {
			server = fmt.Sprintf("http://h%d.moved.example%s", n+1, pathOf(server))
		}
		return reply{Status: o.Hops[n], Location: fmt.Sprintf("%shop%d?x=1", server, n+1), Body: string(answerDoc("domain", "redirect"))}
	}
	return o.reply()
}

// pathOf is the path of a URL.
func pathOf(s string) string {
	u, err := url.Parse(s)
	if err != nil {
		return s
	}
	return u.Path
}

func formatBody(mode string, body []byte) (string, error) {
	switch mode {
	case "raw":
		return string(body), nil
	case "json":
		var b bytes.Buffer
		err := json.Indent(&b, body, "", "  ")
		return b.String(), err
	}
	obj, err := rdap.NewDecoder(body).Decode()
	if err != nil {
		return "", err
	}
	if mode == "text" {
		return printWith(rdap.Printer{BriefLinks: true}, obj), nil
	}
	var b strings.Builder
	w := (&rdap.Response{Object: obj}).ToWhoisStyleResponse()
	for _, key := range w.KeyDisplayOrder {
		for _, v := range w.Data[key] {
			b.WriteString(key + ": " + v + "\n")
		}
	}
	return b.String(), nil
}

// judgeOutput compares text and WHOIS output with the references of C26, C28
// and C29.
func judgeOutput(mode, body, out string) error {
	m, err := genericDecode(body)
	if err != nil || m == nil {
		return nil
	}
	class := refTop(m)
	s := schemas[class]
	if s == nil {
		return nil
	}
	switch mode {
	case "text":
		got, err := parseText(out)
		if err != nil {
			return err
		}
		want := []*node{{Label: topHeading[class], Heading: true, Kids: docTree(s, m)}}
		return cmpTrees("output", filterTree(want, optCase{BLinks: true}), got)
	case "whois":
		want := ""
		if class == "domain" {
			for _, p := range refWhois(m) {
				want += p.K + ": " + p.V + "\n"
			}
		}
		a, b := strings.Split(want, "\n"), strings.Split(out, "\n")
		sort.Strings(a)
		sort.Strings(b)
		if !strEq(a, b) {
			return errf("WHOIS output %q, want the lines of %q", head(out, 300), head(want, 300))
		}
	}
	return nil
}

func checkCLI(c *Ctx, k cliCase) error {
	k.Outcomes = append([]cliOutcome{}, k.Outcomes...)
	for i, o := range k.Outcomes {
		if o.Pad > 0 {
			s := strings.TrimRight(string(o.Body), " \r\n")
			k.Outcomes[i].Body = Q(s[:len(s)-1] + `,"x_pad":"` + strings.Repeat("p", o.Pad) + `"}` + "\n")
			if strings.TrimSpace(s) == "{}" {
				k.Outcomes[i].Body = o.Body
			}
			c.Label("large answer")
		}
	}
	const bsURL = "http://registry.example/bs"
	var servers []string
	for i := range k.Outcomes {
		servers = append(servers, fmt.Sprintf("http://s%d.example/p%d/", i, i))
	}
	var args []string
	var reg []byte
	if k.Boot >= 0 {
		bk := bootKinds[k.Boot]
		q := bk.queries[k.Query%len(bk.queries)]
		if k.Miss {
			q = bk.miss[k.Query%len(bk.miss)]
		}
		args = []string{"--bs-url=" + bsURL, q}
		if strings.HasPrefix(q, "H1-") || q == "VRSN" || q == "H1" || k.Miss || q == "COM" || q == "xcom" {
			// The automatic choice of the type is another property's business.
			args = append(args, "-t", map[rdap.RequestType]string{rdap.DomainRequest: "domain", rdap.IPRequest: "", rdap.AutnumRequest: "autnum", rdap.EntityRequest: "entity"}[bk.typ])
			if args[2] == "-t" && args[3] == "" {
				args = args[:2]
			}
		}
		if bk.typ == rdap.DomainRequest && len(args) == 2 {
			args = append(args, "-t", "domain")
		}
		if bk.typ == rdap.EntityRequest && len(args) == 2 {
			args = append(args, "-t", "entity")
		}
		reg = multiRegDoc(bk.reg, servers)
	} else {
		args = []string{"-s", servers[0], "-t", "domain", "example.com"}
	}
	args = append(args, "--cache-dir=")
	handle := func(h hit) reply {
		if strings.HasPrefix(h.URL, bsURL) {
			switch k.RegFault {
			case "conn":
				return reply{Fault: "conn"}
			case "500":
				return reply{Status: 500, Body: string(reg)}
			case "bad":
				return reply{Body: `{"services": 5`}
			case "cut":
				return reply{Body: string(reg), Fault: "cut"}
			}
			return reply{Body: string(reg)}
		}
		for i := range servers {
			if strings.HasPrefix(h.URL, servers[i]) || strings.Contains(h.URL, ".moved.example"+pathOf(servers[i])) {
				return k.Outcomes[i].reply2(servers[i], h.URL)
			}
		}
		return reply{Status: 599}
	}
	setWorld(c, handle)

	// What must happen.
	win := -1
	if k.RegFault == "" && !k.Miss {
	loop:
		for i, o := range k.Outcomes {
			switch o.Kind {
			case "ok":
				win = i
				break loop
			case "404":
				break loop
			}
		}
	}
	run := runCLI
	if k.Binary {
		run = runBinary
	}
	args = append(args, k.Flags...)
	plain := run(c, args...)
	if k.Full {
		return checkFull(c, k, args, plain)
	}
	loud := run(c, append([]string{"-v"}, args...)...)
	if loud.exit != plain.exit || loud.stdout != plain.stdout {
		return errf("with -v: %s; without: %s", loud, plain)
	}
	if loud.stderr == "" {
		return errf("-v prints nothing on standard error")
	}
	c.LabelIf(k.Binary, "program")
	c.LabelIf(win > 0, "after failed servers")
	if win < 0 {
		c.Label("failure")
		c.NonTrivial(true)
		if plain.exit == 0 || isPanic(plain) {
			return errf("failed query: %s", plain)
		}
		if plain.stdout != "" {
			return errf("failed query, but standard output has %q", head(plain.stdout, 200))
		}
		if strings.TrimSpace(plain.stderr) == "" {
			return errf("failed query without a message")
		}
		return nil
	}
	if plain.exit != 0 {
		return errf("server %d gave a usable answer, but: %s", win, plain)
	}
	if plain.stderr != "" {
		return errf("successful query, but standard error has %q", head(plain.stderr, 200))
	}
	modes := []string{}
	for _, f := range k.Flags {
		modes = append(modes, outFlags[f])
	}
	if len(modes) == 0 {
		modes = []string{"text"}
	}
	body := []byte(k.Outcomes[win].Body)
	var wants []string
	for _, m := range modes {
		w, err := formatBody(m, body)
		if err != nil {
			return errf("usable body: %s", err)
		}
		wants = append(wants, w)
	}
	c.Label("mode=%s", strings.Join(modes, "+"))
	if w := k.Outcomes[win].Wire; w != "" {
		c.Label("sent as %s", w)
	}
	c.LabelIf(len(k.Outcomes[win].Hops) > 0, "redirected")
	c.LabelIf(k.Outcomes[win].Cross, "redirected to other hosts")
	c.NonTrivial(true)
	if len(wants) == 1 {
		if err := judgeOutput(modes[0], string(body), plain.stdout); err != nil {
			return err
		}
		if modes[0] == "json" {
			if strings.TrimSpace(plain.stdout) != strings.TrimSpace(wants[0]) {
				return errf("--json prints %q, want %q", head(plain.stdout, 300), head(wants[0], 300))
			}
			return nil
		}
		if plain.stdout != wants[0] {
			return errf("--%s prints %q, want %q", modes[0], head(plain.stdout, 300), head(wants[0], 300))
		}
		return nil
	}
	// Several formats: each is printed once, in any order.
	if plain.stdout != wants[0]+wants[1] && plain.stdout != wants[1]+wants[0] {
		return errf("%v print %q, want %q and %q", k.Flags, head(plain.stdout, 300), head(wants[0], 300), head(wants[1], 300))
	}
	return nil
}

// genFull: a successful query whose output meets a full disk or closed pipe.
func genFull(t *rapid.T) cliCase {
	k := genCLI(false)(t)
	k.Full, k.Miss, k.RegFault = true, false, ""
	k.Outcomes = k.Outcomes[len(k.Outcomes)-1:]
	k.Outcomes[0].Kind, k.Outcomes[0].Status = "ok", 200
	k.Outcomes[0].Body = genBody(t, pick(t, "class", "domain", "domain", "autnum", "entity", "ip network"))
	k.Room = pick(t, "room", 0, 0, 1, intn(t, "roomn", 0, 2000), intn(t, "percent", -99, -1))
	k.Binary = chance(t, "binary", 5)
	return k
}

type limitedWriter struct {
	buf  bytes.Buffer
	room int
}

func (w *limitedWriter) Write(p []byte) (int, error) {
	if len(p) <= w.room {
		w.room -= len(p)
		return w.buf.Write(p)
	}
	n, _ := w.buf.Write(p[:w.room])
	w.room = 0
	return n, errors.New("no space left on device")
}

// checkFull: output that could not be written is a failure.
func checkFull(c *Ctx, k cliCase, args []string, plain cliResult) error {
	if plain.exit != 0 {
		return errf("usable answer, but: %s", plain)
	}
	room := k.Room
	if room < 0 {
		room = len(plain.stdout) * -room / 100
	}
	if k.Binary {
		room = 0
	}
	c.NonTrivial(len(plain.stdout) > room)
	if k.Binary {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			infra("%s", err)
		}
		defer f.Close()
		r := runBinaryTo(c, f, args...)
		c.Label("program")
		// (Whether writing nothing to a full device fails is up to the system.)
		if (r.exit == 0 && plain.stdout != "") || isPanic(r) || (r.exit != 0 && r.stderr == "") {
			return errf("standard output is full, %d bytes to write: %s", len(plain.stdout), r)
		}
		return nil
	}
	w := &limitedWriter{room: room}
	var e bytes.Buffer
	exit := rdap.RunCLI(append([]string{}, args...), w, &e, rdap.CLIOptions{})
	got := w.buf.String()
	if len(plain.stdout) <= room {
		c.Label("room enough")
		if exit != 0 || got != plain.stdout || e.Len() > 0 {
			return errf("exit %d, %d bytes printed of %d, standard error %q", exit, len(got), len(plain.stdout), e.String())
		}
		return nil
	}
	c.Label("cut after %d%%", room*100/len(plain.stdout)/25*25)
	if exit == 0 || e.Len() == 0 {
		return errf("standard output failed after %d of %d bytes, but exit %d, standard error %q", room, len(plain.stdout), exit, e.String())
	}
	if !strings.HasPrefix(plain.stdout, got) {
		return errf("standard output failed after %d bytes and has %q, not the start of %q", room, head(got, 200), head(plain.stdout, 200))
	}
	return nil
}

// ---------------------------------------------------------------- C31

type argCase struct {
	Type   string
	Query  Q
	Server string
	HasSrv bool
	Bad    string // "", or what is wrong
	Args   []Q
}

var cliTypes = map[string]rdap.RequestType{
	"ip": rdap.IPRequest, "domain": rdap.DomainRequest, "dns": rdap.DomainRequest, "autnum": rdap.AutnumRequest, "as": rdap.AutnumRequest, "asn": rdap.AutnumRequest,
	"nameserver": rdap.NameserverRequest, "ns": rdap.NameserverRequest, "entity": rdap.EntityRequest, "help": rdap.HelpRequest, "url": rdap.RawRequest,
	"domain-search": rdap.DomainSearchRequest, "domain-search-by-nameserver": rdap.DomainSearchByNameserverRequest, "domain-search-by-nameserver-ip": rdap.DomainSearchByNameserverIPRequest,
	"nameserver-search": rdap.NameserverSearchRequest, "nameserver-search-by-ip": rdap.NameserverSearchByNameserverIPRequest,
	"entity-search": rdap.EntitySearchRequest, "entity-search-by-handle": rdap.EntitySearchByHandleRequest, "autnum-search": rdap.AutnumSearchRequest,
}
var cliTypeNames = []string{"ip", "domain", "dns", "autnum", "as", "asn", "nameserver", "ns", "entity", "help", "url", "domain-search", "domain-search-by-nameserver", "domain-search-by-nameserver-ip", "nameserver-search", "nameserver-search-by-ip", "entity-search", "entity-search-by-handle", "autnum-search", ""}

func spell(t *rapid.T, short, long, value string) []string {
	switch uni(t, "spell", 4) {
	case 0:
		return []string{"-" + short, value}
	case 1:
		return []string{"-" + short + value}
	case 2:
		return []string{"--" + long, value}
	}
	return []string{"--" + long + "=" + value}
}

func genArgs(t *rapid.T) argCase {
	k := argCase{Type: pick(t, "type", cliTypeNames...), HasSrv: chance(t, "srv", 75)}
	switch k.Type {
	case "ip":
		k.Query = Q(pick(t, "ip", "192.0.2.1", "2001:db8::1", "2001:DB8:0:0::1", "::", "255.255.255.255", "::ffff:192.0.2.1", "10.0.0.1"))
	case "autnum", "as", "asn":
		k.Query = Q(pick(t, "asp", "", "AS", "as", "aS")) + Q(strconv.Itoa(pick(t, "asn", 0, 1, 64500, 4294967295, 65536)))
	case "":
		k.Query = Q(pick(t, "auto", "example.com", "AS64500", "192.0.2.1", "2001:db8::/32", "192.0.2.0/24", "H1-TAG", "example", "münchen.example", "http://raw.example/a/b?c=d", "http://raw.example/", "http://raw.example/domain/x.example", "64500", "OPS4-TAG"))
	case "url":
		k.Query = Q(pick(t, "url", "http://raw.example/domain/x", "http://raw.example/", "http://raw.example", "http://raw.example/a%20b?x=1&y=%26", "http://u:p@raw.example/z", "https://raw.example/s", "http://raw.example/x "))
		k.HasSrv = false
	default:
		for {
			k.Query = genQueryText(t)
			if len(k.Query) > 0 && k.Query[0] != '@' {
				break
			}
		}
	}
	if k.HasSrv {
		k.Server = genServerURL(t)
		if chance(t, "noscheme", 20) {
			_, rest, _ := strings.Cut(k.Server, "://")
			k.Server = "//" + rest
		} else if chance(t, "barehost", 10) {
			k.Server = pick(t, "bare", "bare.example", "bare.example/", "bare.example/rdap", "bare.example/rdap/")
		}
	}
	if chance(t, "bad", 30) {
		k.Bad = pick(t, "badkind", "type", "option", "noquery", "server", "url+server", "ip", "autnum", "timeout", "bsttl", "bsurl", "exp", "shortopt", "noboot", "urlparse")
	}
	var parts [][]string
	add := func(p ...string) { parts = append(parts, p) }
	// What is wrong is made so.
	switch k.Bad {
	case "type":
		k.Type = pick(t, "badtype", "Domain", "IP", "dom", "foo", "domains", "domain ", "entity-search-by", "helpp", "autnum-search-by-handle", "help ", "ipv4")
	case "noquery":
		if k.Type == "help" {
			k.Type = "domain"
		}
		k.Query = ""
	case "server":
		k.HasSrv = true
		k.Server = pick(t, "badsrv", "a b", "a%zz", "http://[::1", ":foo", "http://a:b:c/", "http://%zz/", "ftp://srv.example/", "http://a b/", "https://", "mailto:x@y", "\x7f", "http://srv.example/\x00", "://x")
		if k.Type == "url" || strings.HasPrefix(string(k.Query), "http") {
			k.Type, k.Query = "domain", "example.com"
		}
	case "url+server":
		k.Type, k.HasSrv, k.Server = "url", true, "http://srv.example/"
		k.Query = "http://raw.example/x"
		if chance(t, "auto", 50) {
			k.Type = ""
		}
	case "urlparse":
		k.Type, k.HasSrv = "url", false
		k.Query = Q(pick(t, "badurl", "http://[::1", ":x", "http://a b/", "http://%zz", "http://x/%zz", " http://raw.example/x", "\thttp://raw.example/x", "http://raw.example/x\n"))
	case "ip":
		k.Type = "ip"
		k.Query = Q(pick(t, "badip", "example.com", "192.0.2", "192.0.2.256", "192.0.2.0/24", "2001:db8:::1", "x", "1"))
	case "autnum":
		k.Type = pick(t, "ast", "autnum", "as", "asn")
		k.Query = Q(pick(t, "badas", "AS", "x", "AS-1", "4294967296", "AS99999999999", "1.5", "AS1 ", "ASAS1", "0x10", "+5", "1-2"))
	case "timeout":
		parts = append(parts, pick(t, "bt", []string{"-T", "abc"}, []string{"-T70000"}, []string{"--timeout=-1"}, []string{"--timeout=1.5"}, []string{"--timeout="}))
	case "bsttl":
		parts = append(parts, pick(t, "bt", []string{"--bs-ttl=x"}, []string{"--bs-ttl=-1"}, []string{"--bs-ttl=4294967296"}))
	case "bsurl":
		parts = append(parts, pick(t, "bu", []string{"--bs-url=http://[::1"}, []string{"--bs-url=:x"}, []string{"--bs-url", "http://%zz/"}))
	case "exp":
		add("--exp=" + pick(t, "be", "foo", "Sandbox", "object-tag"))
	case "option":
		add(pick(t, "bo", "--foo", "--typ=domain", "--jsonn", "--Text", "--no-such=1", "--cachedir=x"))
	case "shortopt":
		add(pick(t, "bs", "-Z", "-x", "-q", "-1"))
	case "noboot":
		k.HasSrv = false
		k.Type = pick(t, "nb", "nameserver", "ns", "help", "domain-search", "domain-search-by-nameserver", "domain-search-by-nameserver-ip", "nameserver-search", "nameserver-search-by-ip", "entity-search", "entity-search-by-handle", "autnum-search")
		k.Query = "x.example"
	default:
		if !k.HasSrv {
			// Keep to queries the registries know.
			switch k.Type {
			case "nameserver", "ns", "help", "domain-search", "domain-search-by-nameserver", "domain-search-by-nameserver-ip", "nameserver-search", "nameserver-search-by-ip", "entity-search", "entity-search-by-handle", "autnum-search":
				k.Type = "domain"
			}
			switch k.Type {
			case "domain", "dns":
				k.Query = Q(word(t, "d") + pick(t, "tld", ".com", ".example", ".a b", ".x%2Fy", ".é"))
			case "entity":
				k.Query = Q(word(t, "e") + pick(t, "tag", "-TAG", "-x-TAG"))
			case "":
				if k.Query == "example" {
					k.Query = "example.org"
				}
			}
		} else if k.Type == "" && strings.HasPrefix(string(k.Query), "http://") && k.Query != "http://raw.example/" {
			k.HasSrv = false
		} else if k.Query == "http://raw.example/" {
			k.Query = "raw.example"
		}
	}
	if k.HasSrv {
		parts = append(parts, spell(t, "s", "server", k.Server))
	}
	if k.Bad == "noquery" && k.Type == "" {
		k.Type = "domain"
	}
	if k.Type != "" {
		parts = append(parts, spell(t, "t", "type", k.Type))
	}
	if k.Bad != "bsurl" {
		parts = append(parts, []string{pick(t, "bsspell", "--bs-url=http://registry.example/bs", "--bs-url=http://registry.example/bs/")})
	}
	add("--cache-dir=")
	if chance(t, "v", 20) {
		add(pick(t, "vv", "-v", "--verbose"))
	}
	if chance(t, "out", 30) {
		add(pick(t, "o", "-j", "--json", "-r", "--raw", "--text", "-w", "-rv", "-jk"))
	}
	if chance(t, "to", 20) && k.Bad != "timeout" {
		parts = append(parts, spell(t, "T", "timeout", pick(t, "tv", "60", "30", "65535")))
	}
	if chance(t, "noop", 30) {
		parts = append(parts, pick(t, "no", []string{"-f", "all"}, []string{"-fregistrar"}, []string{"--fetch", "none"}, []string{"--fetch=abuse"}, []string{"--exp=object_tag"}, []string{"--exp", "test_rdap_net"}, []string{"-e"}, []string{"--experimental"}, []string{"--bs-ttl=5"}, []string{"--exp=test_rdap_net", "--exp=object_tag"}))
	}
	add("-k")
	for i, p := range parts {
		if len(p) == 1 && p[0] == "-k" {
			for _, q := range parts {
				if len(q) == 1 && q[0] == "-jk" {
					parts[i] = []string{"-f", "all"}
				}
			}
		}
	}
	hasVerbose := 0
	for i, p := range parts {
		if len(p) == 1 && (p[0] == "-v" || p[0] == "--verbose" || p[0] == "-rv") {
			hasVerbose++
			if hasVerbose > 1 {
				if p[0] == "-rv" {
					parts[i] = []string{"-r"}
				} else {
					parts[i] = []string{"--fetch=none"}
				}
			}
		}
	}
	last := k.Query != "" && k.Query[0] == '-' || chance(t, "dashdash", 20)
	if last {
		// The option parser does not recognise "--" after bundled short options.
		for i, p := range parts {
			if p[0] == "-rv" || p[0] == "-jk" {
				parts[i] = []string{p[0][:2], "-" + p[0][2:]}
			}
		}
	}
	if k.Query != "" && !last {
		parts = append(parts, []string{string(k.Query)})
	}
	parts = permute(t, parts)
	if k.Query != "" && last {
		parts = append(parts, []string{"--", string(k.Query)})
	}
	for _, p := range parts {
		for _, a := range p {
			k.Args = append(k.Args, Q(a))
		}
	}
	return k
}

// rootRegistry matches every query of its kind.
func rootRegistry(path string) string {
	i := regIndex(path)
	if i < 0 {
		return ""
	}
	e := []string{"", "0.0.0.0/0", "::/0", "0-4294967295", "TAG"}[i]
	return string(RegFile{Desc: "d", Ver: "1.0", Pub: "p", Services: []Service{{Entries: []string{e}, URLs: []string{"http://auth-" + regNames[i] + ".example/r/"}, Contact: i == 4}}}.JSON())
}

func checkArgs(c *Ctx, k argCase) error {
	setWorld(c, func(h hit) reply {
		if strings.HasPrefix(h.URL, "http://registry.example/") {
			if b := rootRegistry(h.URL); b != "" {
				return reply{Body: b}
			}
			return reply{Status: 404}
		}
		return reply{Body: string(answerDoc("domain", "m"))}
	})
	var args []string
	for _, a := range k.Args {
		args = append(args, string(a))
	}
	r := runCLI(c, args...)
	hits := takeHits()
	if k.Bad != "" {
		c.Label("bad: %s", k.Bad)
		c.NonTrivial(true)
		if r.exit == 0 {
			return errf("%q: exit 0 for an unusable %s; requests %v", args, k.Bad, hits)
		}
		if len(hits) > 0 {
			return errf("%q: unusable %s, but it sent %v", args, k.Bad, hits)
		}
		if r.stdout != "" || r.stderr == "" {
			return errf("%q: %s", args, r)
		}
		return nil
	}
	c.Label("type=%s", k.Type)
	c.NonTrivial(true)
	if r.exit != 0 {
		return errf("%q: %s", args, r)
	}
	// The request that had to be sent.
	q := string(k.Query)
	req := &rdap.Request{Type: cliTypes[k.Type], Query: q}
	switch k.Type {
	case "":
		req = rdap.NewAutoRequest(q)
	case "ip":
		req.Query = net.ParseIP(q).String()
	case "autnum", "as", "asn":
		req.Query = strings.TrimLeft(q, "ASas")
	case "url":
		u, err := url.Parse(q)
		if err != nil {
			infra("url %q", q)
		}
		req.Server = u
	}
	wantReg := ""
	if k.HasSrv {
		s := k.Server
		if strings.HasPrefix(s, "//") {
			s = "http:" + s
		} else if !strings.Contains(s, "://") {
			s = "http://" + s
		}
		u, err := url.Parse(s)
		if err != nil {
			infra("server %q: %s", s, err)
		}
		req = req.WithServer(u)
	} else if req.Server == nil {
		i := map[rdap.RequestType]int{rdap.DomainRequest: 0, rdap.AutnumRequest: 3, rdap.EntityRequest: 4, rdap.IPRequest: 1}[req.Type]
		if req.Type == rdap.IPRequest && strings.Contains(req.Query, ":") {
			i = 2
			if ip := net.ParseIP(req.Query); ip != nil && ip.To4() != nil {
				i = 1
			}
		}
		wantReg = "http://registry.example/bs/" + regFiles[i]
		u, _ := url.Parse("http://auth-" + regNames[i] + ".example/r/")
		req = req.WithServer(u)
	}
	u := req.URL()
	if u == nil {
		return errf("no URL for %v", k)
	}
	want := u.Scheme + "://" + u.Host + u.RequestURI()
	var got []hit
	for _, h := range hits {
		if h.Method != "CONNECT" {
			got = append(got, h)
		}
	}
	if wantReg != "" {
		c.Label("bootstrapped")
		if len(got) == 0 || got[0].String() != "GET "+wantReg {
			return errf("%q: requests %v, want first %s", args, got, wantReg)
		}
		got = got[1:]
	}
	if len(got) != 1 || got[0].Method != "GET" {
		return errf("%q: requests %v, want GET %s", args, got, want)
	}
	if !sameURL(got[0].URL, want) {
		return errf("%q: requested %q, want %q", args, got[0].URL, want)
	}
	if kind, query, ok := documentedKind(k.Type, q); ok {
		// The same, judged without the package under test.
		srv := *req.Server
		srv.User, srv.Fragment, srv.RawFragment = nil, "", ""
		if err := expectURL(urlCase{Kind: kind, Query: Q(query), Server: srv.String()}, got[0].URL); err != nil {
			return errf("%q: %s", args, err)
		}
	}
	if a := got[0].Header.Get("Authorization"); (a != "") != (u.User != nil) {
		return errf("%q: Authorization %q for credentials %v", args, a, u.User)
	}
	return nil
}

// autoQueries are the automatic queries of genArgs, with their documented type.
var autoQueries = map[string][2]string{
	"example.com": {"domain"}, "AS64500": {"autnum", "64500"}, "64500": {"autnum", "64500"}, "192.0.2.1": {"ip"}, "2001:db8::/32": {"ip"}, "192.0.2.0/24": {"ip"},
	"H1-TAG": {"entity"}, "OPS4-TAG": {"entity"}, "example": {"entity"}, "example.org": {"domain"}, "münchen.example": {"domain"}, "raw.example": {"domain"}, "http://raw.example/": {"domain", "raw.example"},
}

// documentedKind returns the index in reqKinds and the query text that the
// type option and query argument stand for; not for raw URLs.
func documentedKind(typ, q string) (int, string, bool) {
	switch typ {
	case "":
		a, ok := autoQueries[q]
		if !ok {
			return 0, "", false
		}
		if typ = a[0]; a[1] != "" {
			q = a[1]
		}
	case "dns":
		typ = "domain"
	case "as", "asn":
		typ = "autnum"
	case "ns":
		typ = "nameserver"
	}
	switch typ {
	case "autnum":
		q = strings.TrimLeft(q, "ASas")
	case "ip":
		if ip := net.ParseIP(q); ip != nil {
			q = ip.String()
		}
	}
	for i, rk := range reqKinds {
		if rk.name == typ && typ != "url" {
			return i, q, true
		}
	}
	return 0, "", false
}

func sameURL(a, b string) bool {
	ua, e1 := url.Parse(a)
	ub, e2 := url.Parse(b)
	if e1 != nil || e2 != nil {
		return a == b
	}
	return strings.EqualFold(ua.Scheme, ub.Scheme) && strings.EqualFold(ua.Host, ub.Host) && ua.RequestURI() == ub.RequestURI()
}

type versionCase struct {
	Args []string
	Exit int
}

func checkVersion(c *Ctx, k versionCase) error {
	setWorld(c, func(h hit) reply { return reply{Status: 500} })
	r := runCLI(c, k.Args...)
	if h := takeHits(); len(h) > 0 {
		return errf("%q sent %v", k.Args, h)
	}
	c.NonTrivial(true)
	if (r.exit == 0) != (k.Exit == 0) {
		return errf("%q: %s", k.Args, r)
	}
	for _, a := range k.Args {
		if a == "-h" || a == "--help" {
			// The options are listed.
			for _, o := range []string{"--help", "--type", "--server", "--raw", "--json", "--whois", "--timeout"} {
				if !strings.Contains(r.stdout, o) {
					return errf("%q does not explain %s: %s", k.Args, o, r)
				}
			}
		}
	}
	if k.Exit == 0 && !strings.Contains(r.stdout, "OpenRDAP") {
		return errf("%q does not print the version: %s", k.Args, r)
	}
	return nil
}

func init() {
	register(&Prop{ID: "C30", Level: "exploration",
		Rule: "the tool (RunCLI in process, and the built program) with every output option, explicit server or registry with up to eight servers, each with a generated outcome (usable answers of all classes with unusual JSON, connection error, cut body, error status, 404, empty, undecodable), registry faults and misses; each case is run with and without -v. Oracle: exit code and standard output computed from the outcome list and the winning body. Plus successful queries whose standard output fails after a generated number of bytes (or is /dev/full): non-zero exit, a message, a prefix of the output. All cases are non-trivial, except when there is room for all output.",
		Subs: []*Sub{sub("output", 24000, 150000, genCLI(false), checkCLI), sub("program", 240, 4000, genCLI(true), checkCLI), sub("full", 4000, 40000, genFull, checkCLI)}})
	register(&Prop{ID: "C31", Level: "exploration",
		Rule: "argument vectors: all types and aliases, four option spellings, any order, '--', queries with arbitrary bytes, server URLs with and without scheme, path, credentials, parameters; 30% unusable (14 kinds of mistakes). Oracle: the requests seen on the wire must be exactly the documented one (built with the library's request, which C11/C12 judge), none for unusable arguments. All cases are non-trivial.",
		Subs: []*Sub{sub("arguments", 32000, 300000, genArgs, checkArgs),
			enumSub("special", func(tier string, yield func(versionCase)) {
				for _, a := range [][]string{{"-V"}, {"--version"}, {"-V", "-v"}, {"-V", "example.com"}, {"-V", "-t", "bogus", "x"}} {
					yield(versionCase{a, 0})
				}
				for _, a := range [][]string{{}, {"-h"}, {"--help"}, {"-v"}, {"-t"}, {"-s"}, {"--"}, {"-h", "example.com"}, {"example.com", "-h"}, {"-t", "domain", "example.com", "--help"}, {"-s", "http://x.example/", "--help", "example.com"}, {"-t", "help", "-s", "http://x.example/", "-h"}, {"-j", "example.com", "-h", "-v"}, {"-t", "domain"}, {"-s", "http://x.example/"}, {"-t", "domain", "-t", "ip", "x"}} {
					yield(versionCase{a, 1})
				}
			}, checkVersion)}})
}
