package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/openrdap/rdap"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- the output as a tree

type node struct {
	Label, Value string
	Heading      bool
	Kids         []*node
}

func (n *node) String() string {
	if n.Heading {
		return n.Label + ":"
	}
	return n.Label + ": " + n.Value
}

// parseText reads the default text output (two spaces per level).
func parseText(out string) ([]*node, error) {
	if out == "" {
		return nil, nil
	}
	if !strings.HasSuffix(out, "\n") {
		return nil, errf("the last line is not terminated: %q", tail(out, 60))
	}
	root := &node{Heading: true}
	stack := []*node{root}
	for i, line := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		body := strings.TrimLeft(line, " ")
		ind := len(line) - len(body)
		if ind%2 != 0 || ind/2+1 > len(stack) {
			return nil, errf("line %d is indented by %d: %q", i+1, ind, line)
		}
		stack = stack[:ind/2+1]
		parent := stack[len(stack)-1]
		n := &node{}
		if at := strings.Index(body, ": "); at >= 0 {
			n.Label, n.Value = body[:at], body[at+2:]
		} else if strings.HasSuffix(body, ":") {
			n.Label, n.Heading = strings.TrimSuffix(body, ":"), true
			stack = append(stack, n)
		} else {
			return nil, errf("line %d is neither a heading nor 'label: value': %q", i+1, line)
		}
		parent.Kids = append(parent.Kids, n)
	}
	return root.Kids, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// render writes a tree with an indentation unit.
func render(b *strings.Builder, ns []*node, unit string, level int) {
	for _, n := range ns {
		b.WriteString(strings.Repeat(unit, level))
		b.WriteString(n.String())
		b.WriteString("\n")
		render(b, n.Kids, unit, level+1)
	}
}

// cmpTrees compares siblings label by label: the order among one label counts.
func cmpTrees(path string, want, got []*node) error {
	group := func(ns []*node) map[string][]*node {
		m := map[string][]*node{}
		for _, n := range ns {
			m[n.Label] = append(m[n.Label], n)
		}
		return m
	}
	w, g := group(want), group(got)
	var labels []string
	for l := range w {
		labels = append(labels, l)
	}
	for l := range g {
		if w[l] == nil {
			labels = append(labels, l)
		}
	}
	sort.Strings(labels)
	for _, l := range labels {
		for i := range max(len(w[l]), len(g[l])) {
			switch {
			case i >= len(g[l]):
				return errf("%s: the output lacks %q (%d of %d)", path, w[l][i], i+1, len(w[l]))
			case i >= len(w[l]):
				return errf("%s: the output has %q, which is not in the response", path, g[l][i])
			}
			a, b := w[l][i], g[l][i]
			if a.Heading != b.Heading || a.Value != b.Value {
				return errf("%s: the output has %q, want %q", path, b, a)
			}
			if err := cmpTrees(fmt.Sprintf("%s/%s[%d]", path, l, i), a.Kids, b.Kids); err != nil {
				return err
			}
		}
	}
	return nil
}

func valueNode(out []*node, label, v string) []*node {
	if v == "" {
		return out
	}
	return append(out, &node{Label: label, Value: v})
}

func unknownNodes(out []*node, key string, v any) []*node {
	switch x := v.(type) {
	case []any:
		for _, e := range x {
			out = unknownNodes(out, key, e)
		}
		return out
	case map[string]any:
		h := &node{Label: key, Heading: true}
		for _, k := range sortedKeys(x) {
			h.Kids = unknownNodes(h.Kids, k, x[k])
		}
		return append(out, h)
	case nil:
		return valueNode(out, key, "[unprintable value]")
	}
	s, _, _ := refStr(v)
	return valueNode(out, key, s)
}

// docTree is the tree a well-formed document must be printed as.
func docTree(s *schemaT, m map[string]any) []*node {
	var out []*node
	for i := range s.Fields {
		fd := &s.Fields[i]
		v, ok := m[fd.JSON]
		if !ok || fd.Label == "" {
			continue
		}
		switch fd.Kind {
		case "str":
			x, _, _ := refStr(v)
			out = valueNode(out, fd.Label, x)
		case "strs":
			for _, e := range v.([]any) {
				x, _, _ := refStr(e)
				out = valueNode(out, fd.Label, x)
			}
		case "bool":
			out = valueNode(out, fd.Label, strconv.FormatBool(v.(bool)))
		case "u8", "u16", "u32", "u64":
			n, _, _ := refUint(v, fd.Kind)
			out = valueNode(out, fd.Label, strconv.FormatUint(n, 10))
		case "obj":
			out = append(out, &node{Label: fd.Label, Heading: true, Kids: docTree(schemas[fd.Ref], v.(map[string]any))})
		case "objs":
			for _, e := range v.([]any) {
				out = append(out, &node{Label: fd.Label, Heading: true, Kids: docTree(schemas[fd.Ref], e.(map[string]any))})
			}
		case "vcard":
			props, _, _ := refJCard(v, false)
			out = cardNodes(out, fd.Label, props)
		}
	}
	for _, k := range sortedKeys(m) {
		if s.byJSON[k] == nil {
			out = unknownNodes(out, k, m[k])
		}
	}
	return out
}

func cardNodes(out []*node, label string, props []refProp) []*node {
	for _, p := range props {
		for _, x := range refFlatten(p.Value) {
			out = valueNode(out, label+" "+p.Name, x)
		}
	}
	return out
}

// objTree is the tree a decoded (or hand made) object must be printed as.
func objTree(s *schemaT, rv reflect.Value) []*node {
	rv = reflect.Indirect(rv)
	var out []*node
	for i := range s.Fields {
		fd := &s.Fields[i]
		if fd.Label == "" {
			continue
		}
		fv := rv.FieldByName(fd.Go)
		switch fd.Kind {
		case "str":
			out = valueNode(out, fd.Label, fv.String())
		case "strs":
			for j := range fv.Len() {
				out = valueNode(out, fd.Label, fv.Index(j).String())
			}
		case "bool":
			if !fv.IsNil() {
				out = valueNode(out, fd.Label, strconv.FormatBool(fv.Elem().Bool()))
			}
		case "u8", "u16", "u32", "u64":
			if !fv.IsNil() {
				out = valueNode(out, fd.Label, strconv.FormatUint(fv.Elem().Uint(), 10))
			}
		case "obj":
			if !fv.IsNil() {
				out = append(out, &node{Label: fd.Label, Heading: true, Kids: objTree(schemas[fd.Ref], fv)})
			}
		case "objs":
			for j := range fv.Len() {
				out = append(out, &node{Label: fd.Label, Heading: true, Kids: objTree(schemas[fd.Ref], fv.Index(j))})
			}
		case "vcard":
			if vc := fv.Interface().(*rdap.VCard); vc != nil {
				var props []refProp
				for _, p := range vc.Properties {
					props = append(props, refProp{Name: p.Name, Value: p.Value})
				}
				out = cardNodes(out, fd.Label, props)
			}
		}
	}
	if dd, _ := rv.FieldByName("DecodeData").Interface().(*rdap.DecodeData); dd != nil {
		us := dd.UnknownFields()
		sort.Strings(us)
		for _, k := range us {
			out = unknownNodes(out, k, dd.Value(k))
		}
	}
	return out
}

// stripData removes the decode data, as in objects made by hand.
func stripData(rv reflect.Value) {
	switch rv.Kind() {
	case reflect.Pointer:
		if rv.IsNil() {
			return
		}
		if rv.Type() == reflect.TypeOf((*rdap.DecodeData)(nil)) {
			rv.SetZero()
			return
		}
		if rv.Type() == reflect.TypeOf((*rdap.VCard)(nil)) {
			return
		}
		stripData(rv.Elem())
	case reflect.Struct:
		for i := range rv.NumField() {
			if rv.Type().Field(i).IsExported() {
				stripData(rv.Field(i))
			}
		}
	case reflect.Slice:
		for i := range rv.Len() {
			stripData(rv.Index(i))
		}
	}
}

func printWith(p rdap.Printer, obj rdap.RDAPObject) string {
	var b bytes.Buffer
	p.Writer = &b
	p.Print(obj)
	return b.String()
}

var allClasses = []string{"domain", "domain", "autnum", "ip network", "entity", "nameserver", "error", "help", "domains", "entities", "nameservers"}

// ---------------------------------------------------------------- C26

type textCase struct {
	Doc     string
	Corrupt bool
	Strip   bool
}

func genText(t *rapid.T) textCase {
	g := newDocGen(t)
	g.xprefix = true
	g.unknown = pick(t, "unk", 0, 20, 50)
	k := textCase{Corrupt: chance(t, "corruptdoc", 25)}
	if k.Corrupt {
		g.corrupt = 8
	}
	k.Strip = chance(t, "strip", 15)
	k.Doc = encode(g.top(pick(t, "class", allClasses...)), uni(t, "style", 3))
	return k
}

func checkText(c *Ctx, k textCase) error {
	obj, m, class, err := decodeTo(k.Doc)
	if err != nil || class == "" {
		return err
	}
	var want []*node
	if k.Strip {
		stripData(reflect.ValueOf(obj))
	}
	if k.Strip || k.Corrupt {
		want = objTree(schemas[class], reflect.ValueOf(obj))
	} else {
		want = docTree(schemas[class], m)
	}
	want = []*node{{Label: topHeading[class], Heading: true, Kids: want}}
	out := printWith(rdap.Printer{}, obj)
	got, err := parseText(out)
	if err != nil {
		return err
	}
	c.Label("class=%s", class)
	c.LabelIf(k.Strip, "without decode data")
	c.LabelIf(strings.Contains(k.Doc, `x_0`), "unknown members")
	lines := strings.Count(out, "\n")
	c.LabelIf(lines > 50, "over 50 lines")
	c.NonTrivial(lines > 2)
	return cmpTrees("output", want, got)
}

// ---------------------------------------------------------------- C27

type hostileCase struct {
	Doc    string
	Brief  bool
	BLinks bool
	CLI    string `json:",omitempty"` // "", text or whois
}

func genHostile(cli bool) func(t *rapid.T) hostileCase {
	return func(t *rapid.T) hostileCase {
		g := newDocGen(t)
		g.evil, g.xprefix = true, true
		g.unknown = pick(t, "unk", 0, 30, 60)
		g.corrupt = pick(t, "corr", 0, 0, 5)
		k := hostileCase{Brief: chance(t, "brief", 15), BLinks: chance(t, "blinks", 50)}
		if chance(t, "longstr", 5) {
			g.longStr = pick(t, "longlen", 300, 1000, 4000, 10000, 40000, 280000)
		}
		class := pick(t, "class", allClasses...)
		if cli {
			k.CLI = pick(t, "cli", "text", "whois", "whois")
			k.Brief, k.BLinks = false, true
			if k.CLI == "whois" {
				class = "domain"
			}
		}
		k.Doc = encode(g.top(class), uni(t, "style", 3))
		return k
	}
}

// tame replaces the control characters that could break lines by "Z".
var tamer = strings.NewReplacer("\n", "Z", "\r", "Z", "\x00", "Z")

func tame(v any) any {
	switch x := v.(type) {
	case string:
		return tamer.Replace(x)
	case []any:
		out := []any{}
		for _, e := range x {
			out = append(out, tame(e))
		}
		return out
	case map[string]any:
		out := map[string]any{}
		for k, e := range x {
			out[tamer.Replace(k)] = tame(e)
		}
		return out
	}
	return v
}

func sameLines(what, evil, good string) error {
	if i := strings.IndexAny(evil, "\r\x00"); i >= 0 {
		return errf("%s: the output contains a control character: %q", what, head(evil[max(0, i-40):], 80))
	}
	el, gl := strings.Split(evil, "\n"), strings.Split(good, "\n")
	squash := func(s string) string {
		return strings.Map(func(r rune) rune {
			if r == 'Z' || r == ' ' || r == '\uFFFD' {
				return -1
			}
			return r
		}, s)
	}
	ind := func(s string) int { return len(s) - len(strings.TrimLeft(s, " ")) }
	for i := range min(len(el), len(gl)) {
		if squash(el[i]) != squash(gl[i]) || ind(el[i]) != ind(gl[i]) {
			return errf("%s: line %d is %q; with harmless text it is %q", what, i+1, el[i], gl[i])
		}
	}
	if len(el) != len(gl) {
		return errf("%s: %d lines, %d with harmless text", what, len(el), len(gl))
	}
	return nil
}

func whoisText(o rdap.RDAPObject) string {
	w := (&rdap.Response{Object: o}).ToWhoisStyleResponse()
	var b strings.Builder
	for _, key := range w.KeyDisplayOrder {
		for _, v := range w.Data[key] {
			b.WriteString(key + ": " + tamer.Replace(v) + "\n")
		}
	}
	return b.String()
}

func checkHostile(c *Ctx, k hostileCase) error {
	m, err := genericDecode(k.Doc)
	if err != nil {
		infra("bad document: %s", err)
	}
	goodDoc := string(mustJSON(tame(m)))
	c.NonTrivial(strings.Contains(k.Doc, `\n`) || strings.Contains(k.Doc, `\r`) || strings.Contains(k.Doc, `\u00`))
	if k.CLI != "" {
		var outs [2]string
		for i, doc := range []string{k.Doc, goodDoc} {
			setWorld(c, func(hit) reply { return reply{Body: doc} })
			r := runCLI(c, "--"+k.CLI, "--cache-dir=", "-s", "http://rdap.example/", "-t", "domain", "example.com")
			if r.exit != 0 {
				return errf("exit %d: %s", r.exit, r.stderr)
			}
			outs[i] = r.stdout
		}
		c.Label("cli %s", k.CLI)
		c.LabelIf(strings.Count(outs[0], "\n") > 3, "over 3 lines")
		return sameLines("rdap --"+k.CLI, outs[0], outs[1])
	}
	var objs [2]rdap.RDAPObject
	for i, doc := range []string{k.Doc, goodDoc} {
		o, err := rdap.NewDecoder([]byte(doc)).Decode()
		if err != nil {
			return errf("decode: %s", err)
		}
		objs[i] = o
	}
	p := rdap.Printer{BriefOutput: k.Brief, BriefLinks: k.BLinks}
	out := printWith(p, objs[0])
	c.LabelIf(strings.Count(out, "\n") > 20, "over 20 lines")
	if err := sameLines("text", out, printWith(p, objs[1])); err != nil {
		return err
	}
	// The WHOIS conversion keeps values apart; keys are never made of response text.
	return sameLines("WHOIS values", whoisText(objs[0]), whoisText(objs[1]))
}

// ---------------------------------------------------------------- C28

type optCase struct {
	Doc                                 string
	OmitN, OmitR, Brief, BLinks, Reused bool
	Stdout                              bool // no writer: standard output
	Size                                uint
	Char                                rune
}

func genOpts(t *rapid.T) optCase {
	g := newDocGen(t)
	g.xprefix, g.noNested = true, true
	g.unknown = pick(t, "unk", 0, 20)
	return optCase{
		Doc:   encode(g.top(pick(t, "class", allClasses...)), uni(t, "style", 3)),
		OmitN: chance(t, "on", 35), OmitR: chance(t, "or", 35), Brief: chance(t, "brief", 35), BLinks: chance(t, "bl", 40), Reused: chance(t, "reused", 30), Stdout: chance(t, "stdout", 2),
		Size: pick[uint](t, "size", 0, 0, 0, 1, 2, 3, 4, 8, 16, 20, 33), Char: pick(t, "char", rune(0), 0, 0, ' ', '\t', '.', 'é', 'x', '日'),
	}
}

func filterTree(ns []*node, k optCase) []*node {
	var out []*node
	for _, n := range ns {
		if n.Heading {
			drop := false
			switch n.Label {
			case "Notice":
				drop = k.OmitN || k.Brief
			case "Remark":
				drop = k.OmitR || k.Brief
			case "Event", "AsEventActor", "Variant", "Secure DNS":
				drop = k.Brief
			case "Link":
				if k.BLinks {
					drop = true
					for _, c := range n.Kids {
						if c.Label == "Href" {
							out = valueNode(out, "Link", c.Value)
						}
					}
				}
			}
			if drop {
				continue
			}
		} else if k.Brief && (n.Label == "Conformance" || n.Label == "Port43") {
			continue
		}
		out = append(out, &node{n.Label, n.Value, n.Heading, filterTree(n.Kids, k)})
	}
	return out
}

func checkOpts(c *Ctx, k optCase) error {
	obj, _, class, err := decodeTo(k.Doc)
	if err != nil || class == "" {
		return err
	}
	full := printWith(rdap.Printer{}, obj)
	tree, err := parseText(full)
	if err != nil {
		return err
	}
	size, char := k.Size, k.Char
	if size == 0 {
		size = 2
	}
	if char == 0 {
		char = ' '
	}
	var wb strings.Builder
	render(&wb, filterTree(tree, k), strings.Repeat(string(char), int(size)), 0)
	want := wb.String()
	c.LabelIf(k.Brief, "brief")
	c.LabelIf(k.OmitN, "omit notices")
	c.LabelIf(k.OmitR, "omit remarks")
	c.LabelIf(k.BLinks, "brief links")
	c.LabelIf(k.Size != 0 || k.Char != 0, "indentation")
	c.NonTrivial(want != full)
	var b bytes.Buffer
	p := &rdap.Printer{Writer: &b, OmitNotices: k.OmitN, OmitRemarks: k.OmitR, BriefOutput: k.Brief, BriefLinks: k.BLinks, IndentSize: k.Size, IndentChar: k.Char}
	if k.Stdout {
		name := filepath.Join(c.Scratch(), "stdout")
		f, err := os.Create(name)
		if err != nil {
			infra("%s", err)
		}
		p.Writer = nil
		old := os.Stdout
		os.Stdout = f
		p.Print(obj)
		os.Stdout = old
		f.Close()
		text, err := os.ReadFile(name)
		if err != nil {
			infra("%s", err)
		}
		b.Write(text)
		c.Label("standard output")
	} else {
		p.Print(obj)
	}
	got := b.String()
	if k.Reused {
		// The same printer again, writing elsewhere.
		var b2 bytes.Buffer
		p.Writer = &b2
		p.Print(obj)
		if b2.String() != got {
			return errf("the second use of the printer differs")
		}
	}
	if got != want {
		gl, wl := strings.Split(got, "\n"), strings.Split(want, "\n")
		for i := range min(len(gl), len(wl)) {
			if gl[i] != wl[i] {
				return errf("line %d is %q, want %q (from the full output and the options)", i+1, gl[i], wl[i])
			}
		}
		return errf("%d lines, want %d: %q", len(gl), len(wl), tail(got, 100))
	}
	return nil
}

// ---------------------------------------------------------------- C29

func genWhoisDoc(t *rapid.T) docCase {
	g := newDocGen(t)
	g.unknown = pick(t, "unk", 0, 0, 20)
	g.corrupt = pick(t, "corr", 0, 0, 0, 5)
	class := pick(t, "class", "domain", "domain", "domain", "domain", "domain", "domain", "domain", "entity", "domains", "nameserver", "error", "help")
	if class == "domain" && chance(t, "focus", 60) {
		// Mostly what matters.
		corrupt := g.corrupt
		g.corrupt = 0
		o := ord{{"objectClassName", "domain"}}
		for _, n := range []string{"ldhName", "handle", "port43", "status"} {
			if chance(t, n, 70) {
				if n == "status" {
					o = append(o, kv{n, g.strs("s")})
				} else {
					o = append(o, kv{n, g.str(n[:1])})
				}
			}
		}
		evs := []any{}
		for i := intn(t, "nev", 0, 5); i > 0; i-- {
			e := ord{{"eventAction", pick(t, "act", "registration", "last changed", "expiration", "registration", "last changed", "expiration", "deletion", "Registration", "last update of RDAP database", "")}}
			if chance(t, "date", 85) {
				e = append(e, kv{"eventDate", g.str("d")})
			}
			evs = append(evs, e)
		}
		ents := []any{}
		for i := intn(t, "nent", 0, 6); i > 0; i-- {
			rs := []any{}
			for j := pick(t, "nr", 0, 1, 1, 1, 2, 3); j > 0; j-- {
				rs = append(rs, pick(t, "role", "registrant", "registrar", "administrative", "technical", "abuse", "registrant", "registrar", "Registrar", "billing", "noc", "administrativ"))
			}
			e := ord{{"roles", rs}, {"handle", g.str("h")}}
			if chance(t, "card", 75) {
				e = append(e, kv{"vcardArray", g.vcard()})
			}
			if chance(t, "pids", 50) {
				ps := []any{}
				for j := intn(t, "npid", 0, 3); j > 0; j-- {
					ps = append(ps, ord{{"type", pick(t, "pt", "IANA Registrar ID", "IANA Registrar ID", "iana registrar id", "other")}, {"identifier", g.str("i")}})
				}
				e = append(e, kv{"publicIds", ps})
			}
			if chance(t, "sub", 20) {
				e = append(e, kv{"entities", []any{ord{{"roles", []any{"abuse", "technical", "registrar"}}, {"vcardArray", g.vcard()}}}})
			}
			ents = append(ents, e)
		}
		nss := []any{}
		for i := intn(t, "nns", 0, 4); i > 0; i-- {
			n := ord{{"objectClassName", "nameserver"}}
			if chance(t, "ldh", 85) {
				n = append(n, kv{"ldhName", g.str("n")})
			}
			if chance(t, "uni", 30) {
				n = append(n, kv{"unicodeName", g.str("U")})
			}
			nss = append(nss, n)
		}
		o = append(o, kv{"events", evs}, kv{"entities", ents}, kv{"nameservers", nss})
		g.corrupt = corrupt
		return docCase{encode(ord(permute(t, o)), uni(t, "style", 3)), 0}
	}
	return docCase{encode(g.top(class), uni(t, "style", 3)), 0}
}

type whoisPair struct{ K, V string }

// refWhois reads the document itself.
func refWhois(m map[string]any) []whoisPair {
	var out []whoisPair
	add := func(k, v string) {
		if v != "" {
			out = append(out, whoisPair{k, v})
		}
	}
	str := func(m map[string]any, k string) string { s, _, _ := refStr(m[k]); return s }
	objs := func(m map[string]any, k string) []map[string]any {
		var out []map[string]any
		arr, _ := m[k].([]any)
		for _, e := range arr {
			if o, ok := e.(map[string]any); ok {
				out = append(out, o)
			}
		}
		return out
	}
	strs := func(m map[string]any, k string) []string {
		var out []string
		arr, _ := m[k].([]any)
		for _, e := range arr {
			if s, ok, _ := refStr(e); ok {
				out = append(out, s)
			}
		}
		return out
	}
	withRole := func(role string) map[string]any {
		for _, e := range objs(m, "entities") {
			for _, r := range strs(e, "roles") {
				if r == role {
					return e
				}
			}
		}
		return nil
	}
	contact := func(e map[string]any) map[string]string {
		if v, ok := e["vcardArray"]; ok {
			if props, ok, _ := refJCard(v, false); ok {
				return refContact(props)
			}
		}
		return nil
	}
	add("Domain Name", str(m, "ldhName"))
	add("Handle", str(m, "handle"))
	add("WHOIS Server", str(m, "port43"))
	for _, e := range objs(m, "events") {
		switch str(e, "eventAction") {
		case "last changed":
			add("Updated Date", str(e, "eventDate"))
		case "registration":
			add("Creation Date", str(e, "eventDate"))
		case "expiration":
			add("Expiration Date", str(e, "eventDate"))
		}
	}
	if r := withRole("registrar"); r != nil {
		add("Registrar", contact(r)["Name"])
		for _, id := range objs(r, "publicIds") {
			if str(id, "type") == "IANA Registrar ID" {
				add("Registrar IANA ID", str(id, "identifier"))
			}
		}
	}
	for _, s := range strs(m, "status") {
		add("Domain Status", s)
	}
	for _, x := range [][2]string{{"Registrant", "registrant"}, {"Admin", "administrative"}, {"Tech", "technical"}, {"Abuse", "abuse"}} {
		cc := contact(withRole(x[1]))
		for _, y := range [][2]string{{"Name", "Name"}, {"PO Box", "POBox"}, {"Extended Address", "ExtendedAddress"}, {"Street", "StreetAddress"}, {"Locality", "Locality"},
			{"Post Code", "PostalCode"}, {"Country", "Country"}, {"Tel", "Tel"}, {"Fax", "Fax"}, {"Email", "Email"}} {
			add(x[0]+" "+y[0], cc[y[1]])
		}
	}
	for _, n := range objs(m, "nameservers") {
		add("Name Server", str(n, "ldhName"))
	}
	return out
}

func checkWhois(c *Ctx, k docCase) error {
	obj, m, class, err := decodeTo(k.Doc)
	if err != nil || class == "" {
		return err
	}
	r := &rdap.Response{Object: obj}
	w := r.ToWhoisStyleResponse()
	if w == nil {
		return errf("nil result")
	}
	if class != "domain" {
		c.Label("other type")
		if len(w.KeyDisplayOrder) != 0 || len(w.Data) != 0 {
			return errf("fields for a %s: %v", class, w.Data)
		}
		return nil
	}
	pairs := refWhois(m)
	c.NonTrivial(len(pairs) > 3)
	c.LabelIf(len(pairs) > 10, "over 10 values")
	want := map[string][]string{}
	var order []string
	for _, p := range pairs {
		if want[p.K] == nil {
			order = append(order, p.K)
		}
		want[p.K] = append(want[p.K], p.V)
	}
	for key, vs := range w.Data {
		if !strEq(vs, want[key]) {
			return errf("%q has the values %q, want %q", key, vs, want[key])
		}
	}
	for key, vs := range want {
		if !strEq(vs, w.Data[key]) {
			return errf("%q has the values %q, want %q", key, w.Data[key], vs)
		}
		c.LabelIf(len(vs) > 1, "several values for a key")
	}
	got := append([]string{}, w.KeyDisplayOrder...)
	if len(got) != len(order) {
		return errf("display order %q, want %q", got, order)
	}
	if !strEq(got, order) {
		return errf("display order %q, want %q", got, order)
	}
	return nil
}

func init() {
	register(&Prop{ID: "C26", Level: "exploration",
		Rule:        "responses of all ten classes from the schema table (all members, nesting, unknown members holding scalars, arrays and objects), a quarter with malformed members, some without decode data. Oracle: the output parsed back into a tree by indentation must equal the tree built from the document and the label table; siblings are compared label by label, order within a label counts. Non-trivial: more than two lines.",
		Assumptions: []string{"values hold no line breaks here (C27)", "lang and objectClassName have no label"},
		Subs:        []*Sub{sub("tree", 240000, 2000000, genText, checkText)}})
	register(&Prop{ID: "C27", Level: "exploration",
		Rule: "responses with line feeds, carriage returns, NULs and forged 'label: value' text in 60% of the strings, in vCards and in names of unknown members. Oracle (metamorphic): the output has the lines, indentation and text of the same document with each control character replaced by a letter; no control character reaches the output. Text printer, WHOIS conversion, and the command line tool in text and WHOIS mode. Non-trivial: the document holds a control character.",
		Subs: []*Sub{sub("library", 180000, 2000000, genHostile(false), checkHostile), sub("cli", 3000, 40000, genHostile(true), checkHostile)}})
	register(&Prop{ID: "C28", Level: "exploration",
		Rule:        "responses of all classes x all option combinations (omit notices, omit remarks, brief output, brief links, indentation size and character, printer reuse, no writer). Oracle (metamorphic): the full output, parsed to a tree, with exactly the documented blocks removed, re-indented, must equal the output character by character. Non-trivial: the options change the output.",
		Assumptions: []string{"entities nested in entities are not generated: brief output leaves them out, which the documentation does not say"},
		Subs:        []*Sub{sub("options", 240000, 2000000, genOpts, checkOpts)}})
	register(&Prop{ID: "C29", Level: "exploration",
		Rule: "domain responses rich in events, entities with several and near-miss roles, vCards, public IDs, nameservers (and other classes). Oracle: WHOIS fields computed from the JSON document: values, their order, key order, no empty values, no other keys. Non-trivial: more than three values.",
		Subs: []*Sub{sub("whois", 240000, 2000000, genWhoisDoc, checkWhois)}})
}
