package main

import (
	"bytes"
	"reflect"
	"strings"

	"github.com/openrdap/rdap"
	"pgregory.net/rapid"
)

type docCase struct {
	Doc  string
	Hits int `json:",omitempty"`
}

func genDoc(corrupt, unknown bool) func(t *rapid.T) docCase {
	return func(t *rapid.T) docCase {
		g := newDocGen(t)
		g.evil = chance(t, "controls", 6)
		if corrupt {
			g.corrupt = pick(t, "corr", 3, 10, 25)
		}
		if unknown {
			g.unknown = pick(t, "unk", 20, 60)
		} else if chance(t, "someunk", 20) {
			g.unknown = 10
		}
		class := pick(t, "class", "domain", "domain", "autnum", "ip network", "entity", "entity", "nameserver", "error", "help", "domains", "entities", "nameservers")
		doc := g.top(class)
		style := uni(t, "style", 3)
		return docCase{encode(doc, style), g.hits + g.unknowns}
	}
}

func decodeTo(doc string) (any, map[string]any, string, error) {
	m, err := genericDecode(doc)
	if err != nil {
		infra("generated document is not JSON: %s: %s", err, doc)
	}
	in := []byte(doc)
	obj, err := rdap.NewDecoder(in).Decode()
	if string(in) != doc {
		return nil, m, "", errf("decoding changed the input")
	}
	class := refTop(m)
	if class == "" {
		if err == nil {
			return nil, m, "", errf("a %T was decoded from a document with a bad class", obj)
		}
		return nil, m, "", nil
	}
	if err != nil {
		return nil, m, "", errf("decode error: %s", err)
	}
	if got, _ := classOf(obj); got != class {
		return nil, m, "", errf("decoded a %T, the document is a %s", obj, class)
	}
	return obj, m, class, nil
}

func checkDoc(op cmpOpts) func(c *Ctx, k docCase) error {
	return func(c *Ctx, k docCase) error {
		obj, m, class, err := decodeTo(k.Doc)
		if err != nil || class == "" {
			return err
		}
		c.Label("class=%s", class)
		c.LabelIf(len(k.Doc) > 2000, "large")
		c.LabelIf(strings.Contains(k.Doc, "vcardArray"), "vcard")
		if op.notes || op.data {
			c.LabelIf(k.Hits > 0, "affected members")
			c.NonTrivial(k.Hits > 0)
		} else {
			c.NonTrivial(len(m) > 2)
		}
		return cmpObject(class, schemas[class], m, reflect.ValueOf(obj), op)
	}
}

// ---------------------------------------------------------------- C18

type topCase struct{ Doc Q }

func genTop(t *rapid.T) topCase {
	g := newDocGen(t)
	g.budget, g.density = 12, 30
	var o ord
	add := func(k string, v any) { o = append(o, kv{k, v}) }
	if chance(t, "err", 25) {
		add("errorCode", pick[any](t, "ec", rawNum("404"), "404", rawNum("0"), rawNum("-1"), "x", false, []any{}, ord{}, rawNum("70000")))
	}
	if chance(t, "cls", 50) {
		add("objectClassName", pick[any](t, "ocn", "domain", "autnum", "ip network", "entity", "nameserver", "domain", "autnum", "ip network", "entity", "nameserver", "Domain", "ipnetwork", "ip_network", "ip  network", "banana", "", "error", "help", "domain ", "domains", "network", "ip", "ip-network", "IP Network", "ip network ", "inetnum", "as", "asn", "aut-num", "host", "ns", "name server", "registrar", "contact", "person", "registry", "domain\u0000", "object", "null", rawNum("5"), nil, []any{"domain"}, ord{}, true))
	}
	for _, s := range []string{"domainSearchResults", "entitySearchResults", "nameserverSearchResults"} {
		if chance(t, s, 30) {
			add(s, pick[any](t, "sr", []any{}, []any{}, []any{ord{}}, []any{ord{{"handle", "h"}}}))
		}
	}
	for _, n := range []string{"title", "handle", "notices", "description", "error", "ldhName", "startAutnum", "rdapConformance", "ObjectClassName", "ErrorCode", "errorcode", "domainsearchresults", "lang", "domains", "nested"} {
		if chance(t, n, 20) {
			if n == "nested" {
				add(n, ord{{"objectClassName", "entity"}, {"errorCode", rawNum("1")}})
			} else {
				add(n, pick[any](t, "ov", "x", rawNum("1"), []any{}, ord{}, []any{"a"}, nil))
			}
		}
	}
	if len(o) > 1 {
		o = permute(t, o)
	}
	if o == nil {
		o = ord{}
	}
	doc := encode(o, uni(t, "style", 3))
	switch uni(t, "mal", 12) {
	case 0:
		doc = doc[:uni(t, "cut", len(doc))]
	case 1:
		doc += pick(t, "trail", "x", "{}", ",", "]", "}", " null", "\x00")
	case 2:
		doc = pick(t, "nonobj", "[]", "[{}]", `"domain"`, "5", "true", "", " ", "<html>", "{'a':1}", "{,}", "nul", "[["+doc+"]]", "\ufeff"+doc, "["+doc+"]")
	case 3:
		doc = pick(t, "ws", " ", "\n\t", "\r\n") + doc + pick(t, "ws2", " ", "\n")
	}
	return topCase{Q(doc)}
}

func checkTop(c *Ctx, k topCase) error {
	doc := string(k.Doc)
	in := []byte(doc)
	d := rdap.NewDecoder(in)
	obj, err := d.Decode()
	if string(in) != doc {
		return errf("decoding changed the input")
	}
	m, gerr := genericDecode(doc)
	c.NonTrivial(true)
	if gerr != nil {
		c.Label("not a JSON object")
		if err == nil {
			return errf("no error for a document that is not a JSON object; decoded %T", obj)
		}
		if obj != nil && !reflect.ValueOf(obj).IsNil() {
			return errf("an object with an error")
		}
		return nil
	}
	want := refTop(m)
	c.Label("class=%s", want)
	if want == "" {
		if err == nil {
			return errf("no error for an unrecognised class, decoded %T", obj)
		}
		if obj != nil && !reflect.ValueOf(obj).IsNil() {
			return errf("an object with an error")
		}
		return nil
	}
	if err != nil {
		return errf("decode error: %s (want %s)", err, want)
	}
	if got, _ := classOf(obj); got != want {
		return errf("decoded %T, want %s", obj, want)
	}
	// The same decoder again, and a fresh copy of the bytes.
	for i, dd := range []*rdap.Decoder{d, rdap.NewDecoder(append([]byte{}, in...))} {
		o2, err2 := dd.Decode()
		if err2 != nil || !reflect.DeepEqual(obj, o2) {
			return errf("decoding again (%d) gives %T, error %v", i, o2, err2)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C24, C25

type vcardCase struct {
	Doc     Q
	Lenient bool
}

func genVCardCase(corrupt bool) func(t *rapid.T) vcardCase {
	return func(t *rapid.T) vcardCase {
		g := newDocGen(t)
		g.plain = chance(t, "plain", 30)
		g.evil = chance(t, "controls", 6)
		props := []any{}
		np := intn(t, "np", 0, 8)
		if intn(t, "longcard", 0, 300) == 300 {
			np = intn(t, "nlong", 20, 300)
		}
		for i := np; i > 0; i-- {
			p := g.vcardProp()
			if corrupt && chance(t, "badprop", 20) {
				switch uni(t, "how", 8) {
				case 0:
					p = p[:uni(t, "cut", len(p))]
				case 1:
					p[0] = g.junk(1)
				case 2:
					p[1] = pick[any](t, "bp", nil, []any{}, "x", rawNum("1"), true)
				case 3:
					p[2] = g.junk(1)
				case 4:
					p[3] = ord{{"a", "b"}}
				case 5:
					p[3] = []any{"x", ord{}}
				case 6:
					p[1] = ord{{"type", pick[any](t, "pv", nil, rawNum("1"), ord{}, []any{rawNum("1")}, []any{})}}
				case 7:
					props = append(props, g.junk(1))
				}
			}
			props = append(props, p)
		}
		var top any = []any{"vcard", props}
		if corrupt && chance(t, "badtop", 15) {
			top = pick[any](t, "bt", []any{"vcard"}, []any{"vCard", props}, []any{"vcard", props, []any{}}, []any{props, "vcard"}, []any{"vcard", ord{}}, []any{"vcard", nil}, ord{{"vcard", props}}, nil, "vcard", []any{}, rawNum("1"), []any{nil, props}, []any{"vcard", "x"})
		}
		doc := encode(top, uni(t, "style", 3))
		if corrupt && chance(t, "cut", 5) {
			doc = doc[:uni(t, "cutat", len(doc))]
		}
		return vcardCase{Q(doc), chance(t, "lenient", 50)}
	}
}

func parseVCard(k vcardCase) (*rdap.VCard, error, []byte) {
	in := []byte(k.Doc)
	if k.Lenient {
		v, err := rdap.NewVCardWithOptions(in, rdap.VCardOptions{IgnoreInvalidProperties: true})
		return v, err, in
	}
	v, err := rdap.NewVCard(in)
	return v, err, in
}

func checkVCard(c *Ctx, k vcardCase) error {
	vc, err, in := parseVCard(k)
	if !bytes.Equal(in, []byte(k.Doc)) {
		return errf("parsing changed the input")
	}
	if (vc == nil) != (err != nil) {
		return errf("vCard nil=%v with error %v", vc == nil, err)
	}
	v, jerr := genericAny(string(k.Doc))
	var props []refProp
	ok, open := false, false
	if jerr == nil {
		props, ok, open = refJCard(v, k.Lenient)
	}
	if open {
		c.Label("left open")
		return nil
	}
	c.LabelIf(k.Lenient, "lenient")
	c.LabelIf(!ok, "rejected")
	c.NonTrivial(!ok || len(props) > 1)
	if !ok {
		if err == nil {
			return errf("a malformed jCard was accepted: %s", vc)
		}
		return nil
	}
	if err != nil {
		return errf("a jCard was rejected: %s", err)
	}
	if err := cmpVCard("vcard", vc, props); err != nil {
		return err
	}
	// Strict and lenient agree on valid input, explicit options too.
	strictProps, sok, _ := refJCard(v, false)
	vs, serr := rdap.NewVCardWithOptions([]byte(k.Doc), rdap.VCardOptions{})
	if (serr == nil) != sok {
		return errf("strict parse: error %v, want accepted=%v", serr, sok)
	}
	if sok {
		if err := cmpVCard("strict", vs, strictProps); err != nil {
			return err
		}
	}
	names := []string{"fn", "adr", "tel", "email", "org", "version", "n", "kind", "FN", "nope", ""}
	for _, n := range names {
		var want []*rdap.VCardProperty
		for i, p := range props {
			if p.Name == n {
				want = append(want, vc.Properties[i])
			}
		}
		got := vc.Get(n)
		if len(got) != len(want) {
			return errf("Get(%q) gives %d properties, want %d", n, len(got), len(want))
		}
		for i := range want {
			if got[i] != want[i] && !reflect.DeepEqual(got[i], want[i]) {
				return errf("Get(%q)[%d] is %v, want %v", n, i, got[i], want[i])
			}
		}
		first := vc.GetFirst(n)
		if (first == nil) != (len(want) == 0) || first != nil && !reflect.DeepEqual(first, want[0]) {
			return errf("GetFirst(%q) is %v", n, first)
		}
	}
	// The same card inside an entity.
	if sok {
		doc := `{"objectClassName":"entity","vcardArray":` + string(k.Doc) + `}`
		o, err := rdap.NewDecoder([]byte(doc)).Decode()
		if err != nil {
			return errf("entity: %s", err)
		}
		e, isE := o.(*rdap.Entity)
		if !isE || e.VCard == nil {
			return errf("entity without vCard")
		}
		if err := cmpVCard("entity", e.VCard, strictProps); err != nil {
			return err
		}
	}
	return nil
}

// refContact are the accessors' values.
func refContact(props []refProp) map[string]string {
	first := func(n string) *refProp {
		for i := range props {
			if props[i].Name == n {
				return &props[i]
			}
		}
		return nil
	}
	single := func(n string) string {
		if p := first(n); p != nil {
			return strings.Join(refFlatten(p.Value), " ")
		}
		return ""
	}
	out := map[string]string{"Name": single("fn"), "Email": single("email"), "Org": single("org")}
	adr := first("adr")
	for i, n := range []string{"POBox", "ExtendedAddress", "StreetAddress", "Locality", "Region", "PostalCode", "Country"} {
		out[n] = ""
		if adr == nil {
			continue
		}
		fields, ok := adr.Value.([]any)
		if !ok {
			fields = []any{adr.Value}
		}
		if i < len(fields) {
			out[n] = strings.Join(refFlatten(fields[i]), " ")
		}
	}
	out["Tel"], out["Fax"] = "", ""
	for _, want := range []string{"voice", "fax"} {
		key := map[string]string{"voice": "Tel", "fax": "Fax"}[want]
		for _, p := range props {
			if p.Name != "tel" {
				continue
			}
			types := p.Params["type"]
			match := want == "voice" && len(types) == 0
			for _, t := range types {
				match = match || t == want
			}
			if vals := refFlatten(p.Value); match && len(vals) > 0 {
				out[key] = vals[0]
				break
			}
		}
	}
	return out
}

func contactOf(v *rdap.VCard) map[string]string {
	return map[string]string{"Name": v.Name(), "Email": v.Email(), "Org": v.Org(), "POBox": v.POBox(), "ExtendedAddress": v.ExtendedAddress(), "StreetAddress": v.StreetAddress(),
		"Locality": v.Locality(), "Region": v.Region(), "PostalCode": v.PostalCode(), "Country": v.Country(), "Tel": v.Tel(), "Fax": v.Fax()}
}

func checkContact(c *Ctx, k vcardCase) error {
	vc, err, _ := parseVCard(k)
	v, _ := genericAny(string(k.Doc))
	props, ok, open := refJCard(v, k.Lenient)
	if open {
		return nil
	}
	if !ok || err != nil {
		return errf("valid card rejected: %v", err)
	}
	want := refContact(props)
	for round := 0; round < 2; round++ {
		got := contactOf(vc)
		for n, w := range want {
			if got[n] != w {
				return errf("%s() is %q, want %q", n, got[n], w)
			}
		}
	}
	for n, w := range want {
		c.LabelIf(w != "", n)
		c.NonTrivial(w != "")
	}
	return nil
}

func init() {
	register(&Prop{ID: "C18", Level: "exploration",
		Rule:        "documents with any subset of errorCode, objectClassName (right, unknown, wrong case, not a string) and the three search result members, in any order, with misleading neighbours (other letter case, nested classes), plus cut, trailing-garbage and non-object documents. Oracle: the documented precedence table. All cases are non-trivial.",
		Assumptions: []string{"a null errorCode and search result members that are not arrays are left out"},
		Subs:        []*Sub{sub("toplevel", 360000, 4000000, genTop, checkTop)}})
	register(&Prop{ID: "C19", Level: "exploration",
		Rule: "well-formed responses of all ten classes generated from an independent schema table (member, Go field, type), nesting up to 4, distinct strings and numbers so that misplaced values show, shuffled members, three JSON spellings. Oracle: every Go field equals the JSON member of the schema, absent members are empty. Non-trivial: more than two members.",
		Subs: []*Sub{sub("fidelity", 240000, 1500000, genDoc(false, false), checkDoc(cmpOpts{values: true}))}})
	register(&Prop{ID: "C20", Level: "exploration",
		Rule: "the same responses with 3-25% of members and array elements replaced by arbitrary JSON (null, booleans, boundary numbers, numeric and boolean strings, arrays, objects). Oracle: conversion table; everything else as in C19; a note for every converted or dropped value. Non-trivial: a member was replaced.",
		Subs: []*Sub{sub("tolerance", 300000, 2000000, genDoc(true, false), checkDoc(cmpOpts{values: true, notes: true}))}})
	register(&Prop{ID: "C21", Level: "exploration",
		Rule: "responses with unknown members (extensions, other letter case, Go names of fields) at all levels holding arbitrary JSON, some members malformed. Oracle: Fields/Value/UnknownFields of every object against a generic JSON decode. Non-trivial: an unknown or malformed member is present.",
		Subs: []*Sub{sub("decodedata", 200000, 1500000, genDoc(true, true), checkDoc(cmpOpts{data: true, values: true}))}})
	register(&Prop{ID: "C24", Level: "exploration",
		Rule:        "jCards of up to 8 properties with string/array parameters, scalar, nested and multiple values; most with a structural corruption of a property, the top level or the JSON text; strict and lenient. Oracle: a reference jCard reader. Non-trivial: rejected, or at least two properties.",
		Assumptions: []string{"values nested deeper than three arrays and parameters that are not strings are left open"},
		Subs:        []*Sub{sub("jcard", 400000, 3000000, genVCardCase(true), checkVCard)}})
	register(&Prop{ID: "C25", Level: "exploration",
		Rule: "valid jCards with several fn/adr/tel/email/org properties, address components that are empty, arrays, null, numbers, missing or flat, telephone types as string, list or absent. Oracle: reference accessors. Non-trivial: some accessor gives a value.",
		Subs: []*Sub{sub("contact", 200000, 3000000, genVCardCase(false), checkContact)}})
}
