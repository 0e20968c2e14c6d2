package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/openrdap/rdap"
	"pgregory.net/rapid"
)

// An independent description of the RDAP responses (RFC 9083): for every
// object the JSON member, the Go field that must carry it, its type and the
// label of the text output.

type fieldT struct {
	Go, JSON, Kind, Ref, Label string
}

type schemaT struct {
	Name   string
	Fields []fieldT
	byJSON map[string]*fieldT
}

func f(goName, jsonName, kind, label string) fieldT { return fieldT{goName, jsonName, kind, "", label} }
func o(goName, jsonName, kind, ref, label string) fieldT {
	return fieldT{goName, jsonName, kind, ref, label}
}

var fLang = f("Lang", "lang", "str", "")
var fConf = f("Conformance", "rdapConformance", "strs", "Conformance")
var fClass = f("ObjectClassName", "objectClassName", "str", "")
var fNotices = o("Notices", "notices", "objs", "notice", "Notice")
var fRemarks = o("Remarks", "remarks", "objs", "remark", "Remark")
var fLinks = o("Links", "links", "objs", "link", "Link")
var fEvents = o("Events", "events", "objs", "event", "Event")
var fEntities = o("Entities", "entities", "objs", "entity", "Entity")
var fHandle = f("Handle", "handle", "str", "Handle")
var fStatus = f("Status", "status", "strs", "Status")
var fPort43 = f("Port43", "port43", "str", "Port43")
var fPublicIDs = o("PublicIDs", "publicIds", "objs", "publicid", "Public ID")

var schemas = map[string]*schemaT{}

func schema(name string, fields ...fieldT) {
	s := &schemaT{Name: name, Fields: fields, byJSON: map[string]*fieldT{}}
	for i := range s.Fields {
		s.byJSON[s.Fields[i].JSON] = &s.Fields[i]
	}
	schemas[name] = s
}

func init() {
	schema("link", f("Value", "value", "str", "Value"), f("Rel", "rel", "str", "Rel"), f("Href", "href", "str", "Href"),
		f("HrefLang", "hreflang", "strs", "HrefLang"), f("Title", "title", "str", "Title"), f("Media", "media", "str", "Media"), f("Type", "type", "str", "Type"))
	schema("notice", f("Title", "title", "str", "Title"), f("Type", "type", "str", "Type"), f("Description", "description", "strs", "Description"), fLinks)
	schema("remark", f("Title", "title", "str", "Title"), f("Type", "type", "str", "Type"), f("Description", "description", "strs", "Description"), fLinks)
	schema("event", f("Action", "eventAction", "str", "Action"), f("Actor", "eventActor", "str", "Actor"), f("Date", "eventDate", "str", "Date"), fLinks)
	schema("publicid", f("Type", "type", "str", "Type"), f("Identifier", "identifier", "str", "Identifier"))
	schema("domain", fLang, fConf, fClass, fNotices, fHandle, f("LDHName", "ldhName", "str", "Domain Name"), f("UnicodeName", "unicodeName", "str", "Domain Name (Unicode)"),
		o("Variants", "variants", "objs", "variant", "Variant"), o("Nameservers", "nameservers", "objs", "nameserver", "Nameserver"),
		o("SecureDNS", "secureDNS", "obj", "securedns", "Secure DNS"), fEntities, fStatus, fPublicIDs, fRemarks, fLinks, fPort43, fEvents,
		o("Network", "network", "obj", "ip network", "IP Network"))
	schema("variant", fLang, f("Relation", "relation", "strs", "Relation"), f("IDNTable", "idnTable", "str", "IDN Table"), o("VariantNames", "variantNames", "objs", "variantname", "Variant Name"))
	schema("variantname", fLang, f("LDHName", "ldhName", "str", "Domain Name"), f("UnicodeName", "unicodeName", "str", "Domain Name (Unicode)"))
	schema("securedns", fLang, f("ZoneSigned", "zoneSigned", "bool", "Zone Signed"), f("DelegationSigned", "delegationSigned", "bool", "Delegation Signed"), f("MaxSigLife", "maxSigLife", "u64", "Max Signature Life"),
		o("DS", "dsData", "objs", "ds", "DSData"), o("Keys", "keyData", "objs", "key", "Key"))
	schema("ds", fLang, f("KeyTag", "keyTag", "u64", "Key Tag"), f("Algorithm", "algorithm", "u8", "Algorithm"), f("Digest", "digest", "str", "Digest"), f("DigestType", "digestType", "u8", "DigestType"), fEvents, fLinks)
	schema("key", f("Flags", "flags", "u16", "Flags"), f("Protocol", "protocol", "u8", "Protocol"), f("Algorithm", "algorithm", "u8", "Algorithm"), f("PublicKey", "publicKey", "str", "Public Key"), fEvents, fLinks)
	schema("entity", fLang, fConf, fClass, fNotices, fHandle, f("VCard", "vcardArray", "vcard", "vCard"), f("Roles", "roles", "strs", "Role"), fPublicIDs, fEntities, fRemarks, fLinks, fEvents,
		o("AsEventActor", "asEventActor", "objs", "event", "AsEventActor"), fStatus, fPort43,
		o("Networks", "networks", "objs", "ip network", "IP Network"), o("Autnums", "autnums", "objs", "autnum", "Autnum"))
	schema("nameserver", fLang, fConf, fClass, fNotices, fHandle, f("LDHName", "ldhName", "str", "Nameserver"), f("UnicodeName", "unicodeName", "str", "Nameserver (Unicode)"),
		o("IPAddresses", "ipAddresses", "obj", "ipaddresses", "IP Addresses"), fEntities, fStatus, fRemarks, fLinks, fPort43, fEvents)
	schema("ipaddresses", fLang, f("V6", "v6", "strs", "IPv6"), f("V4", "v4", "strs", "IPv4"))
	schema("autnum", fLang, fConf, fClass, fNotices, fHandle, f("StartAutnum", "startAutnum", "u32", "StartAutnum"), f("EndAutnum", "endAutnum", "u32", "EndAutnum"),
		f("IPVersion", "ipVersion", "str", "IP Version"), f("Name", "name", "str", "Name"), f("Type", "type", "str", "Type"), fStatus, f("Country", "country", "str", "Country"), fEntities, fRemarks, fLinks, fPort43, fEvents)
	schema("ip network", fLang, fConf, fClass, fNotices, fHandle, f("StartAddress", "startAddress", "str", "Start Address"), f("EndAddress", "endAddress", "str", "End Address"),
		f("IPVersion", "ipVersion", "str", "IP Version"), f("Name", "name", "str", "Name"), f("Type", "type", "str", "Type"), f("Country", "country", "str", "Country"), f("ParentHandle", "parentHandle", "str", "ParentHandle"),
		fStatus, fEntities, fRemarks, fLinks, fPort43, fEvents)
	schema("error", fLang, fConf, fNotices, f("ErrorCode", "errorCode", "u16", "Error Code"), f("Title", "title", "str", "Title"), f("Description", "description", "strs", "Description"))
	schema("help", fLang, fConf, fNotices)
	schema("domains", fLang, fConf, fNotices, o("Domains", "domainSearchResults", "objs", "domain", "Domain"))
	schema("nameservers", fLang, fConf, fNotices, o("Nameservers", "nameserverSearchResults", "objs", "nameserver", "Nameserver"))
	schema("entities", fLang, fConf, fNotices, o("Entities", "entitySearchResults", "objs", "entity", "Entity"))
}

var topHeading = map[string]string{"domain": "Domain", "autnum": "Autnum", "ip network": "IP Network", "entity": "Entity", "nameserver": "Nameserver",
	"error": "Error", "help": "Help", "domains": "Domain Search Results", "entities": "Entity Search Results", "nameservers": "Nameserver Search Results"}

// ---------------------------------------------------------------- documents

type kv struct {
	K string
	V any
}
type ord []kv      // an object, in the order it is written
type rawNum string // a number as written

func enc(b *strings.Builder, v any, style int, depth int) {
	nl := func(d int) {
		switch style {
		case 1:
			b.WriteString(" ")
		case 2:
			b.WriteString("\n" + strings.Repeat("\t", d))
		}
	}
	switch x := v.(type) {
	case ord:
		b.WriteString("{")
		for i, e := range x {
			if i > 0 {
				b.WriteString(",")
			}
			nl(depth + 1)
			enc(b, e.K, style, 0)
			b.WriteString(":")
			if style > 0 {
				b.WriteString(" ")
			}
			enc(b, e.V, style, depth+1)
		}
		nl(depth)
		b.WriteString("}")
	case []any:
		b.WriteString("[")
		for i, e := range x {
			if i > 0 {
				b.WriteString(",")
			}
			nl(depth + 1)
			enc(b, e, style, depth+1)
		}
		nl(depth)
		b.WriteString("]")
	case rawNum:
		b.WriteString(string(x))
	case string:
		if style == 2 {
			// Non-ASCII as \u escapes.
			b.WriteString(strconv.QuoteToASCII("")[:1])
			for _, r := range x {
				switch {
				case r == '"' || r == '\\':
					b.WriteString("\\" + string(r))
				case r < 0x20 || r == 0x7f || r > 0x7e:
					if r > 0xffff {
						r -= 0x10000
						fmt.Fprintf(b, "\\u%04x\\u%04X", 0xd800+(r>>10), 0xdc00+(r&0x3ff))
					} else {
						fmt.Fprintf(b, "\\u%04x", r)
					}
				default:
					b.WriteRune(r)
				}
			}
			b.WriteString(`"`)
			return
		}
		b.Write(mustJSON(x))
	default:
		b.Write(mustJSON(x))
	}
}

func encode(v any, style int) string {
	var b strings.Builder
	enc(&b, v, style, 0)
	return b.String()
}

// docGen builds documents.
type docGen struct {
	t        *rapid.T
	n        int // counter for distinct strings
	budget   int // remaining members
	density  int
	corrupt  int // percent of members replaced by something else
	unknown  int // percent of objects with unknown members
	evil     bool
	short    bool // short strings only
	noNested bool // entities have no networks, autnums, entities
	plain    bool // strings without special characters
	nested   bool // unknown members may hold objects
	xprefix  bool // unknown members start with x_
	hits     int  // corrupted members
	unknowns int
	long     int // one list of this many members
	longStr  int // one string of at least this many bytes
	deep     int // one chain of objects this many levels deep
}

var specials = []string{"é", "münchen", "日本", "\"q\"", "\\", "</x>&amp;", ": ", "a: b", "%s%d", "\u2028", "😀", "\t", "'", "  ", "#", "{", "[1]", "\x7f", "\u00ad", "Link:", "null", "true"}
var hostile = []string{"\n", "\r", "\x00", "\r\n", "\nHandle: FORGED", "\n\nDomain:\n  Handle: x", "\rStatus: y", "a\x00b", "\n", "\u2028\n", "\n\n\n"}

func (g *docGen) str(base string) string {
	g.n++
	s := base + strconv.Itoa(g.n)
	if g.plain {
		return s
	}
	if g.evil && chance(g.t, "evil", 60) {
		h := pick(g.t, "hostile", hostile...)
		if g.longStr > 0 && chance(g.t, "long", 20) {
			s += strings.Repeat(pick(g.t, "longs", "x", "ab c", "é", "0123456789"), g.longStr/4) + "end"
			g.longStr = 0
		}
		switch uni(g.t, "hpos", 3) {
		case 0:
			return h + s
		case 1:
			return s + h
		}
		return s + h + "t" + strconv.Itoa(g.n)
	}
	if g.evil {
		return s
	}
	switch uni(g.t, "strkind", 10) {
	case 0:
		return s + pick(g.t, "sp", specials...) + "z"
	case 1:
		return pick(g.t, "sp", specials...) + s
	case 2:
		if chance(g.t, "empty", 25) {
			return ""
		}
		if chance(g.t, "blank", 20) {
			return pick(g.t, "blanks", " ", "\t", "   ", "\u00a0", "\u3000")
		}
		return s + pick(g.t, "sp", specials...)
	}
	if g.longStr > 0 && chance(g.t, "long", 20) {
		s += strings.Repeat(pick(g.t, "longs", "x", "ab c", "é", "0123456789"), g.longStr/4) + "end"
		g.longStr = 0
	}
	return s
}

func (g *docGen) strs(base string) []any {
	n := intn(g.t, "ns", 0, 3)
	out := []any{}
	for i := 0; i < n; i++ {
		if g.corrupt > 0 && chance(g.t, "celem", g.corrupt) {
			g.hits++
			out = append(out, g.junk(1))
			continue
		}
		if len(out) > 0 && chance(g.t, "again", 8) {
			out = append(out, out[uni(g.t, "which", len(out))])
			continue
		}
		out = append(out, g.value(base))
	}
	if g.long > 0 && len(out) > 0 && chance(g.t, "longlist", 30) {
		for i := g.long; i > 0; i-- {
			g.n++
			out = append(out, base[:1]+strconv.Itoa(g.n))
		}
		g.long = 0
	}
	return out
}

var junkScalars = []any{nil, true, false, rawNum("0"), rawNum("1"), rawNum("-1"), rawNum("3.7"), rawNum("-0.5"), rawNum("-0"), rawNum("255"), rawNum("256"), rawNum("65535"), rawNum("65536"), rawNum("4294967295"), rawNum("4294967296"),
	rawNum("1e19"), rawNum("18446744073709551615"), rawNum("18446744073709551616"), rawNum("1e300"), rawNum("-1e30"), rawNum("1E2"), rawNum("257"), rawNum("65537.5"), rawNum("123456789"), rawNum("1e-9"),
	"", "0", "1", "12", "-5", "007", "255", "256", "300", "65536", "4294967296", "18446744073709551615", "18446744073709551616", "1.5", "1e2", "+3", "0x1f", " 7", "true", "false", "T", "f", "TRUE", "False", "yes", "tRUE", "t", "text"}

func (g *docGen) junk(depth int) any {
	g.n++
	switch uni(g.t, "junk", 8) {
	case 0:
		if depth <= 0 {
			return []any{}
		}
		n := intn(g.t, "jn", 0, 3)
		out := []any{}
		for i := 0; i < n; i++ {
			out = append(out, g.junk(depth-1))
		}
		return out
	case 1:
		if depth <= 0 {
			return ord{}
		}
		n := intn(g.t, "jn", 0, 3)
		out := ord{}
		for i := 0; i < n; i++ {
			out = append(out, kv{pick(g.t, "jk", "a", "handle", "title", "value", "type", "description") + []string{"", "", "x"}[i], g.junk(depth - 1)})
		}
		return dedupe(out)
	default:
		return pick(g.t, "js", junkScalars...)
	}
}

func dedupe(o ord) ord {
	seen := map[string]bool{}
	var out ord
	for _, e := range o {
		if !seen[e.K] {
			seen[e.K] = true
			out = append(out, e)
		}
	}
	return out
}

var unknownNames = []string{"Handle", "HANDLE", "handle ", "Status", "ldhname", "LDHName", "lDHName", "conformance", "Notices", "decodeData", "DecodeData", "common", "Common", "vCard", "action", "eventaction", "publicIDs", "hrefLang", "keys", "dS", "x_ext", "rdap_conformance", "_", "0", "é", "a b", "ObjectClassName", "", "isKnown", "iPAddresses", "idntable", "iDNTable", "domains", "secureDns", "fred_keyset", "arin_originas0_originautnums",
	"@context", "@type", "$schema", "#", "//", "_id", "-", ".", "x:y", "a.b", "a/b", "redacted", "cidr0_cidrs", "jscard", "roles", "vcardArray", "port43", "ipAddresses", "value", "href", "lang", "rdapConformance", "notices", "events", "title",
	"a_very_long_member_name_that_goes_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on"}

func (g *docGen) unknownValue(depth int) any {
	switch uni(g.t, "uv", 8) {
	case 0:
		return pick(g.t, "ub", true, false)
	case 1:
		return rawNum(pick(g.t, "un", "0", "1", "-2.5", "12345678901", "1e21", "0.1", "7"))
	case 2:
		n := intn(g.t, "ual", 0, 3)
		out := []any{}
		for i := 0; i < n; i++ {
			if depth > 0 {
				out = append(out, g.unknownValue(depth-1))
			} else {
				out = append(out, g.str("ua"))
			}
		}
		return out
	case 3:
		if !g.nested || depth <= 0 {
			return g.str("uo")
		}
		return g.unknownObj(depth - 1)
	case 4:
		return nil
	default:
		return g.str("u")
	}
}

// single gives the first of vals by itself, if there is one and it is asked for.
func single(vals []any, yes bool) any {
	if yes && len(vals) > 0 {
		return vals[0]
	}
	return vals
}

func (g *docGen) unknownObj(depth int) ord {
	out := ord{}
	for i := intn(g.t, "uon", 0, 3); i > 0; i-- {
		g.n++
		name := "x_" + fmt.Sprintf("%05d", g.n)
		if !g.evil && chance(g.t, "uoname", 25) {
			name = pick(g.t, "uon2", "", "handle", "Handle", "title", "links", "value", "0", "é", "a b", "objectClassName", "lang", "_", "$ref", "@id", "X", "-")
		}
		out = append(out, kv{name, g.unknownValue(depth)})
	}
	return dedupe(out)
}

func (g *docGen) addUnknown(o ord, s *schemaT) ord {
	for i := intn(g.t, "nun", 1, 3); i > 0; i-- {
		g.n++
		name := fmt.Sprintf("x_%05d", g.n)
		if !g.xprefix {
			if chance(g.t, "xname", 60) {
				name = pick(g.t, "uname", unknownNames...)
			}
		} else if g.evil && chance(g.t, "evilkey", 50) {
			name += pick(g.t, "ek", "\n", "\r", "\x00", "\nHandle: FORGED", "\n  a: b")
		}
		dup := false
		for _, e := range o {
			dup = dup || e.K == name
		}
		if dup || s.byJSON[name] != nil {
			continue
		}
		g.unknowns++
		o = append(o, kv{name, g.unknownValue(2)})
	}
	return o
}

func (g *docGen) number(kind string) any {
	max := map[string]uint64{"u8": 255, "u16": 65535, "u32": 4294967295, "u64": 1 << 53}[kind]
	var v uint64
	switch uni(g.t, "numk", 4) {
	case 0:
		v = pick(g.t, "edge", 0, 1, max, max-1)
	default:
		g.n++
		v = uint64(g.n*7+13) % (max + 1)
		if chance(g.t, "big", 40) {
			v = rapid.Uint64Range(0, max).Draw(g.t, "num")
		}
	}
	s := strconv.FormatUint(v, 10)
	switch uni(g.t, "numform", 8) {
	case 0:
		s += ".0"
	case 1:
		s += "e0"
	}
	return rawNum(s)
}

// vocabulary are the values that real servers put into a member.
var vocabulary = map[string][]string{
	"lang":            {"en", "fr", "mn-Cyrl-MN", "EN"},
	"rdapConformance": {"rdap_level_0", "icann_rdap_response_profile_0", "icann_rdap_technical_implementation_guide_1", "redacted", "cidr0", "nro_rdap_profile_0"},
	"handle":          {"2138514_DOMAIN_COM-VRSN", "NET-192-0-2-0-1", "AS2856", "292", "XXXX", "ABC-ARIN", "irt-TEST-AP", "REDACTED FOR PRIVACY"},
	"ldhName":         {"example.com", "EXAMPLE.COM", "xn--fo-5ja.example", "ns1.example.com", "2.0.192.in-addr.arpa", "example.com.", "com"},
	"unicodeName":     {"fóo.example", "例え.jp", "example.com"},
	"status":          {"active", "client hold", "client transfer prohibited", "server delete prohibited", "validated", "locked", "inactive", "associated", "removed", "obscured", "private", "proxy", "ok", "pending delete", "redemption period", "administrative"},
	"eventDate":       {"1990-12-31T23:59:59Z", "1990-12-31T23:59:60Z", "2021-05-03T12:00:00.5+02:00", "2017-08-01", "2017-08-01T00:00:00", "0001-01-01T00:00:00Z", "2038-01-19T03:14:08-05:00", "20170801"},
	"eventActor":      {"joe@example.com", "XXXX", "registrar"},
	"rel":             {"self", "related", "alternate", "up", "terms-of-service", "copyright", "about", "describedby"},
	"href":            {"https://example.com/domain/example.com", "http://rdap.example/", "https://example.com/a?b=c&d=e#f", "/relative", "mailto:x@example.com"},
	"value":           {"https://example.com/context_uri", "http://rdap.example/"},
	"type":            {"application/rdap+json", "text/html", "result set truncated due to authorization", "object truncated due to excessive load", "object redacted due to authorization", "IANA Registrar ID", "DIRECT ALLOCATION", "ALLOCATED PA"},
	"hreflang":        {"en", "ch", "en-GB"},
	"media":           {"screen", "print", "all"},
	"title":           {"Terms of Use", "NOTICE", "Description", "Status Codes", "RDDS Inaccuracy Complaint Form", "Not Found", "REDACTED FOR PRIVACY"},
	"description":     {"By using the service you agree to the terms.", "-", " indented", "* list item", "For more information, see https://icann.org/epp", "Handle: XXXX", "Remark:"},
	"port43":          {"whois.example.net", "whois.arin.net", "whois://whois.example.net:43"},
	"country":         {"US", "AU", "gb", "EU", "ZZ"},
	"ipVersion":       {"v4", "v6", "V4", "4"},
	"startAddress":    {"192.0.2.0", "2001:db8::", "0.0.0.0", "::"},
	"endAddress":      {"192.0.2.255", "2001:db8::ffff", "255.255.255.255", "::"},
	"v4":              {"192.0.2.1", "0.0.0.0", "192.0.2.2"},
	"v6":              {"2001:db8::1", "::", "2001:DB8:0:0:0:0:0:1", "::ffff:192.0.2.1"},
	"relation":        {"registered", "unregistered", "registration restricted", "open registration", "conjoined"},
	"idnTable":        {".EXAMPLE Swedish"},
	"identifier":      {"292", "9999", "1"},
	"parentHandle":    {"NET-192-0-0-0-0", "YYYY-RIR"},
	"name":            {"NET-RTR-1", "PRIVATE", "AS-RTR-1"},
	"digest":          {"D4B7D520E7BB5F0F67674A0CCEB1E3E0614B93C4F9E99B8383F6A1E4469DA50A"},
	"publicKey":       {"mdsswUyr3DPW132mOi8V9xESWE8jTo0dxCjjnopKl+GqJxpVXckHAeF+KkxLbxILfDLUT0rAK9iUzy1L53eKGQ==", "AwEAAa+/=="},
	"roles":           {"registrant", "registrar", "administrative", "technical", "abuse", "billing", "sponsor", "reseller", "proxy", "notifications", "noc"},
	"eventAction":     {"registration", "reregistration", "last changed", "expiration", "deletion", "reinstantiation", "transfer", "locked", "unlocked", "registrar expiration", "last update of RDAP database", "enum validation expiration"},
}

var numbers = map[string][]string{"errorCode": {"400", "403", "404", "418", "422", "429", "500", "501", "503", "200"}, "algorithm": {"5", "7", "8", "10", "13", "15", "252"}, "digestType": {"1", "2", "4"}, "flags": {"0", "256", "257", "385"},
	"protocol": {"3"}, "keyTag": {"12345", "65535"}, "maxSigLife": {"604800", "1"}, "startAutnum": {"2856", "64512", "65535", "65536", "23456"}, "endAutnum": {"2856", "65534", "65551"}}

// value is a string for the member.
func (g *docGen) value(member string) string {
	if voc := vocabulary[member]; voc != nil && !g.plain && !g.evil && chance(g.t, "voc", 25) {
		return pick(g.t, "word", voc...)
	}
	return g.str(member[:1])
}

var eventActions = []string{"registration", "last changed", "expiration", "deletion", "transfer"}
var roleNames = []string{"registrant", "registrar", "administrative", "technical", "abuse", "billing", "sponsor"}

func (g *docGen) object(name string, depth int) ord {
	s := schemas[name]
	var out ord
	for _, fd := range s.Fields {
		if g.budget <= 0 {
			break
		}
		if g.noNested && name == "entity" && (fd.JSON == "networks" || fd.JSON == "autnums" || fd.JSON == "entities") {
			continue
		}
		dens := g.density
		if fd.Ref != "" {
			if depth <= 0 {
				continue
			}
			dens = g.density * 2 / 3
		}
		if !chance(g.t, "has", dens) {
			continue
		}
		g.budget--
		if g.corrupt > 0 && chance(g.t, "corrupt", g.corrupt) {
			g.hits++
			out = append(out, kv{fd.JSON, g.junk(2)})
			continue
		}
		var v any
		switch fd.Kind {
		case "str":
			switch {
			case fd.JSON == "eventAction" && chance(g.t, "std", 70):
				v = pick(g.t, "act", eventActions...)
			case fd.JSON == "objectClassName":
				v = name
			default:
				v = g.value(fd.JSON)
			}
		case "strs":
			if fd.JSON == "roles" && chance(g.t, "std", 70) {
				rs := []any{}
				for i := intn(g.t, "nr", 0, 2) + pick(g.t, "morer", 0, 0, 0, 0, 0, 0, 1, 4); i > 0; i-- {
					rs = append(rs, pick(g.t, "role", roleNames...))
				}
				v = rs
			} else {
				v = g.strs(fd.JSON)
			}
		case "bool":
			v = pick(g.t, "bool", true, false)
		case "u8", "u16", "u32", "u64":
			v = g.number(fd.Kind)
			if ns := numbers[fd.JSON]; ns != nil && !g.plain && chance(g.t, "vocn", 25) {
				v = rawNum(pick(g.t, "stdnum", ns...))
			}
		case "obj":
			v = g.object(fd.Ref, depth-1)
		case "objs":
			arr := []any{}
			for i := intn(g.t, "no", 0, 2+uni(g.t, "more", 2)); i > 0 && g.budget > 0; i-- {
				if g.corrupt > 0 && chance(g.t, "celem", g.corrupt) {
					g.hits++
					arr = append(arr, g.junk(1))
					continue
				}
				arr = append(arr, g.object(fd.Ref, depth-1))
			}
			if g.long > 0 && len(arr) > 0 && g.corrupt == 0 && chance(g.t, "longlist", 30) {
				// Many small members with distinct values.
				for i := g.long; i > 0; i-- {
					m := ord{}
					for _, f2 := range schemas[fd.Ref].Fields {
						if f2.Kind == "str" && f2.JSON != "objectClassName" && len(m) < 2 {
							g.n++
							m = append(m, kv{f2.JSON, f2.JSON[:1] + strconv.Itoa(g.n)})
						}
					}
					arr = append(arr, m)
				}
				g.long = 0
			}
			v = arr
		case "vcard":
			v = g.vcard()
		}
		out = append(out, kv{fd.JSON, v})
	}
	if g.unknown > 0 && chance(g.t, "unk", g.unknown) {
		out = g.addUnknown(out, s)
	}
	if len(out) > 1 && chance(g.t, "shuffle", 40) {
		out = permute(g.t, out)
	}
	if out == nil {
		out = ord{}
	}
	return out
}

// top makes a whole response of the class; the deciding members are in place.
func (g *docGen) top(class string) ord {
	o := g.object(class, 3)
	if g.deep > 0 && !g.noNested {
		o = g.addChain(class, o)
	}
	set := func(k string, v any) {
		for i := range o {
			if o[i].K == k {
				return
			}
		}
		o = append(ord{{k, v}}, o...)
	}
	switch class {
	case "domain", "autnum", "ip network", "entity", "nameserver":
		for i := range o {
			if o[i].K == "objectClassName" {
				o[i].V = class
			}
		}
		set("objectClassName", class)
	case "error":
		set("errorCode", rawNum("404"))
	case "domains":
		set("domainSearchResults", []any{})
	case "entities":
		set("entitySearchResults", []any{})
	case "nameservers":
		set("nameserverSearchResults", []any{})
	}
	return o
}

// addChain adds a member that is nested g.deep levels deep.
func (g *docGen) addChain(class string, o ord) ord {
	var at []fieldT
	for _, f := range schemas[class].Fields {
		switch f.Ref {
		case "entity", "domain", "nameserver", "ip network", "autnum":
			at = append(at, f)
		}
	}
	if len(at) == 0 {
		return o
	}
	fd := at[uni(g.t, "chain", len(at))]
	var build func(class string, level int) ord
	build = func(class string, level int) ord {
		g.budget, g.density = 3, 40
		if level <= 0 {
			return g.object(class, 1)
		}
		m := g.object(class, 0)
		var next []fieldT
		for _, f := range schemas[class].Fields {
			switch f.Ref {
			case "entity", "ip network", "autnum":
				next = append(next, f)
			}
		}
		f := next[uni(g.t, "link", len(next))]
		var v any = build(f.Ref, level-1)
		if f.Kind == "objs" {
			v = []any{v}
			if chance(g.t, "sibling", 20) {
				g.budget = 2
				v = append(v.([]any), g.object(f.Ref, 0))
			}
		}
		return append(m, kv{f.JSON, v})
	}
	inner := build(fd.Ref, g.deep-1)
	for i := range o {
		if o[i].K != fd.JSON {
			continue
		}
		if fd.Kind == "obj" {
			o[i].V = inner
		} else if l, ok := o[i].V.([]any); ok {
			o[i].V = append(l, inner)
		} else {
			o[i].V = []any{inner}
		}
		return o
	}
	if fd.Kind == "obj" {
		return append(o, kv{fd.JSON, inner})
	}
	return append(o, kv{fd.JSON, []any{inner}})
}

func newDocGen(t *rapid.T) *docGen {
	long, longStr, deep := 0, 0, 0
	if chance(t, "deep", 5) {
		deep = intn(t, "levels", 3, 14)
		if chance(t, "deeper", 8) {
			deep = intn(t, "deeperlevels", 15, 60)
		}
	}
	if chance(t, "size", 4) {
		long, longStr = intn(t, "longlen", 20, 400), pick(t, "longstr", 0, 80, 300, 1100, 5000, 70000)
		if chance(t, "longer", 4) {
			long = pick(t, "longerlen", 600, 1100, 2100, 4200)
		}
	}
	return &docGen{t: t, deep: deep, long: long, longStr: longStr, budget: pick(t, "budget", 12, 30, 60, 120), density: pick(t, "density", 15, 40, 70, 100), nested: true}
}

func (g *docGen) vcardProp() []any {
	name := pick(g.t, "vp", "fn", "adr", "tel", "email", "org", "version", "n", "kind", "title", "tel", "adr", "x-thing", "FN", "item1.tel", "work.fn", "adr.1", "email2", "")
	params := ord{}
	if name == "tel" {
		switch uni(g.t, "telp", 8) {
		case 6, 7:
			types := []any{}
			for i := intn(g.t, "ntt", 0, 4); i > 0; i-- {
				types = append(types, pick[any](g.t, "tt", "work", "home", "voice", "fax", "cell", "text", "Voice", "FAX", "pref", "main", ""))
			}
			params = ord{{"type", types}}
		case 0:
		case 1:
			params = ord{{"type", "voice"}}
		case 2:
			params = ord{{"type", "fax"}}
		case 3:
			params = ord{{"type", []any{"work", "voice"}}}
		case 4:
			params = ord{{"type", []any{"fax", "voice"}}, {"pref", "1"}}
		case 5:
			params = ord{{"type", []any{"cell"}}}
		}
	} else if chance(g.t, "params", 30) {
		params = ord{{"label", g.str("l")}}
		if chance(g.t, "ptype", 30) {
			params = append(params, kv{"type", []any{"home", g.str("p")}})
		}
	}
	if chance(g.t, "moreparams", 15) {
		// Other parameters: any name, several values, some of them equal.
		for i := intn(g.t, "nmp", 1, 3); i > 0; i-- {
			vals := []any{}
			for j := intn(g.t, "nmv", 0, 4); j > 0; j-- {
				vals = append(vals, pick[any](g.t, "mv", "a", "b", "a", "voice", "fax", "", g.str("m")))
			}
			params = append(params, kv{pick(g.t, "mpn", "pref", "PREF", "language", "Type", "altid", "cc", "x-y", "TYPE", "é", ""), single(vals, chance(g.t, "single", 40))})
		}
		params = dedupe(params)
	}
	if chance(g.t, "stdparams", 20) {
		// The usual parameters (RFC 6350) with their usual values.
		for i := intn(g.t, "nsp", 1, 2); i > 0; i-- {
			std := pick(g.t, "sp",
				kv{"pref", "1"}, kv{"pref", "1"}, kv{"pref", "2"}, kv{"pref", "100"}, kv{"pref", []any{"1"}},
				kv{"language", "en"}, kv{"language", "ja"}, kv{"altid", "1"}, kv{"altid", "2"}, kv{"cc", "US"}, kv{"value", "uri"}, kv{"value", "text"},
				kv{"label", "1 Main St\nTown"}, kv{"type", "home"}, kv{"type", "work"}, kv{"pid", "1.1"}, kv{"sort-as", "Z"}, kv{"mediatype", "text/plain"}, kv{"group", "g1"}, kv{"type", "pref"}, kv{"type", "internet"})
			params = append(params, std)
		}
		params = dedupe(params)
	}
	typ := pick(g.t, "vt", "text", "uri", "text", "date", "integer", "unknown")
	prop := []any{name, params, typ}
	if name == "adr" {
		n := pick(g.t, "adrn", 7, 7, 7, 5, 8, 1)
		if chance(g.t, "adrflat", 15) {
			return append(prop, g.str("A"))
		}
		fields := []any{}
		for i := 0; i < n; i++ {
			switch uni(g.t, "adrf", 6) {
			case 0:
				fields = append(fields, "")
			case 1:
				arr := []any{}
				for j := intn(g.t, "adral", 0, 3); j > 0; j-- {
					arr = append(arr, g.str("A"))
				}
				fields = append(fields, arr)
			case 2:
				fields = append(fields, pick[any](g.t, "adro", nil, true, rawNum("12"), rawNum("1.5"), "-"))
			default:
				fields = append(fields, g.str("A"))
			}
		}
		if chance(g.t, "adrmulti", 10) {
			return append(prop, fields...)
		}
		return append(prop, fields)
	}
	for i := 1 + uni(g.t, "nval", 6)/4; i > 0; i-- {
		switch uni(g.t, "val", 8) {
		case 0:
			prop = append(prop, pick[any](g.t, "scalar", nil, true, false, rawNum("42"), rawNum("1.25"), "",
				rawNum(pick(g.t, "vnum", "0", "-3", "-0.5", "1e21", "123456789", "9007199254740993", "0.1", "1e-7", "1e20", "4294967296", "100000000000000000000000"))))
		case 1:
			arr := []any{}
			for j := intn(g.t, "al", 0, 3); j > 0; j-- {
				if chance(g.t, "deep", 20) {
					arr = append(arr, []any{g.str("V"), g.str("W")})
				} else {
					arr = append(arr, g.str("V"))
				}
			}
			prop = append(prop, arr)
		default:
			if voc := cardWords[strings.ToLower(name)]; voc != nil && !g.plain && !g.evil && chance(g.t, "cvoc", 25) {
				prop = append(prop, pick(g.t, "cword", voc...))
			} else {
				prop = append(prop, g.str("V"))
			}
		}
	}
	return prop
}

// cardWords are values of real contacts.
var cardWords = map[string][]string{
	"fn":      {"Joe User", "REDACTED FOR PRIVACY", "Mr. J. Ångström, Jr.", "Example; Inc"},
	"tel":     {"tel:+1-555-555-1234;ext=102", "+1.5555551234", "tel:+15555551234", "tel:", "+44 20 7946 0000x5", "TEL:+1", "sip:x@example.com"},
	"email":   {"joe.user@example.com", "mailto:joe@example.com", "a+b@xn--fo-5ja.example", "REDACTED FOR PRIVACY", "https://example.com/contact"},
	"org":     {"Example", "Example, Inc.", "Example\\;Division", "Example;Division"},
	"version": {"4.0", "3.0"},
	"n":       {"User;Joe;;;"},
	"kind":    {"individual", "org", "group"},
	"title":   {"Research Scientist"},
}

func (g *docGen) vcard() any {
	props := []any{}
	n := intn(g.t, "nvp", 0, 5)
	if g.long > 0 && chance(g.t, "longcard", 30) {
		n, g.long = 20+g.long/10, 0
	}
	for i := n; i > 0; i-- {
		props = append(props, g.vcardProp())
	}
	return []any{"vcard", props}
}

// ---------------------------------------------------------------- reference decode

// refProp is a vCard property as the reference reads it.
type refProp struct {
	Name, Type string
	Params     map[string][]string
	Value      any
}

// refJCard reads a jCard; |open| reports structures this reference leaves
// undecided.
func refJCard(v any, lenient bool) (props []refProp, ok, open bool) {
	top, isArr := v.([]any)
	if !isArr || len(top) != 2 || top[0] != any("vcard") {
		return nil, false, false
	}
	list, isArr := top[1].([]any)
	if !isArr {
		return nil, false, false
	}
	props = []refProp{}
	for _, p := range list {
		a, isArr := p.([]any)
		bad := !isArr || len(a) < 4
		var rp refProp
		if !bad {
			var ok1, ok2, ok3 bool
			rp.Name, ok1 = a[0].(string)
			m, ok2 := a[1].(map[string]any)
			rp.Type, ok3 = a[2].(string)
			bad = !ok1 || !ok2 || !ok3
			rp.Params = map[string][]string{}
			for k, x := range m {
				switch y := x.(type) {
				case string:
					rp.Params[k] = []string{y}
				case []any:
					for _, z := range y {
						s, ok := z.(string)
						if !ok {
							open = true
						}
						rp.Params[k] = append(rp.Params[k], s)
					}
				default:
					open = true
				}
			}
			if !bad {
				if len(a) == 4 {
					rp.Value = a[3]
				} else {
					rp.Value = a[3:]
				}
				objs, deep := valueShape(rp.Value, 0)
				if objs {
					bad = true
				} else if deep > 3 {
					open = true
				}
			}
		}
		if bad {
			if !lenient {
				return nil, false, open
			}
			continue
		}
		props = append(props, rp)
	}
	return props, true, open
}

// valueShape: does the value hold an object, and how deep do arrays nest?
func valueShape(v any, depth int) (objs bool, deep int) {
	deep = depth
	switch x := v.(type) {
	case map[string]any:
		return true, depth
	case []any:
		deep = depth + 1
		for _, e := range x {
			o, d := valueShape(e, depth+1)
			objs = objs || o
			if d > deep {
				deep = d
			}
		}
	}
	return
}

func refFlatten(v any) []string {
	switch x := v.(type) {
	case nil:
		return []string{""}
	case bool:
		return []string{strconv.FormatBool(x)}
	case float64:
		return []string{strconv.FormatFloat(x, 'f', -1, 64)}
	case string:
		return []string{x}
	case []any:
		out := []string{}
		for _, e := range x {
			out = append(out, refFlatten(e)...)
		}
		return out
	}
	return nil
}

// refStr converts a JSON value to a string field.
func refStr(v any) (s string, ok, exact bool) {
	switch x := v.(type) {
	case string:
		return x, true, true
	case bool:
		return strconv.FormatBool(x), true, false
	case float64:
		return strconv.FormatFloat(x, 'f', -1, 64), true, false
	case nil:
		return "", true, false
	}
	return "", false, false
}

func refBool(v any) (b, ok, exact bool) {
	switch x := v.(type) {
	case bool:
		return x, true, true
	case float64:
		return x != 0, true, false
	case string:
		switch x {
		case "1", "t", "T", "true", "TRUE", "True":
			return true, true, false
		case "0", "f", "F", "false", "FALSE", "False":
			return false, true, false
		}
		return false, false, false
	}
	return false, false, false
}

var uintMax = map[string]float64{"u8": 255, "u16": 65535, "u32": 4294967295, "u64": 18446744073709551615}

func refUint(v any, kind string) (n uint64, ok, exact bool) {
	max := uint64(math.MaxUint64)
	if kind != "u64" {
		max = uint64(uintMax[kind])
	}
	switch x := v.(type) {
	case bool:
		if x {
			n = 1
		}
		return n, true, false
	case float64:
		tr := math.Trunc(x)
		if tr < 0 || tr >= 18446744073709551616 || (kind != "u64" && tr > uintMax[kind]) {
			return 0, false, false
		}
		return uint64(tr), true, tr == x
	case string:
		n, err := strconv.ParseUint(x, 10, 64)
		if err != nil || n > max {
			return 0, false, false
		}
		return n, true, false
	}
	return 0, false, false
}

// cmpOpts selects what cmpObject judges.
type cmpOpts struct {
	notes  bool
	data   bool
	values bool
}

func sortedKeys(m map[string]any) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// cmpObject compares a decoded struct with the JSON object it came from.
func cmpObject(path string, s *schemaT, m map[string]any, rv reflect.Value, op cmpOpts) error {
	for rv.Kind() == reflect.Pointer {
		if rv.IsNil() {
			return errf("%s: missing (nil)", path)
		}
		rv = rv.Elem()
	}
	if rv.Kind() != reflect.Struct {
		return errf("%s: is a %s", path, rv.Type())
	}
	ddv := rv.FieldByName("DecodeData")
	var dd *rdap.DecodeData
	if ddv.IsValid() {
		dd, _ = ddv.Interface().(*rdap.DecodeData)
	}
	noted := map[string]int{}
	note := func(name string, why string) error {
		if !op.notes {
			return nil
		}
		if dd == nil {
			return errf("%s: no decode data", path)
		}
		noted[name]++
		if n := len(dd.Notes(name)); n == 0 {
			return errf("%s.%s: %s without a note", path, name, why)
		} else if n < noted[name] {
			return errf("%s.%s: %d notes about at least %d values", path, name, n, noted[name])
		}
		for _, n := range dd.Notes(name) {
			if n == "" {
				return errf("%s.%s: empty note", path, name)
			}
		}
		return nil
	}
	if op.data {
		if dd == nil {
			return errf("%s: no decode data", path)
		}
		want := sortedKeys(m)
		got := append([]string{}, dd.Fields()...)
		sort.Strings(got)
		if !strEq(want, got) {
			return errf("%s: decode data lists the members %q, the document has %q", path, got, want)
		}
		var wantU []string
		for _, k := range want {
			if !reflect.DeepEqual(dd.Value(k), m[k]) {
				return errf("%s: decode data gives %#v for %q, the document has %#v", path, dd.Value(k), k, m[k])
			}
			if s.byJSON[k] == nil {
				wantU = append(wantU, k)
			}
		}
		gotU := append([]string{}, dd.UnknownFields()...)
		sort.Strings(gotU)
		if !strEq(wantU, gotU) {
			return errf("%s: unknown members %q, want %q", path, gotU, wantU)
		}
		if v := dd.Value("no such member \x01"); v != nil {
			return errf("%s: decode data has a value %v for a member that is not there", path, v)
		}
		if n := dd.Notes("no such member \x01"); len(n) != 0 {
			return errf("%s: notes for a member that is not there", path)
		}
	}
	for i := range s.Fields {
		fd := &s.Fields[i]
		fv := rv.FieldByName(fd.Go)
		if !fv.IsValid() {
			infra("no field %s in %s", fd.Go, rv.Type())
		}
		here := path + "." + fd.JSON
		v, present := m[fd.JSON]
		if !present {
			if op.values && !isEmpty(fv) {
				return errf("%s: not in the document, but the field %s is %v", here, fd.Go, show(fv))
			}
			if dd != nil && len(dd.Notes(fd.JSON)) > 0 {
				return errf("%s: a note about a member which is not in the document", here)
			}
			continue
		}
		var err error
		switch fd.Kind {
		case "str":
			want, ok, exact := refStr(v)
			if op.values && fv.String() != want {
				err = errf("%s: field %s is %q, want %q", here, fd.Go, fv.String(), want)
			} else if !exact {
				err = note(fd.JSON, converted(ok))
			}
		case "strs":
			err = cmpStrs(here, fd, v, fv, op, note)
		case "bool":
			want, ok, exact := refBool(v)
			if v == nil {
				if !fv.IsNil() && fv.Elem().Bool() {
					err = errf("%s: null became true", here)
				}
			} else if op.values && fv.IsNil() == ok {
				err = errf("%s: field %s is %s, want %v (%v)", here, fd.Go, show(fv), want, ok)
			} else if op.values && ok && fv.Elem().Bool() != want {
				err = errf("%s: field %s is %v, want %v", here, fd.Go, show(fv), want)
			}
			if err == nil && !exact {
				err = note(fd.JSON, converted(ok))
			}
		case "u8", "u16", "u32", "u64":
			want, ok, exact := refUint(v, fd.Kind)
			if v == nil {
				if !fv.IsNil() && fv.Elem().Uint() != 0 {
					err = errf("%s: null became %s", here, show(fv))
				}
			} else if op.values && fv.IsNil() == ok {
				err = errf("%s: field %s is %s, want %v (%v)", here, fd.Go, show(fv), want, ok)
			} else if op.values && ok && fv.Elem().Uint() != want {
				err = errf("%s: field %s is %v, want %v", here, fd.Go, show(fv), want)
			}
			if err == nil && !exact {
				err = note(fd.JSON, converted(ok))
			}
		case "obj":
			sub, ok := v.(map[string]any)
			if !ok {
				if op.values && !fv.IsNil() {
					err = errf("%s: is %v in the document, but the field %s is set", here, v, fd.Go)
				} else {
					err = note(fd.JSON, "not decoded")
				}
			} else {
				err = cmpObject(here, schemas[fd.Ref], sub, fv, op)
			}
		case "objs":
			arr, ok := v.([]any)
			if !ok {
				if op.values && fv.Len() != 0 {
					err = errf("%s: is %v in the document, but the field %s has %d elements", here, v, fd.Go, fv.Len())
				} else {
					err = note(fd.JSON, "not decoded")
				}
				break
			}
			var objs []map[string]any
			for _, e := range arr {
				if sub, ok := e.(map[string]any); ok {
					objs = append(objs, sub)
				} else if e2 := note(fd.JSON, "an element not decoded"); e2 != nil {
					err = e2
				}
			}
			if err == nil && fv.Len() != len(objs) {
				err = errf("%s: field %s has %d elements, want %d", here, fd.Go, fv.Len(), len(objs))
			}
			for j := 0; err == nil && j < len(objs); j++ {
				err = cmpObject(fmt.Sprintf("%s[%d]", here, j), schemas[fd.Ref], objs[j], fv.Index(j), op)
			}
		case "vcard":
			props, ok, open := refJCard(v, false)
			if open {
				break
			}
			vc, _ := fv.Interface().(*rdap.VCard)
			if (vc != nil) != ok {
				err = errf("%s: vCard decoded: %v, want %v", here, vc != nil, ok)
			} else if ok {
				err = cmpVCard(here, vc, props)
			} else {
				err = note(fd.JSON, "not decoded")
			}
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func converted(ok bool) string {
	if ok {
		return "converted"
	}
	return "not decoded"
}

func cmpStrs(here string, fd *fieldT, v any, fv reflect.Value, op cmpOpts, note func(string, string) error) error {
	arr, ok := v.([]any)
	if !ok {
		if op.values && fv.Len() != 0 {
			return errf("%s: is %v in the document, but the field %s has %d elements", here, v, fd.Go, fv.Len())
		}
		return note(fd.JSON, "not decoded")
	}
	var want []string
	for _, e := range arr {
		s, ok, exact := refStr(e)
		if ok {
			want = append(want, s)
		}
		if !exact {
			if err := note(fd.JSON, "an element "+converted(ok)); err != nil {
				return err
			}
		}
	}
	got, _ := fv.Interface().([]string)
	if op.values && !strEq(got, want) {
		return errf("%s: field %s is %q, want %q", here, fd.Go, got, want)
	}
	return nil
}

func cmpVCard(here string, vc *rdap.VCard, props []refProp) error {
	if len(vc.Properties) != len(props) {
		return errf("%s: %d vCard properties, want %d", here, len(vc.Properties), len(props))
	}
	for i, p := range props {
		g := vc.Properties[i]
		if g == nil {
			return errf("%s: property %d is nil", here, i)
		}
		if g.Name != p.Name || g.Type != p.Type {
			return errf("%s: property %d is %q type %q, want %q type %q", here, i, g.Name, g.Type, p.Name, p.Type)
		}
		if len(g.Parameters) != len(p.Params) {
			// An empty list of values may be left out.
			for k, v := range p.Params {
				if len(v) > 0 && g.Parameters[k] == nil {
					return errf("%s: property %d has the parameters %v, want %v", here, i, g.Parameters, p.Params)
				}
			}
		}
		for k, v := range g.Parameters {
			if !strEq(v, p.Params[k]) {
				return errf("%s: property %d parameter %q is %q, want %q", here, i, k, v, p.Params[k])
			}
		}
		for k, v := range p.Params {
			if !strEq(v, g.Parameters[k]) {
				return errf("%s: property %d parameter %q is %q, want %q", here, i, k, g.Parameters[k], v)
			}
		}
		if !reflect.DeepEqual(g.Value, p.Value) && fmt.Sprintf("%#v", g.Value) != fmt.Sprintf("%#v", p.Value) {
			return errf("%s: property %d value %#v, want %#v", here, i, g.Value, p.Value)
		}
		if !strEq(g.Values(), refFlatten(p.Value)) {
			return errf("%s: property %d Values() %q, want %q", here, i, g.Values(), refFlatten(p.Value))
		}
	}
	return nil
}

func isEmpty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice, reflect.Map:
		return v.Len() == 0
	}
	return v.IsZero()
}

func show(v reflect.Value) string {
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return "nil"
		}
		v = v.Elem()
	}
	return head(fmt.Sprintf("%+v", v.Interface()), 200)
}

// refTop decides the class of a document, as documented; "" means an error.
func refTop(m map[string]any) string {
	if _, ok := m["errorCode"]; ok {
		return "error"
	}
	if c, ok := m["objectClassName"]; ok {
		s, _ := c.(string)
		switch s {
		case "autnum", "domain", "entity", "ip network", "nameserver":
			return s
		}
		return ""
	}
	for _, x := range [][2]string{{"domainSearchResults", "domains"}, {"entitySearchResults", "entities"}, {"nameserverSearchResults", "nameservers"}} {
		if _, ok := m[x[0]]; ok {
			return x[1]
		}
	}
	return "help"
}

func genericDecode(doc string) (map[string]any, error) {
	var m map[string]any
	err := json.Unmarshal([]byte(doc), &m)
	return m, err
}

func genericAny(doc string) (any, error) {
	var v any
	err := json.Unmarshal([]byte(doc), &v)
	return v, err
}
