#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Run by hand after editing; no check uses it."""
import json, os, subprocess, re
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None, level="exploration"):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a},
      technique, note, level))

BASE_NOTE = "Random/structured search over generated cases, judged by an oracle written from the documentation, not from the code; a pass says the property held on every case generated in the run. "

# ------------------------------------------------------------ bootstrap registries
prop("C01", "Domain lookups return the longest matching DNS registry entry",
 "For every DNS Service Registry and every domain name, a bootstrap lookup returns the registry entry that is the longest whole-label suffix of the name (ASCII case and one trailing dot ignored), together with exactly that entry's URLs in the order they were published. It never matches part of a label, and with no matching entry it returns no entry and no URLs; only an entry for the root (\"\") matches everything.",
 ["inputs"], "all well-formed DNS registries (any number of services, entries of any depth, any order) and all domain names",
 "The tests look up eight fixed names in one recorded registry; label-boundary, depth, ordering and case combinations are unbounded.",
 ["bootstrap/dns_registry.go", "bootstrap/file.go", "bootstrap/client.go"],
 [("suffix search over labels", "bootstrap/dns_registry.go: DNSRegistry.Lookup")],
 "property-based testing, reference model", BASE_NOTE + "Entries are distinct after lower-casing, as in IANA's file.")
prop("C02", "IP lookups return the most specific enclosing network",
 "For every IPv4/IPv6 Service Registry and every IP address or CIDR network, a bootstrap lookup returns the published network with the longest prefix that contains all of the queried addresses, with exactly that network's URLs in published order. If no published network contains the whole query, no entry and no URLs are returned, and a query that is not an IP address or network is an error.",
 ["inputs"], "all registries of distinct networks (nested, adjacent, disjoint, all prefix lengths) and all addresses and networks, IPv4 and IPv6",
 "The tests query a dozen fixed addresses in two recorded files; nesting, boundary addresses and prefix lengths are unbounded.",
 ["bootstrap/net_registry.go", "bootstrap/file.go"],
 [("search by decreasing mask size, sorted networks per mask", "bootstrap/net_registry.go: NetRegistry.Lookup")],
 "property-based testing, brute-force reference model", BASE_NOTE + "IPv4-mapped IPv6 queries are left out.")
prop("C03", "AS number lookups return the AS range containing the number",
 "For every AS number Service Registry of non-overlapping ranges and every 32-bit AS number, written plainly or with an AS/as prefix, a bootstrap lookup returns the range that contains it (both ends included, and written in either order) and exactly that range's URLs in published order. A number in no range matches nothing, and a query which is not an AS number is an error.",
 ["inputs"], "all registries of disjoint ASN ranges, including single numbers and the extremes 0 and 4294967295, in any order, and all query strings",
 "The tests use a handful of numbers in one recorded file; range boundaries, gaps and orderings are unbounded.",
 ["bootstrap/asn_registry.go", "bootstrap/file.go"],
 [("sorted ranges and binary search", "bootstrap/asn_registry.go: ASNRegistry.Lookup, parseASN, parseASNRange")],
 "property-based testing, linear-scan reference model", BASE_NOTE)
prop("C04", "Entity lookups match the registered service tag exactly",
 "For every Object Tags registry and every entity handle, the bootstrap lookup uses the text after the last '-' (or '~') as the service tag and returns the registered tag equal to it, with exactly its URLs in published order. A handle with no tag, or with a tag that is not registered exactly so, matches nothing; this is not an error.",
 ["inputs"], "all object-tag registries and all handles",
 "The tests look up four handles; separators, cases and near-miss tags are unbounded.",
 ["bootstrap/service_provider_registry.go", "bootstrap/file.go"],
 [("tag extraction and map lookup", "bootstrap/service_provider_registry.go: ServiceProviderRegistry.Lookup")],
 "property-based testing, reference model", BASE_NOTE)
prop("C05", "Registry files are accepted whole or rejected, never misread",
 "Parsing a Service Registry file of any of the five types either yields exactly the published entries, with their URLs in order (unparsable URLs left out), description, version, publication date and the document itself, or returns an error. Malformed documents (bad JSON, wrong shapes) are rejected with an error and never crash, hang or produce a registry with other content; entries that are not of the registry's kind never match a query.",
 ["inputs"], "all byte strings, well-formed registries and structured corruptions of them, for all five registry types",
 "The tests parse one good file per type plus one or two bad ones; malformed shapes are unbounded.",
 ["bootstrap/file.go", "bootstrap/dns_registry.go", "bootstrap/net_registry.go", "bootstrap/asn_registry.go", "bootstrap/service_provider_registry.go"],
 [("JSON decode and shape validation", "bootstrap/file.go: NewFile; constructors New*Registry")],
 "property-based testing and mutation fuzzing of registry documents", BASE_NOTE)
prop("C06", "Fresh registries are reused, expired ones are downloaded again",
 "Over every history of lookups, downloads, restarts, ageing and publication by any number of bootstrap clients sharing a cache directory, a registry younger than the cache timeout is answered from without any network request, and one older than the timeout (or never fetched, deleted or unreadable) is downloaded again exactly once before it is used. A lookup therefore never answers from a registry version older than the timeout when a newer one can be downloaded.",
 ["histories", "configurations"], "all interleavings of lookup, download, publish, age, restart, delete and corrupt operations over memory and disk caches with any timeout",
 "The tests check two fixed sequences with default caches; expiry, restarts and shared cache directories multiply into unbounded histories.",
 ["bootstrap/client.go", "bootstrap/cache/disk_cache.go", "bootstrap/cache/memory_cache.go", "bootstrap/cache/registry_cache.go"],
 [("cache state machine and reload", "bootstrap/client.go: Client.Lookup, freshenFromCache, reloadFromCache; cache State()")],
 "stateful model-based testing over client/cache histories", BASE_NOTE + "Age is simulated by moving cache file times and timeouts, with minutes of margin.",
 state=[("registries", "parsed registry files held in memory", "bootstrap/client.go: Client.registries")])
prop("C07", "A failed registry download never damages what was known",
 "When a registry download fails in any way (connection error, error status, truncated body, invalid JSON, invalid registry content, cache save failure, cancelled context) the lookup or download that needed it reports an error and the in-memory registry and the cached file are left as they were. The failure is not remembered: once the server works again the next lookup or download succeeds with the current registry.",
 ["fault_sequences", "histories"], "all placements of the listed faults in histories of lookups, downloads, ageing and restarts",
 "No test injects a download fault other than one bad URL; fault kinds, positions and recoveries are unbounded.",
 ["bootstrap/client.go", "bootstrap/cache/disk_cache.go"],
 [("parse before save", "bootstrap/client.go: DownloadWithContext, download")],
 "stateful model-based testing with fault injection", BASE_NOTE, level="fault_enumeration")
prop("C08", "Each registry type is fetched, cached and answered separately",
 "Every lookup or download concerns exactly one registry: it fetches only that registry's file, relative to the configured base URL, and stores it under that base URL's own cache entry. Answers and cached files of one registry type or base URL are never used for, or overwritten by, another, and the Answer echoes the query that was asked.",
 ["inputs", "histories", "configurations"], "all sequences of lookups over the five registry types and several base URLs sharing one cache, the base URL of a client changing between calls included",
 "The tests use one base URL and mostly one registry at a time; cross-talk needs mixed sequences.",
 ["bootstrap/client.go"],
 [("file names per registry type and base URL hash", "bootstrap/client.go: filenameFor, download")],
 "stateful model-based testing", BASE_NOTE)
prop("C09", "The registry cache reports and returns what was stored",
 "For every sequence of saves, loads, state queries, ageing and external deletions on the memory and disk caches, Load returns the bytes of the last successful Save of that name, and State is absent before anything is stored, expired once older than the timeout, reload when the stored file is newer than what this cache instance last saved or loaded, and good otherwise. Changing the cache directory or timeout takes effect for the next operation, and the disk cache only touches files in its own directory.",
 ["histories", "configurations"], "all operation sequences over two cache instances, names, timeouts and file times",
 "The tests run two fixed sequences with sleeps; interleavings of instances and file times are unbounded.",
 ["bootstrap/cache/disk_cache.go", "bootstrap/cache/memory_cache.go"],
 [("mtime bookkeeping", "bootstrap/cache/disk_cache.go: DiskCache.State, Load, Save, modTime")],
 "stateful model-based testing", BASE_NOTE)
prop("C10", "A damaged cached registry is replaced, never used",
 "Whatever bytes a crash, a full disk or another program left in a cached registry file (a truncation at any length, an empty file, other content), the next bootstrap lookup gives the correct answer after downloading that registry again, or an error when it cannot be downloaded. It never crashes and never answers from the damaged data, and the cache is intact afterwards.",
 ["crash_points", "inputs"], "all truncation points and corruptions of cached registry files of the five types",
 "The tests never start from a damaged cache file; crash points are as many as there are bytes written.",
 ["bootstrap/client.go", "bootstrap/cache/disk_cache.go"],
 [("fallback from cache parse error to download", "bootstrap/client.go: Lookup, reloadFromCache")],
 "enumerated truncation points plus generated corruptions", BASE_NOTE + "Truncation points of a registry file per type are enumerated completely.", level="fault_enumeration")

# ------------------------------------------------------------ requests
prop("C11", "Request URLs carry exactly the query and nothing else",
 "For every request type, query text and server URL, the request URL has the server's scheme, credentials, host and base path, followed by exactly the RDAP path of that type, in which the query text appears percent-encoded so that decoding gives the query back byte for byte (searches: as the value of the documented parameter). No query text can reach another host, path segment, parameter or fragment (only IP queries keep '/' as the prefix-length separator).",
 ["inputs"], "all query byte strings, request types and server URLs",
 "The tests compare about twenty literal URLs; query bytes that need escaping and server URL shapes are unbounded.",
 ["request.go", "client.go"],
 [("percent-encoding and path construction", "request.go: escapePath, pathAndValues, URL")],
 "property-based testing, decode round-trip oracle", BASE_NOTE)
prop("C12", "Building a request URL is pure and keeps all parameters",
 "Asking a request for its URL never changes the request, its server URL or its parameters, gives the same result every time, and returns a URL the caller may modify freely. The URL's parameters are the server URL's own, overridden by the request's, overridden by those of the query itself; the fragment is kept, a raw request's URL is the server URL unmodified, and a request without server has no URL.",
 ["inputs", "histories"], "all server URLs with query strings and fragments, parameter sets, request types and call sequences, including copies made with WithServer/WithContext",
 "The tests build each URL once and compare the text; aliasing and repeated calls are not exercised.",
 ["request.go"],
 [("copy of the server URL", "request.go: Request.URL, WithServer, WithContext")],
 "property-based testing, metamorphic and invariant oracle", BASE_NOTE)
prop("C13", "Query text is classified as documented",
 "For every query text, the automatic request type follows the documented order: http(s) URLs with a path are fetched as they are, http(s) URLs without path become a domain query for the host, IP addresses and networks become IP queries for the same address or network, AS numbers (optional AS prefix, up to 32 bits) become autnum queries for the same number, other text with a dot is a domain query, and everything else is an entity query, both with the text unchanged.",
 ["inputs"], "all query strings",
 "The tests classify fourteen strings; near misses of each class are unbounded.",
 ["request.go"],
 [("ordered guesses", "request.go: NewAutoRequest, parseAutnum")],
 "property-based testing, constructive oracle", BASE_NOTE)

# ------------------------------------------------------------ client
prop("C14", "RDAP servers are tried in order until one gives a usable answer",
 "For every list of servers and every combination of outcomes, a query contacts the servers in the order given by the registry, one request each (HTTP redirects are followed), moving on after a connection error, an interrupted body, an error status, an empty or an undecodable body. It stops at the first 2xx response that decodes (that object is the result) or at the first 404 (an object-does-not-exist error); when all have failed it reports no working servers, and the response lists every attempt with its URL, status, body and error.",
 ["fault_sequences", "configurations"], "all server lists up to eight servers with all combinations of listed outcomes",
 "The tests use single-server cases; failover combinations are exponential in the number of servers.",
 ["client.go", "response.go"],
 [("failover loop", "client.go: Client.Do, get")],
 "property-based testing with injected server faults, reference model", BASE_NOTE, level="fault_enumeration")
prop("C15", "Every client failure is reported as the right kind of error",
 "For every request and server behaviour the client returns either a response object or an error of the documented kind: nil request, query type that cannot be bootstrapped (no network traffic), no matching registry entry, no working server, object does not exist, and for the typed helpers an RDAP server error naming its code, title and description, or a wrong-response-type error. The typed helpers return an object only if the server answered with that very type.",
 ["inputs", "fault_sequences"], "all request types, helper functions and server answers of every RDAP class, errors and HTTP statuses",
 "The tests check a few error types with recorded responses; helper x answer-class x status combinations are not covered.",
 ["client.go", "client_error.go"],
 [("error classification", "client.go: Do, QueryDomain, QueryAutnum, QueryIP; client_error.go")],
 "property-based testing, reference model", BASE_NOTE)
prop("C16", "Timeouts and cancellation bound every network operation",
 "Every HTTP request made for a query, including registry downloads, carries a deadline no later than the earlier of the query's timeout (30 seconds for the typed helpers, -T for the command line tool) and its context's deadline; the time is counted over the whole query, and with neither there is no deadline. When the deadline passes or the context is cancelled while a server stalls, the query returns an error promptly instead of waiting for the server.",
 ["schedules", "configurations"], "all timeouts and context deadlines, stalls at bootstrap, connection and body of any server in the list",
 "The tests never set a timeout nor a stalling server.",
 ["client.go", "request.go", "cli.go", "bootstrap/client.go"],
 [("context deadline", "client.go: Do, doQuickRequest; bootstrap/client.go: Lookup, download; cli.go: RunCLI timeout")],
 "property-based testing with instrumented transports and stalled servers", BASE_NOTE + "Promptness is judged with a margin of many seconds, so that a loaded machine raises no alarm.")
prop("C17", "Queries go to the authoritative server, or the one the caller chose",
 "For every request without a server, the one registry of its kind (domain, IPv4 or IPv6, autnum, entity) is consulted and the RDAP requests go exactly to the servers it lists for that query; for a request with a server, no registry is consulted and only that server is contacted. QueryAutnum asks for the plain number, whatever AS prefix the caller wrote. Each RDAP request is a GET with the RDAP Accept header and the configured User-Agent.",
 ["inputs", "configurations"], "all request types and queries, with and without server, over all registries",
 "The tests cover one bootstrapped domain query; the dispatch over types and query forms is not covered.",
 ["client.go", "bootstrap/client.go"],
 [("registry choice", "client.go: bootstrapTypeFor, Do"), ("headers", "client.go: get")],
 "property-based testing with a recording transport", BASE_NOTE)

# ------------------------------------------------------------ decoder
prop("C18", "Responses decode to the RDAP type they declare",
 "A JSON object decodes to exactly one of the documented top-level types: an error if it has an error code, else the type named by its object class, else a domain, entity or nameserver search result by its result member, else a help response; the choice does not depend on member order or on other members. An object class that is unknown or not a string, a document that is not a JSON object, and invalid JSON are errors and give no object (the document null is left open).",
 ["inputs"], "all JSON objects with any combination of the deciding members in any order and with any values",
 "The tests decode about ten recorded documents; combinations of deciding members are not covered.",
 ["decoder.go"],
 [("choice of the top level type", "decoder.go: Decoder.Decode, decodeTopLevel")],
 "property-based testing, reference model", BASE_NOTE)
prop("C19", "No information in a well-formed response is lost or misplaced",
 "For every well-formed RDAP response, each documented member at every nesting level appears in the decoded object's corresponding field with the same value, lists keep length and order, absent members leave fields empty (nil for optional values), and vCards are parsed.",
 ["inputs"], "all well-formed domain, nameserver, entity, autnum, IP network, help, error and search responses, with any subset of members and nesting",
 "The tests spot-check selected fields of recorded documents; most of the roughly 150 field mappings and all nestings are unchecked.",
 ["decoder.go", "common.go", "domain.go", "entity.go", "nameserver.go", "autnum.go", "ipnetwork.go", "error.go", "help.go", "search_results.go"],
 [("reflection driven decoding by struct tag", "decoder.go: decodeStruct, decodeSlice, decodeMap, decodePtr, ...")],
 "property-based testing against an independent schema table", BASE_NOTE)
prop("C20", "One malformed member never spoils the rest of a response",
 "A member whose value has the wrong type or is out of range is converted when a faithful conversion is documented (strings, numbers and booleans, null as empty) and otherwise left empty (list elements: left out), with a note about each such value in the object's decode data; all other members decode as if the malformed one were absent. No value that is not in the document ever appears in a field.",
 ["inputs"], "all well-formed responses with any number of members replaced by any JSON value",
 "The tests cover about forty literal conversions of single fields; positions, kinds and combinations are unbounded.",
 ["decoder.go", "decode_data.go"],
 [("lenient conversions and notes", "decoder.go: decodeString, decodeBool, decodeUint, decodeInt, decodeFloat64, addDecodeNote")],
 "property-based testing with a conversion model", BASE_NOTE)
prop("C21", "Unknown members stay available in the decode data",
 "At every level of a decoded response, the decode data lists exactly the members that were present, returns the original JSON value of each, known or unknown, and lists as unknown exactly those that RDAP fields do not cover.",
 ["inputs"], "all responses with unknown members and extensions added at any nesting level",
 "The tests check one object with three unknown members at top level.",
 ["decoder.go", "decode_data.go"],
 [("DecodeData population", "decoder.go: decodeStruct; decode_data.go: Fields, Value, UnknownFields")],
 "property-based testing, comparison with a generic JSON decode", BASE_NOTE)
prop("C22", "No response can crash or hang the client",
 "Whatever bytes a server sends, decoding ends with an object or an error, and an object that was returned can be printed and converted to WHOIS style without crashing or hanging. Replies that misbehave at the HTTP level (endless redirects, malformed or cut replies) end a query with an object or an error as well, after a bounded number of requests. The outcome of decoding is a function of the bytes alone and the input is never modified.",
 ["inputs"], "all byte strings: random bytes, mutated RDAP documents, arbitrary and deeply nested JSON, invalid UTF-8; arbitrary HTTP replies and redirects",
 "The tests use about forty well-formed documents and a few malformed ones.",
 ["decoder.go", "vcard.go", "print.go", "response.go"],
 [("type checks before every conversion", "decoder.go, vcard.go, print.go")],
 "structure-aware mutation fuzzing with crash, hang and determinism oracles", BASE_NOTE)
prop("C23", "Independent uses run concurrently without interference",
 "Decoders, printers, WHOIS conversions, registry lookups on a shared registry, URL construction on a shared server URL, separate clients and runs of the tool (RunCLI) can happen at the same time from several goroutines, without data races and with the results they give when run one after another.",
 ["schedules", "inputs"], "all interleavings of the listed operations in 2..8 goroutines",
 "The tests run single-threaded and without the race detector.",
 ["decoder.go", "print.go", "request.go", "bootstrap/net_registry.go", "bootstrap/asn_registry.go", "bootstrap/dns_registry.go"],
 [("no shared mutable state", "package wide")],
 "generated concurrent histories under the race detector, sequential result as oracle", BASE_NOTE + "The race detector reports only races on executed schedules.")
prop("C24", "vCards are parsed completely or rejected",
 "For every jCard document, parsing returns all properties in order with names, parameters, types and values exactly as given, or an error if the document is not a jCard; parsing in lenient mode returns the same for every valid jCard and otherwise drops only the malformed properties. Looking up properties by name finds all of them, in order, without regard to anything else.",
 ["inputs"], "all jCard documents, valid and with any structural corruption, strict and lenient",
 "The tests parse two fixtures and six broken ones.",
 ["vcard.go"],
 [("jCard structure checks", "vcard.go: newVCardImpl, NewVCard, NewVCardWithOptions, Get, GetFirst")],
 "property-based testing, reference parser", BASE_NOTE)
prop("C25", "vCard accessors return the right part of the contact",
 "For every vCard, the name, address parts, telephone, fax, email and organisation accessors return the corresponding component of the first matching property (arrays joined by space, telephone and fax chosen by type), or the empty string when there is none. The address always has its seven components in the order of the vCard standard, whatever shape the neighbouring components have.",
 ["inputs"], "all valid jCards, with any types, parameter shapes, nested arrays and missing parts",
 "The tests read one contact card.",
 ["vcard.go"],
 [("accessors", "vcard.go: Name, POBox ... Email, getFirstAddressField, getFirstPropertySingleString")],
 "property-based testing, reference model", BASE_NOTE)

# ------------------------------------------------------------ output
prop("C26", "Text output shows every decoded field under its label",
 "For every decoded response, the text output contains every non-empty field at every nesting level as one 'label: value' line with the documented label, indented under its parent object in the order of the response, and contains no line that does not come from the response.",
 ["inputs"], "all responses of all types with any subset of members, unknown members and nesting",
 "The tests print two recorded domains and compare nothing or one golden file.",
 ["print.go"],
 [("printer methods per type", "print.go: Printer.print*")],
 "property-based testing against an independent output model", BASE_NOTE)
prop("C27", "Response text cannot forge output lines",
 "Whatever strings a server puts into a response (line feeds, carriage returns, NULs in particular), each value stays inside its own line of the text and WHOIS outputs, in library and command line tool alike, so that a response can never add or split lines or keys of the output.",
 ["inputs"], "all responses with control characters in any member, member name, vCard value or error text",
 "No test prints hostile text.",
 ["print.go", "cli.go", "response.go"],
 [("neutralisation of control characters", "print.go: cleanString; cli.go: safePrint")],
 "metamorphic property-based testing (hostile versus harmless text)", BASE_NOTE)
prop("C28", "Printer options remove exactly what they name",
 "Each printer option changes the output in the documented way only: omitting notices or remarks removes exactly those blocks, brief output leaves out exactly the conformance, notices, remarks, events, port 43, variants and secure DNS data (and may leave out objects nested in entities), brief links leave only the link address, and indentation uses the configured character and width. All other lines remain, with the same text and order. A printer without a writer prints to standard output.",
 ["inputs", "configurations"], "all responses and all combinations of options",
 "The tests never set an option.",
 ["print.go"],
 [("option checks", "print.go: Printer fields BriefOutput, BriefLinks, OmitNotices, OmitRemarks, IndentSize, IndentChar")],
 "metamorphic property-based testing over option combinations", BASE_NOTE)
prop("C29", "WHOIS output reports the domain's own data",
 "For every domain response the WHOIS style conversion gives the domain's name, handle, WHOIS server, dates by event, registrar, statuses, contacts by role and nameservers, each from the first matching member and in response order, under the documented keys and with no empty values; every key appears once in the display order. Other response types give no fields.",
 ["inputs"], "all domain responses with any events, entities, roles, vCards and nameservers",
 "The tests convert one recorded domain.",
 ["response.go", "vcard.go", "cli.go"],
 [("field selection", "response.go: ToWhoisStyleResponse, addEntityFields, findFirstEntity")],
 "property-based testing, reference model", BASE_NOTE)
prop("C30", "The tool prints the successful answer and exits accordingly",
 "For every query and server behaviour, the command line tool exits 0 and prints the answer of the server that succeeded in the chosen format (text, WHOIS, pretty JSON, raw bytes), or exits non-zero with a message on standard error and nothing on standard output. It does not exit 0 when its output could not be written. Verbose mode only adds to standard error.",
 ["inputs", "fault_sequences", "configurations"], "all output options, query types, server lists and failures",
 "The tests run the tool on two fixed command lines.",
 ["cli.go", "cmd/rdap/main.go", "client.go"],
 [("output selection", "cli.go: RunCLI, printing section")],
 "property-based testing of the CLI against loopback servers", BASE_NOTE)
prop("C31", "Command line arguments map to the documented request",
 "For every combination of the type (with aliases), server and query options, the tool sends the request documented for that type and query to the chosen server, and sends nothing and exits non-zero for arguments it cannot use (unknown option or type, bad server URL, missing query). No argument makes it crash.",
 ["inputs", "configurations"], "all argument vectors",
 "The tests run two argument vectors.",
 ["cli.go"],
 [("argument handling", "cli.go: RunCLI")],
 "property-based testing of the CLI with a recording loopback server", BASE_NOTE)
prop("C32", "Sandbox mode never reads or writes the user's files",
 "In sandbox mode, no argument vector makes the tool read or write any file outside the built-in sandbox: it uses no cache directory but the default one, reads no certificate, key or PKCS#12 file by path, and (when the embedding program switched the sandbox on) expands no @file argument. The built-in sandbox files load wherever the program runs, and no other name is taken for one of them.",
 ["inputs", "configurations"], "all argument vectors in sandbox mode",
 "No test runs sandbox mode.",
 ["cli.go", "sandbox/file.go"],
 [("sandbox checks", "cli.go: CLIOptions.Sandbox; sandbox/file.go: LoadFile")],
 "property-based testing with canary files and recorded system effects", BASE_NOTE)
prop("C33", "Bootstrap options of the tool are honoured across runs",
 "Over every sequence of runs, the tool downloads registries only from the configured registry URL, keeps them only in the configured cache directory (none when disabled; the user's default otherwise), reuses them within the configured lifetime and downloads them again after it.",
 ["histories", "configurations"], "all sequences of runs with cache directory, registry URL and lifetime options, ageing between runs",
 "No test sets any of these options.",
 ["cli.go", "bootstrap/client.go", "bootstrap/cache/disk_cache.go"],
 [("option handling", "cli.go: --cache-dir, --bs-url, --bs-ttl")],
 "stateful model-based testing of CLI runs", BASE_NOTE)
prop("C34", "HTTPS servers are authenticated unless the user opts out",
 "Without --insecure, the tool accepts an HTTPS server only with a currently valid certificate for its host name from a trusted authority, for RDAP and registry requests, and otherwise fails without sending the query; with --insecure it accepts any certificate. Client certificates are presented exactly when configured, and unusable certificate, key or password arguments are errors before any request.",
 ["configurations", "inputs"], "all combinations of server certificate defects, trust, --insecure and client certificate options",
 "The tests use no TLS.",
 ["cli.go"],
 [("TLS configuration", "cli.go: tls.Config, loading of --cert/--key/--p12")],
 "property-based testing with generated certificates on loopback TLS servers", BASE_NOTE)
prop("C35", "Decoding, printing and conversion have no side effects",
 "Decoding the same document again gives an equal object, printing or converting the same object again gives the same output, and neither changes the object, the document it came from, nor any later result. Option defaults are not carried from one printer or decoder to another.",
 ["inputs", "histories"], "all documents and sequences of decode, print and convert operations on shared inputs",
 "The tests perform every operation once.",
 ["decoder.go", "print.go", "response.go", "vcard.go"],
 [("no mutation of inputs, no iteration-order dependence", "decoder.go: decodeStruct; print.go: Printer.Print")],
 "property-based testing, metamorphic repetition", BASE_NOTE)
prop("C36", "Queries on one client do not influence each other",
 "For every history of queries on one client, successful, failed, timed out or cancelled, each query gives the object, error, attempts and HTTP requests that a fresh client holding the same registries would give: nothing but the registries is remembered. A query never changes the request object it was given, which can be used again, nor any response returned before.",
 ["histories", "inputs"], "all sequences of queries on one client with all combinations of request types, reused requests, server outcomes and registry failures",
 "The tests make one query per client.",
 ["client.go", "request.go", "bootstrap/client.go"],
 [("per-query state only", "client.go: Client.Do, Client.get; request.go: WithServer, WithContext")],
 "stateful property-based testing, differential against a fresh client", BASE_NOTE)
prop("C37", "Queries give back every resource they used",
 "When a query, typed helper, registry lookup or registry download returns, whatever its outcome (success, error status, refused or cut connection, undecodable answer, redirect, timeout or cancellation), everything it used has been released: every HTTP response body it received is closed, no cache file is left open, no goroutine keeps running, and no context derived from the caller's is left uncancelled. A long-running program therefore does not accumulate connections, files or goroutines, however its queries end.",
 ["histories", "faults", "inputs"], "all sequences of queries, lookups and downloads with all combinations of server outcomes, registry faults, redirects and cancellation points",
 "The tests never look at what is left behind, and use canned responses that need no closing.",
 ["client.go", "bootstrap/client.go", "bootstrap/cache/disk_cache.go"],
 [("closing of response bodies, release of the timeout context", "client.go: Client.Do, Client.get; bootstrap/client.go: download")],
 "stateful property-based testing with fault injection, resource ledger", BASE_NOTE)

with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for p, *_ in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")

built = set()
for fn in os.listdir(os.path.join(D, "harness")):
    if fn.endswith(".go"):
        built |= set(re.findall(r'register\(&Prop\{\s*ID:\s*"(C\d+)"', open(os.path.join(D, "harness", fn)).read()))
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
 "notes": "Every check builds the harness (harness/, Go, rapid) against /repo's working tree and searches generated cases. KNOWN_FINDINGS.txt lists the defects found, all repaired by fix: commits. No hooks: only the public API, the CLI entry point and the network are used."}
for p, tech, note, level in P:
    if p["id"] in built:
        m["checks"].append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']} thorough",
          "technique": tech, "level": level, "level_note": note})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "the check is not built yet"})
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(D, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties", len(m["checks"]), "checks")
