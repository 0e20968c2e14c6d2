From 853612b0ff4dcf0172b23c062b053b7575f72aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:22 +0000
Subject: [PATCH 01/26] fix: Request.URL() must not modify the Server URL

URL() cleared the query and fragment through the caller's Server pointer, so
the server's own query parameters and fragment were lost and the caller's URL
was modified. A bare trailing '?' also ended up in the middle of the path.
---
 request.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/request.go b/request.go
index decad0b..95f2ae1 100644
--- a/request.go
+++ b/request.go
@@ -263,9 +263,12 @@ func (r *Request) URL() *url.URL {
 		resultURL = new(url.URL)
 		*resultURL = *r.Server
 	} else {
-		tempURL := r.Server
+		// Work on a copy, r.Server must not be modified.
+		tempURL := *r.Server
 		tempURL.RawQuery = ""
+		tempURL.ForceQuery = false
 		tempURL.Fragment = ""
+		tempURL.RawFragment = ""
 		tempURLString := tempURL.String()
 
 		if len(tempURLString) == 0 || tempURLString[len(tempURLString)-1] != '/' {
-- 
2.43.0


From dd03b4bb9de4236ecb68e7fb182981443f042971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:25 +0000
Subject: [PATCH 02/26] fix: don't panic when a request has no valid URL

Request.URL() returns nil when the server URL can't be combined with the
query; Client.Do() dereferenced it.
---
 client.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 9c422af..5e40ad9 100644
--- a/client.go
+++ b/client.go
@@ -6,6 +6,7 @@ package rdap
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"io"
 	"net/http"
@@ -242,9 +243,17 @@ func (c *Client) Do(req *Request) (*Response, error) {
 }
 
 func (c *Client) get(rdapReq *Request) *HTTPResponse {
+	// The request can have no valid URL, e.g. if the server URL is malformed.
+	rdapURL := rdapReq.URL()
+	if rdapURL == nil {
+		return &HTTPResponse{
+			Error: errors.New("cannot construct a valid RDAP request URL"),
+		}
+	}
+
 	// HTTPResponse stores the URL, http.Response, response body...
 	httpResponse := &HTTPResponse{
-		URL: rdapReq.URL().String(),
+		URL: rdapURL.String(),
 	}
 
 	start := time.Now()
-- 
2.43.0


From ccf40ecfd0c147f7982ab218be00f03dd0e13e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:27 +0000
Subject: [PATCH 03/26] fix: escape the query of IP requests

An IP query containing '%', '?', '#', etc (e.g. fe80::1%eth0) was inserted
into the URL unescaped.
---
 request.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request.go b/request.go
index 95f2ae1..ff7584f 100644
--- a/request.go
+++ b/request.go
@@ -196,8 +196,8 @@ func (r *Request) pathAndValues() (string, url.Values) {
 	case HelpRequest:
 		path = "help"
 	case IPRequest:
-		// TODO: escape IP address/nets?
-		path = fmt.Sprintf("ip/%s", r.Query)
+		// The '/' of an IP network (e.g. 192.0.2.0/24) is part of the path.
+		path = fmt.Sprintf("ip/%s", strings.ReplaceAll(escapePath(r.Query), "%2F", "/"))
 	case NameserverRequest:
 		path = fmt.Sprintf("nameserver/%s", escapePath(r.Query))
 	case DomainSearchRequest:
-- 
2.43.0


From 8f941e9b55431752193ddef66bb089da503fc407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:30 +0000
Subject: [PATCH 04/26] fix: refresh expired Service Registry files in long
 lived bootstrap clients

Lookup() ignored the cache's Expired state once a registry was in memory, so
a long lived client never downloaded it again.
---
 bootstrap/client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bootstrap/client.go b/bootstrap/client.go
index 7fd7fa2..c3bba71 100644
--- a/bootstrap/client.go
+++ b/bootstrap/client.go
@@ -321,6 +321,11 @@ func (c *Client) Lookup(question *Question) (*Answer, error) {
 		}
 	}
 
+	// The registry file is too old, refresh it.
+	if state == cache.Expired {
+		forceDownload = true
+	}
+
 	if c.registries[registry] == nil || forceDownload {
 		c.Verbose(fmt.Sprintf("  bootstrap: Downloading %s", registry.Filename()))
 
-- 
2.43.0


From 289c6268a5bd490addedd6cf0d7940d88823a2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:33 +0000
Subject: [PATCH 05/26] fix: --raw/--json must print the successful server's
 response

With multiple RDAP servers, the first server's (failed) response was printed.
---
 cli.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cli.go b/cli.go
index 86c0ae9..dc4afe4 100644
--- a/cli.go
+++ b/cli.go
@@ -516,6 +516,9 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 		*outputFormatText = true
 	}
 
+	// The successful response is the last one, earlier servers failed.
+	body := resp.HTTP[len(resp.HTTP)-1].Body
+
 	// Print the response out in text format?
 	if *outputFormatText {
 		printer := &Printer{
@@ -528,13 +531,13 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 
 	// Print the raw response out?
 	if *outputFormatRaw {
-		fmt.Fprintf(stdout, "%s", resp.HTTP[0].Body)
+		fmt.Fprintf(stdout, "%s", body)
 	}
 
 	// Print the response, JSON pretty-printed?
 	if *outputFormatJSON {
 		var out bytes.Buffer
-		if err := json.Indent(&out, resp.HTTP[0].Body, "", "  "); err != nil {
+		if err := json.Indent(&out, body, "", "  "); err != nil {
 			printError(stderr, fmt.Sprintf("Error: response body is not valid JSON: %s", err))
 			return 1
 		}
-- 
2.43.0


From c60a429382a74c32520d322a8c4c2b8ff6666208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:36 +0000
Subject: [PATCH 06/26] fix: report the RDAP error code, not its address

---
 client_error.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/client_error.go b/client_error.go
index 10cce41..f4bf38c 100644
--- a/client_error.go
+++ b/client_error.go
@@ -46,10 +46,15 @@ func isClientError(t ClientErrorType, err error) bool {
 }
 
 func clientErrorFromRDAPError(e *Error) *ClientError {
+	var errorCode uint16
+	if e.ErrorCode != nil {
+		errorCode = *e.ErrorCode
+	}
+
 	return &ClientError{
 		Type: RDAPServerError,
 		Text: fmt.Sprintf("Server returned error code %d, title='%s', description='%s'",
-			e.ErrorCode,
+			errorCode,
 			e.Title,
 			strings.Join(e.Description, " ")),
 	}
-- 
2.43.0


From 88758d50b808a3531ebff4d9ff88a3b9a4f50f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:39 +0000
Subject: [PATCH 07/26] fix: honour Request.Timeout

The field was never used.
---
 client.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/client.go b/client.go
index 5e40ad9..43f9357 100644
--- a/client.go
+++ b/client.go
@@ -105,6 +105,14 @@ func (c *Client) Do(req *Request) (*Response, error) {
 		}
 	}
 
+	// Apply the request timeout?
+	if req.Timeout > 0 {
+		ctx, cancelFunc := context.WithTimeout(req.Context(), req.Timeout)
+		defer cancelFunc()
+
+		req = req.WithContext(ctx)
+	}
+
 	// Init HTTP client?
 	if c.HTTP == nil {
 		c.HTTP = &http.Client{}
-- 
2.43.0


From ad7b93670b1db8d20e9520fd0af90c9e9b096f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:41 +0000
Subject: [PATCH 08/26] fix: Printer.OmitNotices/OmitRemarks were inverted

They had no effect, except that with BriefOutput they printed the notices or
remarks they are documented to omit.
---
 print.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/print.go b/print.go
index a8ba8fc..b57c441 100644
--- a/print.go
+++ b/print.go
@@ -112,7 +112,7 @@ func (p *Printer) printNameserverSearchResults(sr *NameserverSearchResults, inde
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range sr.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -137,7 +137,7 @@ func (p *Printer) printEntitySearchResults(sr *EntitySearchResults, indentLevel
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range sr.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -162,7 +162,7 @@ func (p *Printer) printDomainSearchResults(sr *DomainSearchResults, indentLevel
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range sr.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -186,7 +186,7 @@ func (p *Printer) printError(e *Error, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range e.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -218,7 +218,7 @@ func (p *Printer) printHelp(h *Help, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range h.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -255,13 +255,13 @@ func (p *Printer) printDomain(d *Domain, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range d.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range d.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -339,13 +339,13 @@ func (p *Printer) printAutnum(a *Autnum, indentLevel uint) {
 		p.printValue("Port43", a.Port43, indentLevel)
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range a.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range a.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -393,13 +393,13 @@ func (p *Printer) printNameserver(n *Nameserver, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range n.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range n.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -470,13 +470,13 @@ func (p *Printer) printEntity(e *Entity, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range e.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range e.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -548,13 +548,13 @@ func (p *Printer) printIPNetwork(n *IPNetwork, indentLevel uint) {
 		p.printValue("Port43", n.Port43, indentLevel)
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, no := range n.Notices {
 			p.printNotice(no, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range n.Remarks {
 			p.printRemark(r, indentLevel)
 		}
-- 
2.43.0


From 79c7e6baf7cf5522cfe8da6668c8e66984936d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:44 +0000
Subject: [PATCH 09/26] fix: vCard address fields after an array valued field
 were shifted

An address component can itself be an array (RFC 7095 section 3.3.1.3), the
following components were then returned from the wrong position.
---
 vcard.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/vcard.go b/vcard.go
index 222c622..b507d92 100644
--- a/vcard.go
+++ b/vcard.go
@@ -468,11 +468,18 @@ func (v *VCard) getFirstAddressField(index int) string {
 		return ""
 	}
 
-	values := adr.Values()
+	// Each address field can be an array (e.g. a multi-line street address), so
+	// the fields can't be indexed using the flattened Values().
+	fields, ok := adr.Value.([]any)
+	if !ok {
+		fields = []any{adr.Value}
+	}
 
-	if index >= len(values) {
+	if index >= len(fields) {
 		return ""
 	}
 
-	return values[index]
+	field := VCardProperty{Value: fields[index]}
+
+	return strings.Join(field.Values(), " ")
 }
-- 
2.43.0


From efafa33498f4b85c8206316b161332591bc9fe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:47 +0000
Subject: [PATCH 10/26] fix: reject out of range numbers when decoding integers

Negative or huge JSON numbers were converted to unrelated integers (e.g. a
keyTag of -1 decoded as 18446744073709551615).
---
 decoder.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/decoder.go b/decoder.go
index bd8db9d..1230439 100644
--- a/decoder.go
+++ b/decoder.go
@@ -327,6 +327,12 @@ func (d *Decoder) decodeUint(keyName string, src any, dst reflect.Value, decodeD
 
 		d.addDecodeNote(decodeData, keyName, "bool to uint conversion")
 	case float64:
+		// Converting an out of range float64 is implementation-defined.
+		if src <= -1 || src >= 1<<64 {
+			d.addDecodeNote(decodeData, keyName, "error: number too small or large")
+			return false
+		}
+
 		result = uint64(src)
 		d.addDecodeNote(decodeData, keyName, "float64 to uint conversion")
 	case string:
@@ -396,6 +402,12 @@ func (d *Decoder) decodeInt(keyName string, src any, dst reflect.Value, decodeDa
 
 		d.addDecodeNote(decodeData, keyName, "bool to int conversion")
 	case float64:
+		// Converting an out of range float64 is implementation-defined.
+		if src < -1<<63 || src >= 1<<63 {
+			d.addDecodeNote(decodeData, keyName, "error: number too small or large")
+			return false
+		}
+
 		result = int64(src)
 		d.addDecodeNote(decodeData, keyName, "float64 to int conversion")
 	case string:
-- 
2.43.0


From 9eb94fcc8a303115cd2009944aca9293357a9dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:09 +0000
Subject: [PATCH 11/26] fix: leave pointer fields nil when their value can't be
 decoded

A malformed value (e.g. "startAutnum": "x") was reported as a genuine zero
value.
---
 decoder.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/decoder.go b/decoder.go
index 1230439..0210706 100644
--- a/decoder.go
+++ b/decoder.go
@@ -730,7 +730,7 @@ func getFieldName(sf reflect.StructField) (string, bool) {
 }
 
 // decodePtr decodes |src| into the ptr |dst|. The ptr is initialised to a new
-// value if nil.
+// value if nil, on success.
 //
 // The parameters and return variables are as per decode().
 func (d *Decoder) decodePtr(keyName string, src any, dst reflect.Value, decodeData *DecodeData) (bool, error) {
@@ -747,12 +747,17 @@ func (d *Decoder) decodePtr(keyName string, src any, dst reflect.Value, decodeDa
 			d.addDecodeNote(decodeData, keyName, vcardError.Error())
 		}
 	} else {
+		value := dst
 		if dst.IsNil() {
-			value := reflect.New(dst.Type().Elem())
-			dst.Set(value)
+			value = reflect.New(dst.Type().Elem())
 		}
 
-		success, err = d.decode(keyName, src, reflect.Indirect(dst), decodeData)
+		success, err = d.decode(keyName, src, reflect.Indirect(value), decodeData)
+
+		// Leave the ptr unset if there's no usable value.
+		if success && dst.IsNil() {
+			dst.Set(value)
+		}
 	}
 
 	return success, err
-- 
2.43.0


From 3045e1eff4f40b90a1a63e3a787cc85717478683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:28 +0000
Subject: [PATCH 12/26] fix: support tilde service tags in bootstrap lookups

Lookup() documents the deprecated ~TAG form as still supported.
---
 bootstrap/service_provider_registry.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bootstrap/service_provider_registry.go b/bootstrap/service_provider_registry.go
index 1bccfd0..81296be 100644
--- a/bootstrap/service_provider_registry.go
+++ b/bootstrap/service_provider_registry.go
@@ -48,8 +48,8 @@ func NewServiceProviderRegistry(json []byte) (*ServiceProviderRegistry, error) {
 func (s *ServiceProviderRegistry) Lookup(question *Question) (*Answer, error) {
 	input := question.Query
 
-	// Valid input looks like 12345-VRSN.
-	offset := strings.LastIndexByte(input, '-')
+	// Valid input looks like 12345-VRSN (or the deprecated 12345~VRSN).
+	offset := strings.LastIndexAny(input, "-~")
 
 	if offset == -1 || offset == len(input)-1 {
 		return &Answer{
-- 
2.43.0


From eade1cd1e32434b957c049e56cd63b823199a9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:31 +0000
Subject: [PATCH 13/26] fix: neutralise carriage returns in WHOIS style output

---
 cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli.go b/cli.go
index dc4afe4..08fa5f4 100644
--- a/cli.go
+++ b/cli.go
@@ -569,7 +569,7 @@ func safePrint(v string) string {
 		switch r {
 		case '\000':
 			return -1
-		case '\n':
+		case '\n', '\r':
 			return ' '
 		default:
 			return r
-- 
2.43.0


From c4814a84e0b80243e1827ca69d73145c17ae31ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:34 +0000
Subject: [PATCH 14/26] fix: only strip a single AS prefix from AS numbers

TrimLeft(asn, "as") strips any run of 'a's and 's's, so e.g. "sas12" was
looked up as AS12.
---
 bootstrap/asn_registry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bootstrap/asn_registry.go b/bootstrap/asn_registry.go
index 3cb83c2..186908f 100644
--- a/bootstrap/asn_registry.go
+++ b/bootstrap/asn_registry.go
@@ -127,7 +127,7 @@ func (a *ASNRegistry) File() *File {
 
 func parseASN(asn string) (uint32, error) {
 	asn = strings.ToLower(asn)
-	asn = strings.TrimLeft(asn, "as")
+	asn = strings.TrimPrefix(asn, "as")
 
 	result, err := strconv.ParseUint(asn, 10, 32)
 	if err != nil {
-- 
2.43.0


From c5c0714babc03b64799e54892e6064f0c62d02d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:38 +0000
Subject: [PATCH 15/26] fix: disable @file argument expansion in sandbox mode

Kingpin replaces an @file argument with the lines of the file, exposing
arbitrary files (via the query URL, or the error messages) to sandboxed
users.
---
 cli.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cli.go b/cli.go
index 08fa5f4..606e26d 100644
--- a/cli.go
+++ b/cli.go
@@ -166,6 +166,17 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 	// Command line query (any remaining non-option arguments).
 	queryArgs := app.Arg("", "").Strings()
 
+	// Kingpin expands @file arguments with the file's contents, which mustn't be
+	// readable in sandbox mode.
+	if options.Sandbox {
+		for _, arg := range args {
+			if strings.HasPrefix(arg, "@") {
+				printError(stderr, "Error: @file arguments are disabled (sandbox mode enabled)")
+				return 1
+			}
+		}
+	}
+
 	// Parse command line arguments.
 	// The help messages for -h/--help are printed directly by app.Parse().
 	_, err := app.Parse(args)
-- 
2.43.0


From 066e9ddc0591d1ca5ed4238f4c3d62051a26dbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:41 +0000
Subject: [PATCH 16/26] fix: print the conformance of IP networks

All other RDAP responses have theirs printed.
---
 print.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/print.go b/print.go
index b57c441..8900880 100644
--- a/print.go
+++ b/print.go
@@ -548,6 +548,12 @@ func (p *Printer) printIPNetwork(n *IPNetwork, indentLevel uint) {
 		p.printValue("Port43", n.Port43, indentLevel)
 	}
 
+	if !p.BriefOutput {
+		for _, c := range n.Conformance {
+			p.printValue("Conformance", c, indentLevel)
+		}
+	}
+
 	if !p.BriefOutput && !p.OmitNotices {
 		for _, no := range n.Notices {
 			p.printNotice(no, indentLevel)
-- 
2.43.0


From 0aae3f1a97f367d7d4df5f13c29e2e675f1b18d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:38 +0000
Subject: [PATCH 17/26] fix: data race in sandbox.LoadFile between concurrent
 RunCLI calls

---
 sandbox/file.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/sandbox/file.go b/sandbox/file.go
index 0135ea1..bc78f5f 100644
--- a/sandbox/file.go
+++ b/sandbox/file.go
@@ -12,8 +12,6 @@ import (
 	"runtime"
 )
 
-var sandboxPath string
-
 // LoadFile reads the named sandboxed file and returns its contents. It returns
 // an error if the file is not one of the recognised sandbox files.
 func LoadFile(filename string) ([]byte, error) {
@@ -21,13 +19,7 @@ func LoadFile(filename string) ([]byte, error) {
 		return nil, errors.New("file not found in sandbox")
 	}
 
-	var body []byte
-
-	if len(sandboxPath) == 0 {
-		sandboxPath = findPackagePath()
-	}
-
-	body, err := os.ReadFile(path.Join(sandboxPath, filename))
+	body, err := os.ReadFile(path.Join(findPackagePath(), filename))
 	if err != nil {
 		log.Panic(err)
 	}
-- 
2.43.0


From b791673e34547b4f7547a14609e77fbf97a6e172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:16 +0000
Subject: [PATCH 18/26] fix: download a Service Registry again when its cached
 file was deleted

---
 bootstrap/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bootstrap/client.go b/bootstrap/client.go
index c3bba71..78e30e8 100644
--- a/bootstrap/client.go
+++ b/bootstrap/client.go
@@ -321,8 +321,9 @@ func (c *Client) Lookup(question *Question) (*Answer, error) {
 		}
 	}
 
-	// The registry file is too old, refresh it.
-	if state == cache.Expired {
+	// The registry file is too old (or its age is unknown, since the cached file
+	// has been removed), refresh it.
+	if state == cache.Expired || state == cache.Absent {
 		forceDownload = true
 	}
 
-- 
2.43.0


From e0d4e16f8c484fc4aab4ecff75f5e57386c78a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:21 +0000
Subject: [PATCH 19/26] fix: replace a damaged cached Service Registry even
 after a failed attempt

---
 bootstrap/client.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bootstrap/client.go b/bootstrap/client.go
index 78e30e8..c1c73f8 100644
--- a/bootstrap/client.go
+++ b/bootstrap/client.go
@@ -149,6 +149,9 @@ type Client struct {
 	Verbose func(text string)
 
 	registries map[RegistryType]Registry
+
+	// Registries whose cached file turned out to be unusable.
+	unusable map[RegistryType]bool
 }
 
 // A Registry implements bootstrap lookups.
@@ -169,6 +172,7 @@ func (c *Client) init() {
 
 	if c.registries == nil {
 		c.registries = make(map[RegistryType]Registry)
+		c.unusable = make(map[RegistryType]bool)
 	}
 
 	if c.BaseURL == nil {
@@ -203,6 +207,7 @@ func (c *Client) DownloadWithContext(ctx context.Context, registry RegistryType)
 	}
 
 	c.registries[registry] = s
+	c.unusable[registry] = false
 
 	return nil
 }
@@ -266,10 +271,12 @@ func (c *Client) reloadFromCache(registry RegistryType) error {
 	var s Registry
 	s, err = newRegistry(registry, json)
 	if err != nil {
+		c.unusable[registry] = true
 		return err
 	}
 
 	c.registries[registry] = s
+	c.unusable[registry] = false
 
 	return nil
 }
@@ -321,6 +328,11 @@ func (c *Client) Lookup(question *Question) (*Answer, error) {
 		}
 	}
 
+	// An earlier attempt to use the cached file failed, it needs replacing.
+	if c.unusable[registry] {
+		forceDownload = true
+	}
+
 	// The registry file is too old (or its age is unknown, since the cached file
 	// has been removed), refresh it.
 	if state == cache.Expired || state == cache.Absent {
-- 
2.43.0


From 045b30b2a044f27dde842456927871ae41871a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:44 +0000
Subject: [PATCH 20/26] fix: QueryAutnum must request the plain AS number

---
 client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client.go b/client.go
index 43f9357..5f2418f 100644
--- a/client.go
+++ b/client.go
@@ -349,6 +349,11 @@ func (c *Client) QueryAutnum(autnum string) (*Autnum, error) {
 		Query: autnum,
 	}
 
+	// RDAP servers expect the plain number, e.g. "2856" not "AS2856".
+	if asn, err := parseAutnum(autnum); err == nil {
+		req = NewAutnumRequest(asn)
+	}
+
 	resp, err := c.doQuickRequest(req)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 2970b1881e1dca713ef3b7370382fe98c1fb1cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:24 +0000
Subject: [PATCH 21/26] fix: embed the sandbox files, so that they load without
 the source tree

---
 sandbox/file.go | 26 +++++---------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/sandbox/file.go b/sandbox/file.go
index bc78f5f..5ab6ffe 100644
--- a/sandbox/file.go
+++ b/sandbox/file.go
@@ -5,13 +5,13 @@
 package sandbox
 
 import (
+	"embed"
 	"errors"
-	"log"
-	"os"
-	"path"
-	"runtime"
 )
 
+//go:embed *.p12
+var files embed.FS
+
 // LoadFile reads the named sandboxed file and returns its contents. It returns
 // an error if the file is not one of the recognised sandbox files.
 func LoadFile(filename string) ([]byte, error) {
@@ -19,23 +19,7 @@ func LoadFile(filename string) ([]byte, error) {
 		return nil, errors.New("file not found in sandbox")
 	}
 
-	body, err := os.ReadFile(path.Join(findPackagePath(), filename))
-	if err != nil {
-		log.Panic(err)
-	}
-
-	return body, nil
-}
-
-func findPackagePath() string {
-	_, filename, _, ok := runtime.Caller(0)
-	if !ok {
-		log.Panic("runtime.Caller() failed")
-	}
-
-	dir, _ := path.Split(filename)
-
-	return dir
+	return files.ReadFile(filename)
 }
 
 // IsFileInSandbox reports whether filename is one of the recognised sandbox
-- 
2.43.0


From b4a2a5121d09000d82e5eb1a305798b2063f88e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:55 +0000
Subject: [PATCH 22/26] fix: keep escaped characters of the registry base URL

---
 bootstrap/client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bootstrap/client.go b/bootstrap/client.go
index c1c73f8..6cd6a9c 100644
--- a/bootstrap/client.go
+++ b/bootstrap/client.go
@@ -221,8 +221,11 @@ func (c *Client) download(ctx context.Context, registry RegistryType) ([]byte, R
 	baseURL := new(url.URL)
 	*baseURL = *c.BaseURL
 
-	if baseURL.Path != "" && baseURL.Path[len(baseURL.Path)-1] != '/' {
+	if p := baseURL.EscapedPath(); p != "" && p[len(p)-1] != '/' {
 		baseURL.Path += "/"
+		if baseURL.RawPath != "" {
+			baseURL.RawPath += "/"
+		}
 	}
 
 	fetchURL := baseURL.ResolveReference(u)
-- 
2.43.0


From b97ccf240d9baeea22e4ed98d057b297ca771f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:18 +0000
Subject: [PATCH 23/26] fix: reject registry files without a services array

A JSON document without services (null, {}, an error object sent with status
200) was accepted as a registry without entries, replacing the good registry
in memory and in the cache.
---
 bootstrap/file.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bootstrap/file.go b/bootstrap/file.go
index ff74dd3..2b2db74 100644
--- a/bootstrap/file.go
+++ b/bootstrap/file.go
@@ -42,6 +42,11 @@ func NewFile(jsonDocument []byte) (*File, error) {
 		return nil, err
 	}
 
+	// A document without services isn't a Service Registry file.
+	if doc.Services == nil {
+		return nil, errors.New("malformed bootstrap (no services array)")
+	}
+
 	f := &File{}
 	f.Description = doc.Description
 	f.Publication = doc.Publication
-- 
2.43.0


From 7229aafc8069941897b5fb616bfe52f4b6ef3935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:54 +0000
Subject: [PATCH 24/26] fix: reject registry files with null entries or URLs

A null in a services array was decoded as "": as an entry it matched every
domain name (the DNS root), as a URL it was an empty server URL.
---
 bootstrap/file.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/bootstrap/file.go b/bootstrap/file.go
index 2b2db74..e1db44e 100644
--- a/bootstrap/file.go
+++ b/bootstrap/file.go
@@ -35,7 +35,7 @@ func NewFile(jsonDocument []byte) (*File, error) {
 		Publication string `json:"publication"`
 		Version     string `json:"version"`
 
-		Services [][][]string `json:"services"`
+		Services [][][]*string `json:"services"`
 	}
 
 	if err := json.Unmarshal(jsonDocument, &doc); err != nil {
@@ -56,8 +56,8 @@ func NewFile(jsonDocument []byte) (*File, error) {
 	f.Entries = make(map[string][]*url.URL)
 
 	for _, s := range doc.Services {
-		var entries []string
-		var rawURLs []string
+		var entries []*string
+		var rawURLs []*string
 
 		switch len(s) {
 		case 2:
@@ -75,7 +75,11 @@ func NewFile(jsonDocument []byte) (*File, error) {
 		var urls []*url.URL
 
 		for _, rawURL := range rawURLs {
-			url, err := url.Parse(rawURL)
+			if rawURL == nil {
+				return nil, errors.New("malformed bootstrap (null URL)")
+			}
+
+			url, err := url.Parse(*rawURL)
 			// Ignore unparsable URLs.
 			if err != nil {
 				continue
@@ -84,9 +88,14 @@ func NewFile(jsonDocument []byte) (*File, error) {
 			urls = append(urls, url)
 		}
 
-		if len(urls) > 0 {
-			for _, entry := range entries {
-				f.Entries[entry] = urls
+		for _, entry := range entries {
+			// A null mustn't be taken for "", the root of the DNS.
+			if entry == nil {
+				return nil, errors.New("malformed bootstrap (null entry)")
+			}
+
+			if len(urls) > 0 {
+				f.Entries[*entry] = urls
 			}
 		}
 	}
-- 
2.43.0


From a655df715d4a85f47258239e42a81cac39c69439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:22 +0000
Subject: [PATCH 25/26] fix: fail when the output cannot be written

Only --json noticed a failing write to standard output; text, raw and
WHOIS output ended with exit status 0 although nothing was printed.
---
 cli.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/cli.go b/cli.go
index 606e26d..24e904d 100644
--- a/cli.go
+++ b/cli.go
@@ -530,6 +530,10 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 	// The successful response is the last one, earlier servers failed.
 	body := resp.HTTP[len(resp.HTTP)-1].Body
 
+	// Remember whether writing the output fails.
+	output := &outputWriter{w: stdout}
+	stdout = output
+
 	// Print the response out in text format?
 	if *outputFormatText {
 		printer := &Printer{
@@ -570,6 +574,11 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 		}
 	}
 
+	if output.err != nil {
+		printError(stderr, fmt.Sprintf("Error writing output: %s", output.err))
+		return 1
+	}
+
 	_ = fetchRolesFlag
 
 	return 0
@@ -593,3 +602,20 @@ func safePrint(v string) string {
 func printError(stderr io.Writer, text string) {
 	fmt.Fprintf(stderr, "# %s\n", text)
 }
+
+// outputWriter writes to |w| until a write fails, and remembers the error.
+type outputWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (o *outputWriter) Write(p []byte) (int, error) {
+	if o.err != nil {
+		return 0, o.err
+	}
+
+	var n int
+	n, o.err = o.w.Write(p)
+
+	return n, o.err
+}
-- 
2.43.0


From 031ef242fc57296949540634c3e1870e48c7b5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:17 +0000
Subject: [PATCH 26/26] fix: keep the registries of different base URLs apart

---
 bootstrap/client.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/bootstrap/client.go b/bootstrap/client.go
index 6cd6a9c..56574a1 100644
--- a/bootstrap/client.go
+++ b/bootstrap/client.go
@@ -152,6 +152,17 @@ type Client struct {
 
 	// Registries whose cached file turned out to be unusable.
 	unusable map[RegistryType]bool
+
+	// The base URL |registries| and |unusable| belong to, and those of the base
+	// URLs used before.
+	current string
+	others  map[string]registrySet
+}
+
+// A registrySet is what a Client holds in memory for one base URL.
+type registrySet struct {
+	registries map[RegistryType]Registry
+	unusable   map[RegistryType]bool
 }
 
 // A Registry implements bootstrap lookups.
@@ -178,6 +189,31 @@ func (c *Client) init() {
 	if c.BaseURL == nil {
 		c.BaseURL, _ = url.Parse(DefaultBaseURL)
 	}
+
+	c.useBase(c.BaseURL.String())
+}
+
+// useBase switches to the registries of base URL |base|, to prevent mixing up
+// those of different base URLs (BaseURL can be changed between calls).
+func (c *Client) useBase(base string) {
+	if c.others == nil {
+		c.others = make(map[string]registrySet)
+		c.current = base
+	}
+
+	if c.current == base {
+		return
+	}
+
+	c.others[c.current] = registrySet{c.registries, c.unusable}
+
+	set, ok := c.others[base]
+	if !ok {
+		set = registrySet{make(map[RegistryType]Registry), make(map[RegistryType]bool)}
+	}
+
+	c.registries, c.unusable = set.registries, set.unusable
+	c.current = base
 }
 
 // Download downloads a single bootstrap registry file.
-- 
2.43.0

