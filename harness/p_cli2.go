package main

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	_ "embed"
	"encoding/pem"
	"fmt"
	"io"
	"io/fs"
	"log"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/sandbox"
	"golang.org/x/crypto/pkcs12"
	"pgregory.net/rapid"
)

//go:embed certs/pw.p12
var p12WithPassword []byte

//go:embed certs/nopw.p12
var p12NoPassword []byte

//go:embed certs/chain.p12
var p12Chain []byte

//go:embed certs/chain-leaf.der
var p12ChainLeaf []byte

//go:embed certs/nokey.p12
var p12NoKey []byte

const p12Password = "se:cret"

// snapshot lists a directory tree: path -> content (or "dir").
func snapshot(root string) map[string]string {
	m := map[string]string{}
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil || p == root {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		if d.IsDir() {
			m[rel] = "dir"
			return nil
		}
		if d.Type()&fs.ModeSymlink != 0 {
			l, _ := os.Readlink(p)
			m[rel] = "link:" + l
			return nil
		}
		b, _ := os.ReadFile(p)
		m[rel] = "file:" + string(b)
		return nil
	})
	return m
}

func diffSnap(a, b map[string]string) string {
	var out []string
	for k, v := range b {
		if w, ok := a[k]; !ok {
			out = append(out, "created "+k)
		} else if v != w {
			out = append(out, "changed "+k)
		}
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			out = append(out, "removed "+k)
		}
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

// ---------------------------------------------------------------- C32

type sandCase struct {
	Exp  bool // --exp=sandbox instead of CLIOptions.Sandbox
	Args []string
}

var sandFiles = []string{"f", "dir/g", "cert.pem", "key.pem", "c.p12", "DigiCert_RDAP_Pilot_Client_Certificate.p12", "dir/DigiCert_RDAP_Pilot_Client_Certificate.p12", "args",
	"github.com/openrdap/rdap/sandbox/DigiCert_RDAP_Pilot_Client_Certificate.p12", "sandbox/DigiCert_RDAP_Pilot_Client_Certificate.p12"}

func genSand(t *rapid.T) sandCase {
	k := sandCase{Exp: chance(t, "exp", 30)}
	file := func() string {
		f := pick(t, "file", "f", "dir/g", "cert.pem", "key.pem", "c.p12", "args", "DigiCert_RDAP_Pilot_Client_Certificate.p12", "DigiCert_RDAP_Pilot_Client_Certificate_Expired.p12", "missing", "dir", "link")
		switch uni(t, "form", 5) {
		case 0:
			return f
		case 1:
			return "./" + f
		case 2:
			return "dir/../" + f
		case 3:
			return "dir/" + filepath.Base(f)
		}
		return "ROOT/" + f
	}
	var parts [][]string
	for i := intn(t, "n", 1, 3); i > 0; i-- {
		switch uni(t, "opt", 8) {
		case 0, 1:
			parts = append(parts, pick(t, "cd", []string{"--cache-dir=" + file()}, []string{"--cache-dir", file()}, []string{"--cache-dir=ROOT/new/deep"}, []string{"--cache-dir=newdir"}))
		case 2:
			parts = append(parts, spell(t, "C", "cert", file()), spell(t, "K", "key", file()))
		case 3, 4:
			parts = append(parts, spell(t, "P", "p12", file()+pick(t, "pw", "", ":", ":"+p12Password, ":x", ":rdap")))
		case 5:
			parts = append(parts, pick(t, "co", spell(t, "C", "cert", file()), spell(t, "K", "key", file())))
		default:
			if k.Exp {
				parts = append(parts, []string{"-f", "all"})
				break
			}
			f := "@" + file()
			parts = append(parts, pick(t, "at", []string{f}, []string{"-s", f}, []string{"-t", f}, []string{"--", f}, []string{"--server", f}, []string{"--cache-dir", f}, []string{"-T", f}))
		}
	}
	if chance(t, "srv", 50) {
		parts = append(parts, []string{"-s", "http://rdap.example/"})
	}
	parts = append(parts, []string{"--bs-url=http://registry.example/bs"})
	if chance(t, "query", 85) {
		parts = append(parts, []string{"example.com"})
	}
	for i := intn(t, "others", 0, 2); i > 0; i-- {
		parts = append(parts, pick(t, "other", []string{"-v"}, []string{"-v"}, []string{"-e"}, []string{"--experimental"}, []string{"--exp=test_rdap_net"}, []string{"--exp=object_tag"},
			[]string{"--exp", "object_tag"}, []string{"-k"}, []string{"-j"}, []string{"-w"}, []string{"-r"}, []string{"-T", "20"}, []string{"--bs-ttl=60"}, []string{"-f", "all"}))
	}
	parts = permute(t, parts)
	// "--" goes last.
	for i, p := range parts {
		if p[0] == "--" {
			parts = append(append(append([][]string{}, parts[:i]...), parts[i+1:]...), p)
			break
		}
	}
	if k.Exp {
		// Anywhere before "--".
		n := len(parts)
		if n > 0 && parts[n-1][0] == "--" {
			n--
		}
		at := uni(t, "at", n+1)
		opt := pick(t, "sb", []string{"--exp=sandbox"}, []string{"--exp", "sandbox"})
		parts = append(parts[:at:at], append([][]string{opt}, parts[at:]...)...)
	}
	for _, p := range parts {
		k.Args = append(k.Args, p...)
	}
	return k
}

var durations = regexp.MustCompile(`[0-9][0-9.]*(ns|µs|ms|s)\b`)

func checkSand(c *Ctx, k sandCase) error {
	root, home := c.Scratch(), c.Scratch()
	oldHome, oldXDG := os.Getenv("HOME"), os.Getenv("XDG_CACHE_HOME")
	wd, err := os.Getwd()
	if err != nil {
		infra("%s", err)
	}
	os.Setenv("HOME", home)
	os.Setenv("XDG_CACHE_HOME", "")
	if err := os.Chdir(root); err != nil {
		infra("%s", err)
	}
	c.Cleanup(func() {
		os.Chdir(wd)
		os.Setenv("HOME", oldHome)
		os.Setenv("XDG_CACHE_HOME", oldXDG)
	})
	var args []string
	for _, a := range k.Args {
		args = append(args, strings.ReplaceAll(a, "ROOT", root))
	}
	setWorld(c, func(h hit) reply {
		if strings.HasPrefix(h.URL, "http://registry.example/") {
			return reply{Body: rootRegistry(h.URL)}
		}
		return reply{Body: string(answerDoc("domain", "m"))}
	})
	pki := newPKI()
	var first cliResult
	var firstHits string
	for state := 0; state < 3; state++ {
		for _, d := range []string{root, home} {
			es, _ := os.ReadDir(d)
			for _, e := range es {
				os.RemoveAll(filepath.Join(d, e.Name()))
			}
		}
		if state > 0 {
			os.MkdirAll(filepath.Join(root, "dir"), 0o755)
			for _, f := range sandFiles {
				content := []byte("garbage")
				if state == 1 {
					switch {
					case f == "args":
						content = []byte("-V\n")
					case f == "f" || f == "dir/g":
						content = []byte("canary.example\n")
					case strings.HasSuffix(f, "cert.pem"):
						content = pki.clientCert
					case strings.HasSuffix(f, "key.pem"):
						content = pki.clientKey
					default:
						content = p12WithPassword
					}
				}
				os.MkdirAll(filepath.Dir(filepath.Join(root, f)), 0o755)
				writeFile(filepath.Join(root, f), content)
			}
			os.Symlink("f", filepath.Join(root, "link"))
		}
		before := snapshot(root)
		r := runCLIWith(rdap.CLIOptions{Sandbox: !k.Exp}, args...)
		hits := fmt.Sprint(takeHits())
		if d := diffSnap(before, snapshot(root)); d != "" {
			return errf("%q in sandbox mode: %s", k.Args, d)
		}
		for p := range snapshot(home) {
			if p != ".cache" && p != ".cache/openrdap" && !strings.HasPrefix(p, ".cache/openrdap/") {
				return errf("%q in sandbox mode: wrote %s in the home directory", k.Args, p)
			}
		}
		r.stderr = durations.ReplaceAllString(r.stderr, "T")
		if isPanic(r) {
			return errf("%q: %s", k.Args, r)
		}
		if state == 0 {
			first, firstHits = r, hits
			continue
		}
		if r != first || hits != firstHits {
			return errf("%q in sandbox mode: the files' content shows: %s, requests %s; without the files: %s, requests %s", k.Args, r, hits, first, firstHits)
		}
	}
	c.LabelIf(first.exit == 0, "query made")
	c.LabelIf(k.Exp, "--exp=sandbox")
	for _, a := range k.Args {
		c.LabelIf(strings.HasPrefix(a, "@"), "@file")
		c.LabelIf(strings.Contains(a, "cache-dir"), "cache-dir")
		c.LabelIf(strings.Contains(a, "p12") || strings.HasPrefix(a, "-P"), "p12")
	}
	c.NonTrivial(true)
	return nil
}

// The files of the sandbox, and names that are close to theirs.

var sandboxSums = map[string]string{
	"DigiCert_RDAP_Pilot_Client_Certificate.p12":         "170e463ad71bd0b1295c5f6ca17da8b2b22f6ecdb20fe7c3a64d35e86b64c71e",
	"DigiCert_RDAP_Pilot_Client_Certificate_Expired.p12": "ff4b24b058261ad90bb994db0a4aa5f6933be32aaf2a414bbc0039d0a06bfc97",
	"DigiCert_RDAP_Pilot_Client_Certificate_Revoked.p12": "e5831f467ae167562bc01b80159e932f664698c45c2a072d3ff3a82eeea29b64",
}

type sandFile struct {
	Name Q
	CLI  bool
	Exp  bool
}

func genSandFile(t *rapid.T) sandFile {
	var names []string
	for n := range sandboxSums {
		names = append(names, n)
	}
	sort.Strings(names)
	n := pick(t, "name", names...)
	switch uni(t, "form", 16) {
	case 0, 1, 2, 3, 4:
	case 5:
		n = pick(t, "prefix", "./", "/", "../sandbox/", "ROOT/", "sandbox/", " ", "x", "\x00", "dir/../", "//") + n
	case 6:
		n += pick(t, "suffix", "/", "x", " ", "\x00", "/.", ".bak", "\n")
	case 7:
		n = strings.ToUpper(n)
	case 8:
		n = strings.ToLower(n)
	case 9:
		n = n[:intn(t, "cut", 0, len(n)-1)]
	case 10:
		n = n[intn(t, "cutl", 1, len(n)):]
	case 11:
		i := intn(t, "at", 0, len(n)-1)
		n = n[:i] + pick(t, "c", "_", "x", "/", "*", "?", ".") + n[i+1:]
	case 12:
		n = pick(t, "other", "file.go", "*.p12", "*", ".", "..", "", "/etc/passwd", "../cli.go", "../sandbox/file.go", "./file.go")
	case 13:
		n = word(t, "w")
	default:
		n = "dir/" + n
	}
	return sandFile{Q(n), chance(t, "cli", 30), chance(t, "exp", 30)}
}

func checkSandFile(c *Ctx, k sandFile) error {
	root := c.Scratch()
	name := strings.ReplaceAll(string(k.Name), "ROOT", root)
	os.MkdirAll(filepath.Join(root, "dir"), 0o755)
	for n := range sandboxSums {
		writeFile(filepath.Join(root, n), p12WithPassword)
		writeFile(filepath.Join(root, "dir", n), p12WithPassword)
	}
	wd, err := os.Getwd()
	if err != nil {
		infra("%s", err)
	}
	if err := os.Chdir(root); err != nil {
		infra("%s", err)
	}
	c.Cleanup(func() { os.Chdir(wd) })
	sum, known := sandboxSums[name]
	if !k.CLI {
		b, err := sandbox.LoadFile(name)
		switch {
		case known && err != nil:
			return errf("the sandbox file %q cannot be loaded: %s", name, err)
		case known && fmt.Sprintf("%x", sha256.Sum256(b)) != sum:
			return errf("the sandbox file %q has other content", name)
		case !known && (err == nil || len(b) > 0):
			return errf("%q (no sandbox file) was loaded: %d bytes, error %v", name, len(b), err)
		case sandbox.IsFileInSandbox(name) != known:
			return errf("IsFileInSandbox(%q) is %v", name, !known)
		}
	} else if !strings.Contains(name, ":") {
		setWorld(c, func(h hit) reply { return reply{Body: string(answerDoc("domain", "m"))} })
		args := []string{"--cache-dir=", "-s", "http://rdap.example/", "--p12=" + name + ":rdap", "example.com"}
		if k.Exp {
			args = append(args, "--exp=sandbox")
		}
		r := runCLIWith(rdap.CLIOptions{Sandbox: !k.Exp}, args...)
		n := len(takeHits())
		if known && (r.exit != 0 || n != 1) {
			return errf("--p12 with the sandbox file %q failed: %s", name, r)
		}
		if !known && (r.exit == 0 || n != 0 || r.stdout != "") {
			return errf("--p12 with %q, which is no sandbox file: %s", name, r)
		}
	}
	c.LabelIf(known, "sandbox file")
	c.LabelIf(k.CLI, "through the tool")
	c.NonTrivial(true)
	return nil
}

// ---------------------------------------------------------------- C33

type runOp struct {
	Kind string // run, age, publish, corrupt, delete
	Dir  int    // 0 A, 1 B (nested), 2 none, 3 default (no option), 4 "default", 5-7 relative, 8 ".", 9 through a symbolic link, 10-12 unusual names
	URL  int    // 0 default, 1, 2
	TTL  int    // ttls index
	Reg  int
	Down bool
	Age  int
	Var  int  // how the options are written
	Sand bool `json:",omitempty"` // sandbox mode: no directory can be chosen
}

type runsCase struct {
	XDG string // "", abs, rel
	Ops []runOp
}

var ttls = []int64{-1, 1800, 86400, 4294967295, 0, 2592000, 604800, 31536000} // -1: no option (3600)
var bsBases = []string{"https://data.iana.org/rdap", "http://u1.example/bs", "http://u2.example/x/y/", "https://test.rdap.net/rdap"}

func genRuns(t *rapid.T) runsCase {
	k := runsCase{XDG: pick(t, "xdg", "", "", "abs", "rel")}
	mainDir, mainURL, mainReg := uni(t, "mdir", 13), uni(t, "murl", 4), uni(t, "mreg", 5)
	for i := intn(t, "n", 2, 10); i > 0; i-- {
		op := runOp{Kind: pick(t, "kind", "run", "run", "run", "run", "age", "age", "publish", "publish", "corrupt", "delete"), Dir: mainDir, URL: mainURL, Reg: mainReg,
			TTL: pick(t, "ttl", 0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7), Down: chance(t, "down", 12), Age: pick(t, "age", 710, 1130, 2530, 3950, 50020, 90050, 700030, 2700070, 40000090), Var: uni(t, "var", 12)}
		if chance(t, "odir", 20) {
			op.Dir = uni(t, "dir", 13)
		}
		op.Sand = op.Kind == "run" && chance(t, "sandbox", 8)
		if chance(t, "ourl", 20) {
			op.URL = uni(t, "url", 4)
		}
		if chance(t, "oreg", 20) {
			op.Reg = uni(t, "reg", 5)
		}
		k.Ops = append(k.Ops, op)
	}
	return k
}

func checkRuns(c *Ctx, k runsCase) error {
	top := c.Scratch()
	home, xdg, work := filepath.Join(top, "home"), filepath.Join(top, "xdg"), filepath.Join(top, "work")
	for _, d := range []string{home, work} {
		os.MkdirAll(d, 0o755)
	}
	wd, _ := os.Getwd()
	oldHome, oldXDG := os.Getenv("HOME"), os.Getenv("XDG_CACHE_HOME")
	os.Setenv("HOME", home)
	def := filepath.Join(home, ".cache", "openrdap")
	switch k.XDG {
	case "abs":
		os.Setenv("XDG_CACHE_HOME", xdg)
		def = filepath.Join(xdg, "openrdap")
	case "rel":
		os.Setenv("XDG_CACHE_HOME", "rel/cache")
	default:
		os.Setenv("XDG_CACHE_HOME", "")
	}
	os.Chdir(work)
	c.Cleanup(func() {
		os.Chdir(wd)
		os.Setenv("HOME", oldHome)
		os.Setenv("XDG_CACHE_HOME", oldXDG)
	})
	// The directories, and how the option names them.
	dirs := []string{filepath.Join(top, "A"), filepath.Join(top, "B", "deep", "er"), "", def, def, filepath.Join(work, "own", "c"), filepath.Join(work, "one"), filepath.Join(top, "sib ling"), work, filepath.Join(top, "target"),
		filepath.Join(work, " lead"), filepath.Join(top, "trail "), filepath.Join(top, "Ünï $HOME %s", "#x?y=1")}
	os.MkdirAll(dirs[9], 0o755)
	if err := os.Symlink("target", filepath.Join(top, "lnk")); err != nil {
		infra("%s", err)
	}
	given := []string{dirs[0], dirs[1], "", "", "default", "own/c", "./one/", "../sib ling", ".", filepath.Join(top, "lnk"), " lead", filepath.Join(top, "trail "), filepath.Join(top, "Ünï $HOME %s", "#x?y=1")}
	versions := []int{1, 1, 1, 1}
	down := false
	setWorld(c, func(h hit) reply {
		for i, b := range bsBases {
			if r := regIndex(h.URL); r >= 0 && h.URL == strings.TrimSuffix(b, "/")+"/"+regFiles[r] {
				if down {
					return reply{Fault: "conn"}
				}
				f := RegFile{Desc: "d", Ver: "1.0", Pub: "p", Services: []Service{{Entries: []string{regEntries[r]}, URLs: []string{fmt.Sprintf("http://v%d-u%d-r%d.example/", versions[i], i, r)}, Contact: r == 4}}}
				return reply{Body: string(f.JSON()), Wire: []string{"gzip", "", "chunked", "close"}[versions[i]%4]}
			}
		}
		if strings.HasPrefix(h.URL, "http://v") {
			return reply{Body: string(answerDoc("domain", "m"))}
		}
		return reply{Status: 404}
	})
	type ent struct {
		ver     int
		age     int64
		damaged bool
	}
	model := map[string]*ent{}
	runs := 0
	for i, op := range k.Ops {
		dir := dirs[op.Dir]
		switch op.Kind {
		case "publish":
			versions[op.URL]++
			continue
		case "age", "corrupt", "delete":
			if dir == "" {
				continue
			}
			if op.Kind == "delete" && op.Dir != 8 && op.Dir != 9 {
				os.RemoveAll(dir)
			} else {
				es, _ := os.ReadDir(dir)
				for _, e := range es {
					p := filepath.Join(dir, e.Name())
					fi, err := os.Stat(p)
					if err != nil || fi.IsDir() {
						continue
					}
					if op.Kind == "delete" {
						os.Remove(p)
						continue
					}
					mt := fi.ModTime()
					if op.Kind == "corrupt" {
						os.WriteFile(p, []byte(`{"services": [`), 0o600)
					} else {
						mt = mt.Add(-time.Duration(op.Age) * time.Second)
					}
					os.Chtimes(p, mt, mt)
				}
			}
			for key, e := range model {
				if !strings.HasPrefix(key, dir+"|") {
					continue
				}
				switch op.Kind {
				case "delete":
					delete(model, key)
				case "corrupt":
					e.damaged = true
				case "age":
					e.age += int64(op.Age)
				}
			}
			continue
		}
		runs++
		args := []string{"-t", []string{"domain", "", "", "autnum", "entity"}[op.Reg], regQueries[op.Reg], "-k"}
		if args[1] == "" {
			args = args[2:]
		}
		ttl := ttls[op.TTL]
		if ttl >= 0 {
			args = append(args, fmt.Sprintf("--bs-ttl=%d", ttl))
		} else {
			ttl = 3600
		}
		switch op.Dir {
		case 3:
		case 2:
			args = append(args, "--cache-dir=")
		default:
			if op.Var%2 == 0 {
				args = append(args, "--cache-dir="+given[op.Dir])
			} else {
				args = append(args, "--cache-dir", given[op.Dir])
			}
			c.LabelIf(op.Dir > 4, "relative directory")
		}
		switch {
		case op.URL == 3:
			args = append(args, [][]string{{"-e"}, {"--exp=test_rdap_net"}, {"--experimental"}, {"--bs-url=" + bsBases[3]}}[op.Var%4]...)
		case op.URL > 0:
			args = append(args, "--bs-url="+bsBases[op.URL])
			if op.Var%3 == 0 {
				args = append(args, []string{"-e", "--exp=test_rdap_net"}[op.Var%2])
			}
		}
		if op.Sand {
			args = append(args, "--exp=sandbox")
			if dir != "" {
				dir = def
			}
			c.Label("sandbox")
		}
		key := fmt.Sprintf("%s|%d|%d", dir, op.URL, op.Reg)
		e := model[key]
		need := e == nil || e.damaged || e.age > ttl
		if e != nil && ttl == 0 && e.age == 0 {
			need = true
		}
		if e != nil && ttl > 0 && e.age > ttl-100 && e.age < ttl+100 {
			c.Label("too close to the lifetime")
			return nil
		}
		before := snapshot(top)
		down = op.Down
		r := runCLI(c, args...)
		down = false
		var regs, rest []string
		for _, h := range takeHits() {
			switch {
			case h.Method == "CONNECT":
				if h.URL != "data.iana.org:443" && (op.URL != 3 || h.URL != "test.rdap.net:443") {
					return errf("run %d %q: connected to %s", i, args, h.URL)
				}
			case regIndex(h.URL) >= 0:
				regs = append(regs, h.URL)
			default:
				rest = append(rest, h.URL)
			}
		}
		wantReg := strings.TrimSuffix(bsBases[op.URL], "/") + "/" + regFiles[op.Reg]
		after := snapshot(top)
		diff := diffSnap(before, after)
		// Only the configured directory may change.
		rel, _ := filepath.Rel(top, dir)
		for p := range after {
			if w, ok := before[p]; ok && w == after[p] {
				continue
			}
			if dir == "" || !(strings.HasPrefix(p+"/", rel+"/") || strings.HasPrefix(rel, p+"/")) {
				return errf("run %d %q changed %s", i, args, diff)
			}
		}
		if !need {
			c.Label("reused")
			if len(regs) > 0 {
				return errf("run %d %q: downloaded %v, although a copy aged %d s is cached (lifetime %d)", i, args, regs, e.age, ttl)
			}
			if diff != "" {
				return errf("run %d %q: %s, although nothing was downloaded", i, args, diff)
			}
		} else {
			if len(regs) != 1 || regs[0] != wantReg {
				return errf("run %d %q: registry requests %v, want %s once (cached copy: %v)", i, args, regs, wantReg, e)
			}
			if e != nil {
				c.Label("refreshed")
			}
			if op.Down {
				c.Label("registry down")
				if r.exit == 0 || len(rest) > 0 || r.stdout != "" {
					return errf("run %d %q with the registry down: %s, requests %v", i, args, r, rest)
				}
				for p := range before {
					if before[p] != after[p] {
						return errf("run %d %q with the registry down: %s", i, args, diff)
					}
				}
				continue
			}
			e = &ent{ver: versions[op.URL]}
			if dir != "" {
				model[key] = e
				if fi, err := os.Stat(dir); err != nil || !fi.IsDir() {
					return errf("run %d %q: no cache directory %s", i, args, rel)
				}
			} else {
				c.Label("cache disabled")
			}
		}
		want := fmt.Sprintf("http://v%d-u%d-r%d.example/", e.ver, op.URL, op.Reg)
		if r.exit != 0 || len(rest) != 1 || !strings.HasPrefix(rest[0], want) {
			return errf("run %d %q: %s, requests %v, want one to %s", i, args, r, rest, want)
		}
	}
	c.NonTrivial(runs > 1)
	return nil
}

// ---------------------------------------------------------------- C34

type pkiT struct {
	once                  sync.Once
	key                   *ecdsa.PrivateKey
	ca, badCA             *x509.Certificate
	inter                 *x509.Certificate
	leaves                map[string]tls.Certificate
	clientCert, clientKey []byte // PEM
	clientDER             []byte
	p12DER                []byte
	otherKey              []byte
}

var thePKI pkiT

func newPKI() *pkiT {
	p := &thePKI
	p.once.Do(func() {
		p.key, _ = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		mk := func(cn string, parent *x509.Certificate, f func(*x509.Certificate)) *x509.Certificate {
			tpl := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: cn}, NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(24 * time.Hour), BasicConstraintsValid: true}
			if f != nil {
				f(tpl)
			}
			if parent == nil {
				parent = tpl
			}
			der, err := x509.CreateCertificate(rand.Reader, tpl, parent, &p.key.PublicKey, p.key)
			if err != nil {
				infra("certificate: %s", err)
			}
			out, _ := x509.ParseCertificate(der)
			return out
		}
		ca := func(t *x509.Certificate) { t.IsCA = true; t.KeyUsage = x509.KeyUsageCertSign }
		p.ca, p.badCA = mk("good CA", nil, ca), mk("bad CA", nil, ca)
		p.inter = mk("intermediate", p.ca, ca)
		leaf := func(f func(*x509.Certificate)) func(*x509.Certificate) {
			return func(t *x509.Certificate) {
				t.IPAddresses = []net.IP{net.IPv4(127, 0, 0, 1)}
				t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
				if f != nil {
					f(t)
				}
			}
		}
		p.leaves = map[string]tls.Certificate{}
		add := func(name string, parent *x509.Certificate, chain []*x509.Certificate, f func(*x509.Certificate)) {
			l := mk("127.0.0.1", parent, leaf(f))
			tc := tls.Certificate{Certificate: [][]byte{l.Raw}, PrivateKey: p.key}
			for _, x := range chain {
				tc.Certificate = append(tc.Certificate, x.Raw)
			}
			p.leaves[name] = tc
		}
		add("good", p.ca, nil, nil)
		add("goodchain", p.inter, []*x509.Certificate{p.inter}, nil)
		add("nochain", p.inter, nil, nil)
		add("untrusted", p.badCA, []*x509.Certificate{p.badCA}, nil)
		add("selfsigned", nil, nil, nil)
		add("expired", p.ca, nil, func(t *x509.Certificate) { t.NotAfter = time.Now().Add(-time.Hour) })
		add("future", p.ca, nil, func(t *x509.Certificate) { t.NotBefore = time.Now().Add(time.Hour) })
		add("wrongname", p.ca, nil, func(t *x509.Certificate) { t.IPAddresses = nil; t.DNSNames = []string{"rdap.example", "*.example"} })
		add("wrongip", p.ca, nil, func(t *x509.Certificate) { t.IPAddresses = []net.IP{net.IPv4(127, 0, 0, 2)} })
		add("cnonly", p.ca, nil, func(t *x509.Certificate) { t.IPAddresses = nil })
		add("clientonly", p.ca, nil, func(t *x509.Certificate) { t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth} })
		add("leafissued", mk("127.0.0.1", p.ca, leaf(nil)), nil, nil)

		cl := mk("client", p.badCA, func(t *x509.Certificate) { t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth} })
		p.clientDER = cl.Raw
		p.clientCert = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: cl.Raw})
		kb, _ := x509.MarshalPKCS8PrivateKey(p.key)
		p.clientKey = pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: kb})
		ok, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		kb, _ = x509.MarshalPKCS8PrivateKey(ok)
		p.otherKey = pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: kb})
		var _ crypto.Signer = ok
		_, pc, err := pkcs12.Decode(p12WithPassword, p12Password)
		if err != nil {
			infra("p12: %s", err)
		}
		p.p12DER = pc.Raw
	})
	return p
}

var trustOnce sync.Once

// trustCA makes the good CA the only trusted root of this process.
func trustCA(p *pkiT) {
	trustOnce.Do(func() {
		d, err := os.MkdirTemp("", "trust")
		if err != nil {
			infra("%s", err)
		}
		f := filepath.Join(d, "ca.pem")
		writeFile(f, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: p.ca.Raw}))
		os.Setenv("SSL_CERT_FILE", f)
		os.MkdirAll(filepath.Join(d, "none"), 0o755)
		os.Setenv("SSL_CERT_DIR", filepath.Join(d, "none"))
	})
}

type tlsServer struct {
	url   string
	mu    sync.Mutex
	conns int
	reqs  int
	certs [][]byte // client leaf per request, nil: none
}

func newTLSServer(c *Ctx, cert tls.Certificate, body func(path string) string) *tlsServer {
	s := &tlsServer{}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		infra("%s", err)
	}
	s.url = "https://" + ln.Addr().String() + "/"
	srv := &http.Server{ErrorLog: log.New(io.Discard, "", 0), Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		s.mu.Lock()
		s.reqs++
		var leaf []byte
		if len(r.TLS.PeerCertificates) > 0 {
			leaf = r.TLS.PeerCertificates[0].Raw
		}
		s.certs = append(s.certs, leaf)
		s.mu.Unlock()
		io.WriteString(w, body(r.URL.Path))
	}), ConnState: func(_ net.Conn, st http.ConnState) {
		if st == http.StateNew {
			s.mu.Lock()
			s.conns++
			s.mu.Unlock()
		}
	}}
	srv.SetKeepAlivesEnabled(false)
	go srv.Serve(tls.NewListener(ln, &tls.Config{Certificates: []tls.Certificate{cert}, ClientAuth: tls.RequestClientCert}))
	c.Cleanup(func() { srv.Close() })
	return s
}

type tlsCase struct {
	Registry string // certificate of the registry server, "": explicit server
	Server   string
	Insecure string
	Client   string
	Verbose  bool
}

var leafNames = []string{"good", "good", "good", "goodchain", "goodchain", "nochain", "untrusted", "selfsigned", "expired", "future", "wrongname", "wrongip", "cnonly", "clientonly", "leafissued"}
var clientOK = []string{"none", "none", "pem", "p12pw", "p12nopw", "p12colon", "p12chain", "pemchain"}
var clientBad = []string{"certonly", "keyonly", "mixed", "mismatch", "nocert", "nokey", "badcert", "badkey", "swapped", "p12wrong", "p12empty", "p12missing", "p12garbage", "p12nokey", "mixed2"}

func genTLS(t *rapid.T) tlsCase {
	k := tlsCase{Server: pick(t, "srv", leafNames...), Insecure: pick(t, "k", "", "", "", "-k", "--insecure"), Client: pick(t, "client", clientOK...), Verbose: chance(t, "v", 20)}
	if chance(t, "reg", 50) {
		k.Registry = pick(t, "regcert", leafNames...)
		if chance(t, "oneonly", 50) {
			k.Server = "good"
		}
	}
	if chance(t, "badclient", 35) {
		k.Client = pick(t, "badclientk", clientBad...)
	}
	return k
}

func checkTLS(c *Ctx, k tlsCase) error {
	p := newPKI()
	trustCA(p)
	dir := c.Scratch()
	file := func(name string, b []byte) string {
		f := filepath.Join(dir, name)
		writeFile(f, b)
		return f
	}
	cert, key := file("cert.pem", p.clientCert), file("key.pem", p.clientKey)
	other, junk := file("other.pem", p.otherKey), file("junk", []byte("junk"))
	pw, nopw := file("pw.p12", p12WithPassword), file("nopw.p12", p12NoPassword)
	missing := filepath.Join(dir, "missing")
	var want []byte
	bad := false
	var args []string
	switch k.Client {
	case "none":
	case "pem":
		args, want = []string{"-C", cert, "--key=" + key}, p.clientDER
	case "p12pw":
		args, want = []string{"-P", pw + ":" + p12Password}, p.p12DER
	case "p12nopw":
		args, want = []string{"--p12=" + nopw}, p.p12DER
	case "p12chain":
		args, want = []string{"-P", file("chain.p12", p12Chain)}, p12ChainLeaf
	case "pemchain":
		both := append(append([]byte{}, p.clientCert...), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: p.badCA.Raw})...)
		args, want = []string{"--cert", file("both.pem", both), "-K", key}, p.clientDER
	case "p12colon":
		args, want = []string{"--p12=" + nopw + ":"}, p.p12DER
	default:
		bad = true
		switch k.Client {
		case "certonly":
			args = []string{"-C", cert}
		case "keyonly":
			args = []string{"-K", key}
		case "mixed":
			args = []string{"-C", cert, "-K", key, "-P", nopw}
		case "mixed2":
			args = []string{"-C", cert, "-P", nopw}
		case "mismatch":
			args = []string{"-C", cert, "-K", other}
		case "nocert":
			args = []string{"-C", missing, "-K", key}
		case "nokey":
			args = []string{"-C", cert, "-K", missing}
		case "badcert":
			args = []string{"-C", junk, "-K", key}
		case "badkey":
			args = []string{"-C", cert, "-K", junk}
		case "swapped":
			args = []string{"-C", key, "-K", cert}
		case "p12wrong":
			args = []string{"-P", pw + ":" + p12Password + "x"}
		case "p12empty":
			args = []string{"-P", pw}
		case "p12missing":
			args = []string{"-P", missing + ":x"}
		case "p12nokey":
			args = []string{"-P", file("nokey.p12", p12NoKey)}
		case "p12garbage":
			args = []string{"-P", junk}
		}
	}
	srv := newTLSServer(c, p.leaves[k.Server], func(string) string { return string(answerDoc("domain", "m")) })
	var reg *tlsServer
	if k.Registry != "" {
		reg = newTLSServer(c, p.leaves[k.Registry], func(path string) string {
			return string(RegFile{Desc: "d", Ver: "1.0", Pub: "p", Services: []Service{{Entries: []string{"com"}, URLs: []string{srv.url}}}}.JSON())
		})
		args = append(args, "--bs-url="+reg.url)
	} else {
		args = append(args, "-s", srv.url)
	}
	args = append(args, "--cache-dir=", "-t", "domain", "example.com")
	if k.Insecure != "" {
		args = append(args, k.Insecure)
	}
	if k.Verbose {
		args = append(args, "-v")
	}
	r := runCLI(c, args...)
	get := func(s *tlsServer) (conns, reqs int, certs [][]byte) {
		s.mu.Lock()
		defer s.mu.Unlock()
		return s.conns, s.reqs, s.certs
	}
	conns, reqs, certs := get(srv)
	rconns, rreqs, rcerts := 0, 0, [][]byte(nil)
	if reg != nil {
		rconns, rreqs, rcerts = get(reg)
	}
	trusted := func(n string) bool { return k.Insecure != "" || n == "good" || n == "goodchain" }
	c.NonTrivial(k.Server != "good" || k.Insecure != "" || k.Client != "none" || k.Registry != "")
	switch {
	case bad:
		c.Label("bad client certificate: %s", k.Client)
		if r.exit == 0 || r.stdout != "" || r.stderr == "" || isPanic(r) {
			return errf("unusable client certificate (%s): %s", k.Client, r)
		}
		if conns+rconns > 0 {
			return errf("unusable client certificate (%s), but a server was contacted", k.Client)
		}
		return nil
	case reg != nil && !trusted(k.Registry):
		c.Label("registry rejected: %s", k.Registry)
		if r.exit == 0 || r.stdout != "" || rreqs > 0 || conns > 0 {
			return errf("registry with a bad certificate (%s): %s; %d registry requests, %d server connections", k.Registry, r, rreqs, conns)
		}
		return nil
	case !trusted(k.Server):
		c.Label("server rejected: %s", k.Server)
		if r.exit == 0 || r.stdout != "" || reqs > 0 {
			return errf("server with a bad certificate (%s): %s; %d requests received", k.Server, r, reqs)
		}
		if reg != nil && rreqs != 1 {
			return errf("%d registry requests", rreqs)
		}
		return nil
	}
	c.LabelIf(k.Insecure == "", "accepted")
	c.LabelIf(k.Insecure != "", "insecure")
	c.LabelIf(want != nil, "client certificate")
	if r.exit != 0 || reqs != 1 {
		return errf("server %s, registry %s, %q: %s; %d requests", k.Server, k.Registry, k.Insecure, r, reqs)
	}
	for i, x := range append(certs, rcerts...) {
		if !bytes.Equal(x, want) {
			return errf("client certificate %s: presented %d bytes (request %d), want %d bytes", k.Client, len(x), i, len(want))
		}
	}
	return nil
}

// ---------------------------------------------------------------- C16 (command line)

type cliTimeoutCase struct {
	Stage string
	Secs  int
	Opt   []string
}

func checkCLITimeout(c *Ctx, k cliTimeoutCase) error {
	setWorld(c, func(h hit) reply {
		isReg := regIndex(h.URL) >= 0
		switch {
		case isReg && k.Stage == "registry":
			return reply{Fault: "stall"}
		case isReg && k.Stage == "registrybody":
			return reply{Body: rootRegistry(h.URL), Fault: "stallbody"}
		case isReg:
			return reply{Body: rootRegistry(h.URL)}
		case k.Stage == "headers":
			return reply{Fault: "stall"}
		case k.Stage == "late":
			// A proper answer, some time after the limit.
			time.Sleep(time.Duration(k.Secs)*time.Second + 2500*time.Millisecond)
			return reply{Body: string(answerDoc("domain", "m"))}
		}
		return reply{Body: string(answerDoc("domain", "m")), Fault: "stallbody"}
	})
	done := make(chan cliResult, 1)
	start := time.Now()
	go func() {
		done <- runCLI(c, append(k.Opt, "--cache-dir=", "--bs-url=http://registry.example/bs", "-t", "domain", "example.com")...)
	}()
	c.Label("%q, stalled %s", k.Opt, k.Stage)
	c.NonTrivial(true)
	select {
	case r := <-done:
		if d := time.Since(start); d < time.Duration(k.Secs)*time.Second-200*time.Millisecond {
			return errf("timeout of %d seconds (%q): gave up after %s: %s", k.Secs, k.Opt, d, r)
		}
		if r.exit == 0 || r.stdout != "" {
			return errf("-T %d with a stalled server (%s): %s", k.Secs, k.Stage, r)
		}
	case <-time.After(time.Duration(k.Secs)*time.Second + 20*time.Second):
		return errf("-T %d: still waiting for a stalled server (%s) %d seconds later", k.Secs, k.Stage, k.Secs+20)
	}
	return nil
}

func enumCLITimeout(tier string, yield func(cliTimeoutCase)) {
	stages := []string{"registry", "registrybody", "headers", "body", "late"}
	secs := []int{1, 2}
	if tier == "thorough" {
		secs = []int{1, 2, 3, 5, 0}
		for _, st := range stages {
			yield(cliTimeoutCase{st, 30, nil})
		}
	} else {
		yield(cliTimeoutCase{"headers", 30, nil})
	}
	for _, s := range secs {
		for i, st := range stages {
			n := fmt.Sprint(s)
			yield(cliTimeoutCase{st, s, [][]string{{"-T", n}, {"--timeout=" + n}, {"-T" + n}, {"--timeout", n}}[(i+s)%4]})
		}
	}
}

func init() {
	register(&Prop{ID: "C32", Level: "exploration",
		Rule:        "argument vectors in sandbox mode (by CLIOptions and by --exp=sandbox) with cache directory, certificate, key, PKCS#12 and @file arguments naming files in a scratch directory by relative, absolute and indirect paths, including sandbox file names. Oracle (non-interference): the run gives the same exit code, output and requests whether the files are absent, valid or garbage, and changes nothing in the scratch directory; only the default cache directory in HOME is written; the three sandbox files load with their known content from a binary built without source paths, and no other name does. All cases are non-trivial.",
		Assumptions: []string{"@file arguments only with CLIOptions.Sandbox: with --exp=sandbox the user asks for the sandbox in the same command line"},
		Subs:        []*Sub{sub("sandbox", 3000, 60000, genSand, checkSand), sub("files", 3000, 60000, genSandFile, checkSandFile)}})
	register(&Prop{ID: "C33", Level: "exploration",
		Rule:        "histories of 2..10 tool runs, ageing of cached files, publications, corruptions and deletions over three directories (one nested), cache disabled and default location (HOME, XDG_CACHE_HOME absolute or relative), four registry URLs (the default one and the experimental one, also by -e and --exp, through an intercepting proxy), five lifetimes, five registries, registry outages. Oracle: a model of cached copies predicts registry requests, the version used and which directory changes. Non-trivial: more than one run.",
		Assumptions: []string{"age is simulated by moving file times"},
		Subs:        []*Sub{sub("runs", 8000, 80000, genRuns, checkRuns)}})
	register(&Prop{ID: "C34", Level: "exploration",
		Rule: "loopback HTTPS servers for registry and RDAP with certificates that are good, chained, expired, not yet valid, for another name or address, self-signed, from an untrusted authority, incomplete chain, wrong usage, issued by a leaf; with and without --insecure; client certificates as PEM, PKCS#12 with and without password, and 14 unusable combinations. Oracle: accept/reject table; on rejection no request is received; the presented client certificate is exactly the configured one. Non-trivial: any deviation from the plain case.",
		Subs: []*Sub{sub("tls", 3000, 60000, genTLS, checkTLS)}})
}
