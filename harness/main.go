package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	homedir "github.com/mitchellh/go-homedir"
	"pgregory.net/rapid"
)

// Usage:
//
//	harness run ID TIER OUTDIR        parent: spawn workers, merge, write evidence
//	harness worker ID TIER SEED W N OUT JOURNAL
//	harness replay FILE
//	harness list
const (
	exitOK        = 0
	exitViolation = 1
	exitInfra     = 3
	exitHang      = 4
	exitRace      = 66
)

func main() {
	testing.Init()
	flag.CommandLine.Parse(nil)
	homedir.DisableCache = true
	if len(os.Args) < 2 {
		infra("usage")
	}
	switch os.Args[1] {
	case "list":
		for _, id := range propIDs() {
			fmt.Println(id)
		}
	case "israce":
		p := props[os.Args[2]]
		if p == nil {
			infra("unknown property %s", os.Args[2])
		}
		fmt.Println(p.Race)
	case "run":
		parent(os.Args[2], os.Args[3])
	case "worker":
		worker(os.Args[2:])
	case "replay":
		replay(os.Args[2])
	case "fuzzes":
		fmt.Println(len(fuzzSubs[os.Args[2]]) > 0)
	default:
		infra("unknown command")
	}
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		infra("bad number %q", s)
	}
	return n
}

// ---------------------------------------------------------------- worker

func worker(a []string) {
	id, tier := a[0], a[1]
	seed, err := strconv.ParseUint(a[2], 10, 64)
	if err != nil {
		infra("bad seed")
	}
	w, n := atoi(a[3]), atoi(a[4])
	outFile, journal := a[5], a[6]
	p := props[id]
	if p == nil {
		infra("unknown property")
	}
	scratch := filepath.Dir(outFile)

	out := &workerOut{Subs: map[string]*subStats{}}
	wd := newWatchdog(outFile + ".hang")

	for _, s := range p.Subs {
		st := &subStats{Labels: map[string]int{}, seen: map[uint64]bool{}}
		out.Subs[s.Name] = st

		record := func(c *Ctx, raw []byte) {
			st.Evaluations++
			for _, l := range c.labels {
				st.Labels[l]++
			}
			if c.nontrivial {
				h := hashJSON(raw)
				if !st.seen[h] {
					st.seen[h] = true
					if len(st.Samples) < 2 {
						st.Samples = append(st.Samples, map[string]any{"sub": s.Name, "case": clip(raw, 1500)})
					}
				}
			}
		}

		one := func(v any) (*Ctx, []byte, error) {
			raw := mustJSON(v)
			wd.begin(s.Name, raw)
			if journal != "-" {
				writeFile(journal, mustJSON(&failure{Property: id, Sub: s.Name, Case: raw, Seed: seed, Worker: w, Tier: tier}))
			}
			c := &Ctx{scratch: scratch}
			err := runCase(s, c, v)
			wd.end()
			return c, raw, err
		}

		var fail *failure
		if s.enum != nil {
			i := 0
			s.enum(tier, func(v any) {
				if fail != nil {
					return
				}
				mine := i%n == w
				i++
				if !mine {
					return
				}
				c, raw, err := one(v)
				record(c, raw)
				if err != nil {
					fail = &failure{Error: err.Error(), Case: raw, Kind: "enumerated"}
				}
			})
		}
		if s.gen != nil && fail == nil {
			total := s.Quick
			if tier == "thorough" {
				total = s.Thorough
			}
			if sc := os.Getenv("VERIF_SCALE"); sc != "" {
				f, err := strconv.ParseFloat(sc, 64)
				if err == nil {
					total = int(float64(total)*f) + n
				}
			}
			checks := (total + n - 1) / n
			if checks < 1 {
				checks = 1
			}
			flag.Set("rapid.checks", strconv.Itoa(checks))
			flag.Set("rapid.seed", strconv.FormatUint(mix(seed, id, s.Name, w), 10))
			flag.Set("rapid.nofailfile", "true")
			flag.Set("rapid.shrinktime", "12s")

			tb := &fakeTB{name: id + "/" + s.Name}
			var last *failure
			runRapid(tb, func(t *rapid.T) {
				v := s.gen(t)
				c, raw, err := one(v)
				if last == nil {
					record(c, raw)
				}
				if err != nil {
					last = &failure{Error: err.Error(), Case: raw, Kind: "generated"}
					t.Fatalf("property violated")
				}
			})
			if tb.Failed() {
				if last == nil {
					infra("%s/%s: %s", id, s.Name, tb.log.String())
				}
				fail = last
				// Does the minimal case fail on its own, without rapid?
				v, derr := s.decode(fail.Case)
				if derr != nil {
					infra("case does not decode: %s", derr)
				}
				if _, _, err := one(v); err != nil {
					fail.Error = err.Error()
				} else {
					fail.Note = "did not fail when run again from its JSON form in the same process; replay re-runs the whole worker"
					fail.Kind = "sequence"
				}
			}
		}
		for h := range st.seen {
			st.NonTrivial = append(st.NonTrivial, h)
		}
		if fail != nil {
			fail.Property, fail.Sub, fail.Seed, fail.Worker, fail.Tier = id, s.Name, seed, w, tier
			out.Failure = fail
			break
		}
	}
	writeFile(outFile, mustJSON(out))
	if out.Failure != nil {
		os.Exit(exitViolation)
	}
	os.Exit(exitOK)
}

func runRapid(tb *fakeTB, prop func(t *rapid.T)) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(failNow); !ok {
				panic(r)
			}
		}
	}()
	rapid.Check(tb, prop)
}

type watchdog struct {
	mu    sync.Mutex
	start time.Time
	sub   string
	raw   []byte
}

const hangLimit = 120 * time.Second

func newWatchdog(file string) *watchdog {
	w := &watchdog{}
	go func() {
		for {
			time.Sleep(time.Second)
			w.mu.Lock()
			if !w.start.IsZero() && time.Since(w.start) > hangLimit {
				os.WriteFile(file, mustJSON(&failure{Sub: w.sub, Case: w.raw, Kind: "hang"}), 0o644)
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				os.Stderr.Write(buf)
				os.Exit(exitHang)
			}
			w.mu.Unlock()
		}
	}()
	return w
}

func (w *watchdog) begin(sub string, raw []byte) {
	w.mu.Lock()
	w.start, w.sub, w.raw = time.Now(), sub, raw
	w.mu.Unlock()
}
func (w *watchdog) end() { w.mu.Lock(); w.start = time.Time{}; w.mu.Unlock() }

// ---------------------------------------------------------------- replay

func replay(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		infra("%s", err)
	}
	var f failure
	if err := json.Unmarshal(b, &f); err != nil {
		infra("%s", err)
	}
	p := props[f.Property]
	if p == nil {
		infra("unknown property %q", f.Property)
	}
	if f.Kind == "sequence" {
		// Re-run the whole worker.
		dir, _ := os.MkdirTemp("", "replay")
		n := workersFor(p, f.Tier)
		cmd := exec.Command(os.Args[0], "worker", f.Property, f.Tier, strconv.FormatUint(f.Seed, 10),
			strconv.Itoa(f.Worker), strconv.Itoa(n), filepath.Join(dir, "out.json"), "-")
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		err := cmd.Run()
		os.RemoveAll(dir)
		if err != nil {
			fmt.Printf("FAILS (worker re-run): %v\n", err)
			os.Exit(exitViolation)
		}
		fmt.Println("HOLDS")
		return
	}
	scratch, err := os.MkdirTemp("", "replay")
	if err != nil {
		infra("%s", err)
	}
	defer os.RemoveAll(scratch)
	newW := newWatchdog(filepath.Join(scratch, "hang"))
	for _, s := range p.Subs {
		if s.Name != f.Sub {
			continue
		}
		v, err := s.decode(f.Case)
		if err != nil {
			infra("%s", err)
		}
		tries := 1
		if p.Race {
			tries = 50
		}
		for i := 0; i < tries; i++ {
			newW.begin(s.Name, f.Case)
			err := runCase(s, &Ctx{scratch: scratch}, v)
			newW.end()
			if err != nil {
				fmt.Printf("FAILS: %s\n", err)
				os.RemoveAll(scratch)
				os.Exit(exitViolation)
			}
		}
		fmt.Println("HOLDS")
		return
	}
	infra("unknown sub %q", f.Sub)
}

// ---------------------------------------------------------------- parent

func workersFor(p *Prop, tier string) int {
	if p.Fresh > 0 {
		if tier == "thorough" {
			return p.Fresh * 10
		}
		return p.Fresh
	}
	return 8
}

type wres struct {
	idx    int
	code   int
	out    *workerOut
	stderr string
	hang   *failure
}

func cleanEnv(home string) []string {
	env := []string{
		"PATH=" + os.Getenv("PATH"), "HOME=" + home, "XDG_CACHE_HOME=", "TMPDIR=" + home, "TZ=UTC",
		"GORACE=halt_on_error=1 exitcode=66 history_size=5",
		"GOMAXPROCS=" + os.Getenv("GOMAXPROCS"),
	}
	for _, k := range []string{"VERIF_SCALE", "VERIF_RDAP_BIN"} {
		if v := os.Getenv(k); v != "" {
			env = append(env, k+"="+v)
		}
	}
	return env
}

// running are the workers at work.
var running = struct {
	sync.Mutex
	m map[*os.Process]bool
}{m: map[*os.Process]bool{}}

// replayCase runs a single case in a process of its own.
func replayCase(f failure, dir string) *wres {
	file := filepath.Join(dir, "again.json")
	writeFile(file, mustJSON(&f))
	cmd := exec.Command(os.Args[0], "replay", file)
	cmd.Env = cleanEnv(dir)
	cmd.Dir = dir
	var eb bytes.Buffer
	cmd.Stderr = &limitWriter{w: &eb, n: 1 << 20}
	r := &wres{}
	if err := cmd.Run(); err != nil {
		r.code = -1
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			r.code = ee.ExitCode()
		}
	}
	r.stderr = eb.String()
	return r
}

func runWorker(id, tier string, seed uint64, idx, n int, dir string, journal bool) *wres {
	wdir := filepath.Join(dir, fmt.Sprintf("w%d", idx))
	os.RemoveAll(wdir)
	if err := os.MkdirAll(wdir, 0o755); err != nil {
		infra("%s", err)
	}
	outFile := filepath.Join(wdir, "out.json")
	j := "-"
	if journal {
		j = filepath.Join(wdir, "journal.json")
	}
	cmd := exec.Command(os.Args[0], "worker", id, tier, strconv.FormatUint(seed, 10), strconv.Itoa(idx), strconv.Itoa(n), outFile, j)
	cmd.Env = cleanEnv(wdir)
	cmd.Dir = wdir
	var eb bytes.Buffer
	cmd.Stderr = &limitWriter{w: &eb, n: 1 << 20}
	cmd.Stdout = cmd.Stderr
	err := cmd.Start()
	if err != nil {
		infra("%s", err)
	}
	running.Lock()
	running.m[cmd.Process] = true
	running.Unlock()
	err = cmd.Wait()
	running.Lock()
	delete(running.m, cmd.Process)
	running.Unlock()
	r := &wres{idx: idx, stderr: eb.String()}
	if err != nil {
		r.code = -1
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			r.code = ee.ExitCode()
		}
	}
	if b, e := os.ReadFile(outFile); e == nil {
		var o workerOut
		if json.Unmarshal(b, &o) == nil {
			r.out = &o
		}
	}
	if b, e := os.ReadFile(outFile + ".hang"); e == nil {
		var h failure
		if json.Unmarshal(b, &h) == nil {
			r.hang = &h
		}
	}
	if journal {
		if b, e := os.ReadFile(j); e == nil {
			var h failure
			if json.Unmarshal(b, &h) == nil {
				r.hang = &h
			}
		}
	}
	return r
}

type limitWriter struct {
	w *bytes.Buffer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.w.Len() < l.n {
		l.w.Write(p)
	}
	return len(p), nil
}

func parent(id, tier string) {
	start := time.Now()
	p := props[id]
	if p == nil {
		infra("unknown property %s", id)
	}
	if tier != "quick" && tier != "thorough" {
		infra("unknown tier %s", tier)
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		infra("VERIF_DIR unset")
	}
	vseed := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.Atoi(s)
		if err != nil {
			infra("bad VERIF_SEED %q", s)
		}
		vseed = n
	}
	seed := mix("seed", vseed)

	dir, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		infra("%s", err)
	}
	cleanup := func() {
		// Directories made unwritable by a case must not survive.
		filepath.Walk(dir, func(path string, fi os.FileInfo, err error) error {
			if err == nil && fi.IsDir() {
				os.Chmod(path, 0o700)
			}
			return nil
		})
		os.RemoveAll(dir)
	}

	n := workersFor(p, tier)
	par := 8
	if p.Fresh > 0 {
		par = 4
	}
	results := make([]*wres, n)
	var wg sync.WaitGroup
	sem := make(chan struct{}, par)
	var stop, killed, done bool
	var mu sync.Mutex
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			mu.Lock()
			st := stop
			mu.Unlock()
			if st {
				return
			}
			r := runWorker(id, tier, seed, i, n, dir, false)
			mu.Lock()
			defer mu.Unlock()
			if killed && r.code == -1 {
				return
			}
			results[i] = r
			if r.code != 0 && !stop {
				// The others may end as well, but are not waited for long.
				stop = true
				time.AfterFunc(30*time.Second, func() {
					mu.Lock()
					defer mu.Unlock()
					if done {
						return
					}
					killed = true
					running.Lock()
					for p := range running.m {
						p.Kill()
					}
					running.Unlock()
				})
			}
		}()
	}
	wg.Wait()
	mu.Lock()
	done = true
	mu.Unlock()
	order := append([]*wres{}, results...)
	sort.SliceStable(order, func(i, j int) bool {
		return order[i] != nil && order[i].code == exitViolation && (order[j] == nil || order[j].code != exitViolation)
	})

	var viol *failure
	infraErr := ""
	for _, r := range order {
		if r == nil || r.code == 0 && r.out != nil {
			continue
		}
		switch {
		case r.code == exitViolation && r.out != nil && r.out.Failure != nil:
			if viol == nil || len(r.out.Failure.Case) < len(viol.Case) {
				viol = r.out.Failure
			}
		case r.code == exitInfra || r.code == -1 || r.code == 0:
			infraErr = r.stderr
		default:
			// A crash (fatal runtime error, race report, unrecovered panic in a
			// goroutine of the code) or a hang: run the worker again, writing
			// down each case first.
			if viol != nil {
				continue
			}
			r2 := r
			if r.code == exitHang && r.hang != nil {
				h := *r.hang
				h.Property, h.Seed, h.Worker, h.Tier = id, seed, r.idx, tier
				r2 = replayCase(h, dir)
			} else {
				r2 = runWorker(id, tier, seed, r.idx, n, dir, r.code != exitHang)
			}
			bad := r2.code != 0 && r2.code != exitInfra && r2.code != -1
			kind := "crash"
			if r.code == exitHang {
				kind = "hang"
			} else if r.code == exitRace {
				kind = "race"
				bad = true // a race report is proof by itself
			}
			if !bad {
				infraErr = "not reproducible: " + r.stderr
				continue
			}
			f := r2.hang
			if f == nil {
				f = r.hang
			}
			if r2.code == exitViolation && r2.out != nil && r2.out.Failure != nil {
				f = r2.out.Failure
			} else if f == nil {
				f = &failure{Case: json.RawMessage("null")}
			}
			f.Property, f.Seed, f.Worker, f.Tier = id, seed, r.idx, tier
			if f.Kind == "" || kind != "crash" {
				f.Kind = kind
			}
			if f.Error == "" {
				f.Error = kind + ": " + head(r.stderr, 6000)
			}
			if viol == nil {
				viol = f
			}
		}
	}

	// Merge the evidence.
	evals, distinct := 0, 0
	labels := map[string]int{}
	perSub := map[string]any{}
	var samples []any
	for _, s := range p.Subs {
		seen := map[uint64]bool{}
		ev := 0
		sl := map[string]int{}
		taken := 0
		for _, r := range results {
			if r == nil || r.out == nil || r.out.Subs[s.Name] == nil {
				continue
			}
			st := r.out.Subs[s.Name]
			ev += st.Evaluations
			for _, h := range st.NonTrivial {
				seen[h] = true
			}
			for k, v := range st.Labels {
				labels[s.Name+"/"+k] += v
				sl[k] += v
			}
			for _, x := range st.Samples {
				if taken < 2 {
					samples = append(samples, x)
					taken++
				}
			}
		}
		evals += ev
		distinct += len(seen)
		perSub[s.Name] = map[string]any{"evaluations": ev, "distinct_nontrivial": len(seen), "labels": sl}
	}
	fuzzed := map[string]any{}
	if tier == "thorough" && viol == nil && infraErr == "" && os.Getenv("VERIF_FUZZ_BIN") != "" {
		secs := 120
		if s := os.Getenv("VERIF_FUZZ_SECS"); s != "" {
			secs = atoi(s)
		}
		for _, name := range fuzzSubs[id] {
			st, f, trouble := fuzz(id, name, vseed, secs, dir)
			fuzzed[name] = st
			if f != nil {
				viol = f
				break
			}
			if trouble != "" {
				infraErr = "fuzzing: " + tail(trouble, 3000)
			}
		}
	}
	violations := 0
	if viol != nil {
		violations = 1
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": vseed, "level": p.Level,
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": distinct, "rule": p.Rule,
			"samples": samples, "per_check": perSub,
		},
		"assumptions": p.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	if len(fuzzed) > 0 {
		ev["coverage"].(map[string]any)["coverage_guided"] = fuzzed
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	writeFile(filepath.Join(verif, "evidence", id+".json"), append(eb, '\n'))
	cleanup()

	if os.Getenv("VERIF_V") != "" {
		var ks []string
		for k := range labels {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("  label %-60s %d\n", k, labels[k])
		}
	}

	if viol != nil {
		name := fmt.Sprintf("%s-%s-%016x.json", id, viol.Sub, hashJSON(viol.Case))
		path := filepath.Join(verif, "replays", name)
		rb, _ := json.MarshalIndent(viol, "", " ")
		writeFile(path, append(rb, '\n'))
		fmt.Printf("%s [%s] %s\ncase: %s\n", id, viol.Sub, head(viol.Error, 3000), head(string(viol.Case), 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		os.Exit(exitViolation)
	}
	if infraErr != "" {
		fmt.Fprintf(os.Stderr, "HARNESS-ERROR: %s\n", head(infraErr, 4000))
		os.Exit(exitInfra)
	}
	fmt.Printf("%s %s: held on %d cases (%d distinct non-trivial), %.1fs\n", id, tier, evals, distinct, time.Since(start).Seconds())
}

func head(s string, n int) string {
	s = strings.TrimSpace(s)
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
