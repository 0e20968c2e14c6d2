package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"pgregory.net/rapid"
)

// A Prop is one property of /verif/properties.jsonl, decided by its Subs.
type Prop struct {
	ID          string
	Level       string // evidence level
	Rule        string
	Assumptions []string
	Subs        []*Sub
	Race        bool // needs the race-detector build
	Fresh       int  // >0: run this many fresh worker processes (quick), one after another
	Exhaustive  bool
}

// A Sub is one generated check: a generator of cases and an oracle.
type Sub struct {
	Name     string
	Quick    int // cases (all workers together)
	Thorough int
	Heavy    bool // not scaled by VERIF_SCALE

	gen    func(t *rapid.T) any
	decode func(raw json.RawMessage) (any, error)
	check  func(c *Ctx, v any) error
	enum   func(tier string, yield func(any)) // enumerated cases, split over workers
}

func sub[C any](name string, quick, thorough int, gen func(t *rapid.T) C, check func(c *Ctx, v C) error) *Sub {
	return &Sub{
		Name: name, Quick: quick, Thorough: thorough,
		gen: func(t *rapid.T) any { return gen(t) },
		decode: func(raw json.RawMessage) (any, error) {
			var v C
			err := json.Unmarshal(raw, &v)
			return v, err
		},
		check: func(c *Ctx, v any) error { return check(c, v.(C)) },
	}
}

func enumSub[C any](name string, enum func(tier string, yield func(C)), check func(c *Ctx, v C) error) *Sub {
	return &Sub{
		Name: name,
		enum: func(tier string, yield func(any)) { enum(tier, func(v C) { yield(v) }) },
		decode: func(raw json.RawMessage) (any, error) {
			var v C
			err := json.Unmarshal(raw, &v)
			return v, err
		},
		check: func(c *Ctx, v any) error { return check(c, v.(C)) },
	}
}

// Ctx is what a check sees while it judges one case.
type Ctx struct {
	nontrivial bool
	labels     []string
	scratch    string
	cleanups   []func()
}

func (c *Ctx) Label(format string, a ...any) {
	c.labels = append(c.labels, fmt.Sprintf(format, a...))
}

func (c *Ctx) LabelIf(cond bool, s string) {
	if cond {
		c.labels = append(c.labels, s)
	}
}

func (c *Ctx) NonTrivial(b bool) {
	if b {
		c.nontrivial = true
	}
}

func (c *Ctx) Cleanup(f func()) { c.cleanups = append(c.cleanups, f) }

func (c *Ctx) done() {
	for i := len(c.cleanups) - 1; i >= 0; i-- {
		c.cleanups[i]()
	}
	c.cleanups = nil
}

// Scratch returns an empty directory, removed when the case is over.
func (c *Ctx) Scratch() string {
	d, err := os.MkdirTemp(c.scratch, "case")
	if err != nil {
		infra("scratch: %s", err)
	}
	c.Cleanup(func() { os.RemoveAll(d) })
	return d
}

// infra ends the process: the harness itself could not work.
func infra(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: "+format+"\n", a...)
	os.Exit(3)
}

type subStats struct {
	Evaluations int            `json:"evaluations"`
	NonTrivial  []uint64       `json:"nontrivial"` // distinct hashes
	Labels      map[string]int `json:"labels"`
	Samples     []any          `json:"samples"`
	Invalid     int            `json:"invalid"`

	seen map[uint64]bool
}

type failure struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
	Kind     string          `json:"kind"`
	Seed     uint64          `json:"seed"`
	Worker   int             `json:"worker"`
	Tier     string          `json:"tier"`
	Note     string          `json:"note,omitempty"`
}

type workerOut struct {
	Subs    map[string]*subStats `json:"subs"`
	Failure *failure             `json:"failure"`
}

// runCase judges one case; a panic of the code under test is a violation.
func runCase(s *Sub, c *Ctx, v any) (err error) {
	defer c.done()
	defer func() {
		if r := recover(); r != nil {
			if fmt.Sprintf("%T", r) == "*rapid.testError" || strings.Contains(fmt.Sprintf("%T", r), "rapid.") {
				panic(r)
			}
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	return s.check(c, v)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// fakeTB lets rapid run outside of 'go test'.
type fakeTB struct {
	mu     sync.Mutex
	failed bool
	log    strings.Builder
	name   string
}

func (f *fakeTB) Helper()      {}
func (f *fakeTB) Name() string { return f.name }
func (f *fakeTB) add(s string) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.log.Len() < 1<<16 {
		f.log.WriteString(s + "\n")
	}
}
func (f *fakeTB) Logf(format string, a ...any)  { f.add(fmt.Sprintf(format, a...)) }
func (f *fakeTB) Log(a ...any)                  { f.add(fmt.Sprint(a...)) }
func (f *fakeTB) Skipf(format string, a ...any) { panic("skip") }
func (f *fakeTB) Skip(a ...any)                 { panic("skip") }
func (f *fakeTB) SkipNow()                      { panic("skip") }
func (f *fakeTB) Errorf(format string, a ...any) {
	f.add(fmt.Sprintf(format, a...))
	f.Fail()
}
func (f *fakeTB) Error(a ...any) { f.add(fmt.Sprint(a...)); f.Fail() }
func (f *fakeTB) Fatalf(format string, a ...any) {
	f.Errorf(format, a...)
	f.FailNow()
}
func (f *fakeTB) Fatal(a ...any) { f.Error(a...); f.FailNow() }
func (f *fakeTB) FailNow()       { f.Fail(); panic(failNow{}) }
func (f *fakeTB) Fail()          { f.mu.Lock(); f.failed = true; f.mu.Unlock() }
func (f *fakeTB) Failed() bool   { f.mu.Lock(); defer f.mu.Unlock(); return f.failed }

type failNow struct{}

// mix derives well separated seeds.
func mix(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	x := h.Sum64()
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	if x == 0 {
		x = 1
	}
	return x
}

func hashJSON(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		infra("case is not JSON serialisable: %s (%#v)", err, v)
	}
	return b
}

func clip(b []byte, n int) any {
	if len(b) <= n {
		var v any
		if json.Unmarshal(b, &v) == nil {
			return v
		}
	}
	if len(b) > n {
		return string(b[:n]) + "...(cut)"
	}
	return string(b)
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if props[p.ID] != nil {
		panic("duplicate " + p.ID)
	}
	props[p.ID] = p
}

func propIDs() []string {
	var ids []string
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

func writeFile(path string, b []byte) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		infra("%s", err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		infra("%s", err)
	}
}
