package main

import (
	"encoding/binary"
	"math/rand/v2"
	"os"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// FuzzSub is the coverage-guided form of one generated check (thorough tier):
// the fuzzer's bytes are the random choices of the check's own generator, so
// every input is a well-formed case, and its mutations are steered by the
// coverage of the code under test. VERIF_FUZZ is "ID/sub", VERIF_FUZZ_OUT
// receives the smallest failing case.
func FuzzSub(f *testing.F) {
	id, name, ok := strings.Cut(os.Getenv("VERIF_FUZZ"), "/")
	if !ok || props[id] == nil {
		f.Skip("VERIF_FUZZ is not set")
	}
	var s *Sub
	for _, x := range props[id].Subs {
		if x.Name == name {
			s = x
		}
	}
	if s == nil || s.gen == nil {
		f.Fatalf("no generated check %q", name)
	}
	outFile := os.Getenv("VERIF_FUZZ_OUT")
	rnd := rand.New(rand.NewPCG(mix(os.Getenv("VERIF_SEED"), id, name), 1))
	for i := 0; i < 64; i++ {
		b := make([]byte, 0, 1<<14)
		for j := 0; j < 256<<(i%4); j++ {
			b = binary.LittleEndian.AppendUint64(b, rnd.Uint64())
		}
		f.Add(b)
	}
	f.Fuzz(rapid.MakeFuzz(func(t *rapid.T) {
		v := s.gen(t)
		raw := mustJSON(v)
		c := &Ctx{scratch: os.TempDir()}
		if err := runCase(s, c, v); err != nil {
			old, e := os.ReadFile(outFile)
			fl := mustJSON(&failure{Property: id, Sub: name, Error: err.Error(), Case: raw, Kind: "coverage-guided", Tier: "thorough"})
			if e != nil || len(fl) < len(old) {
				os.WriteFile(outFile, fl, 0o644)
			}
			t.Fatalf("%s", err)
		}
	}))
}
