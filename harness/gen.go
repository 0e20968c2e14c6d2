package main

import (
	"encoding/json"
	"fmt"
	"math/bits"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// Small generator helpers. Every random choice goes through rapid.

// rapid's integer generators favour small values and ends; choices between
// alternatives are made uniform by drawing single bits (which shrink to 0).
var bit = rapid.Bool()

func uni(t *rapid.T, name string, n int) int {
	if n <= 1 {
		return 0
	}
	v := 0
	for k := bits.Len(uint(n-1)) + 2; k > 0; k-- {
		v <<= 1
		if bit.Draw(t, name) {
			v |= 1
		}
	}
	return v % n
}

func pick[T any](t *rapid.T, name string, xs ...T) T {
	return xs[uni(t, name, len(xs))]
}

func chance(t *rapid.T, name string, percent int) bool {
	return uni(t, name, 100) >= 100-percent
}

func intn(t *rapid.T, name string, lo, hi int) int {
	return lo + uni(t, name, hi-lo+1)
}

func word(t *rapid.T, name string) string {
	n := intn(t, name+"n", 1, 6)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte("abcdefghijklmnopqrstuvwxyz"[intn(t, name, 0, 25)])
	}
	return b.String()
}

func randCase(t *rapid.T, s string) string {
	if !chance(t, "anyupper", 50) {
		return s
	}
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' && chance(t, "upper", 50) {
			b[i] -= 32
		}
	}
	return string(b)
}

// unique drops repeated strings, keeping the first.
func unique(xs []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, x := range xs {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

func strEq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func errf(format string, a ...any) error { return fmt.Errorf(format, a...) }

// Q is a string of arbitrary bytes that survives JSON (as a Go literal).
type Q string

func (q Q) MarshalJSON() ([]byte, error) { return json.Marshal(strconv.Quote(string(q))) }
func (q *Q) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	u, err := strconv.Unquote(s)
	*q = Q(u)
	return err
}
