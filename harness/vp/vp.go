// Package vp is the harness API.  Under the symbolic engine every function
// here is interpreted by the engine itself (vp.Byte is a fresh symbolic byte,
// vp.Assert a solver query, and so on).  Compiled natively, the same calls
// read the solver's values back from a replay file, so that a harness is also
// an ordinary test of the real build.
package vp

import (
	"fmt"
	"os"
	"strings"
)

// Val is one recorded nondeterministic value.
type Val struct {
	K string `json:"k"`
	V int64  `json:"v"`
}

// Obs is one observed value.
type Obs struct {
	L string  `json:"l"`
	V []int64 `json:"v"`
}

// Failure is the panic value of a failed assertion.
type Failure struct{ Msg string }

// Assumed is the panic value of a failed assumption.
type Assumed struct{}

// Diverged is the panic value of a replay whose calls do not match the record.
type Diverged struct{ Msg string }

var (
	vals   []Val
	pos    int
	tier   = "quick"
	obs    []Obs
	covers map[string]bool
)

// Load installs the values for one native run.
func Load(v []Val, t string) {
	vals, pos, tier, obs, covers = v, 0, t, nil, map[string]bool{}
	resetSched()
}

// Result returns what the native run observed.
func Result() ([]Obs, map[string]bool) { return obs, covers }

func next(k string) int64 {
	if pos >= len(vals) {
		panic(Diverged{fmt.Sprintf("value %d (%s) was not recorded", pos, k)})
	}
	v := vals[pos]
	if v.K != k {
		panic(Diverged{fmt.Sprintf("value %d is %s, the run asked for %s", pos, v.K, k)})
	}
	pos++
	return v.V
}

// Byte is an arbitrary byte.
func Byte() byte { return byte(next("byte")) }

// Bool is an arbitrary boolean.
func Bool() bool { return next("bool") != 0 }

// U16 is an arbitrary 16-bit value.
func U16() uint16 { return uint16(next("u16")) }

// U32 is an arbitrary 32-bit value.
func U32() uint32 { return uint32(next("u32")) }

// I64 is an arbitrary 64-bit value.
func I64() int64 { return next("i64") }

// Int is an arbitrary value in lo..hi.
func Int(lo, hi int) int { return int(next("int")) }

// Rune is an arbitrary Unicode scalar value.
func Rune() rune { return rune(next("rune")) }

// Bytes is n arbitrary bytes.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next("byte"))
	}
	return b
}

// Str is a string of n arbitrary bytes.
func Str(n int) string { return string(Bytes(n)) }

// Choose explores each of 0..n-1 as a separate family of paths.
func Choose(n int) int {
	if n == 1 {
		next("choose")
		return 0
	}
	return int(next("choose"))
}

// Range explores each of lo..hi as a separate family of paths.
func Range(lo, hi int) int { return int(next("choose")) }

// Conc enumerates the feasible values of x.
func Conc(x int) int { return x }

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		panic(Assumed{})
	}
}

// Assert states the property.
func Assert(b bool, msg string) {
	if !b {
		panic(Failure{msg})
	}
}

// AssertK states the property where inputs inside region are the known
// finding id.
func AssertK(id string, region, cond bool, msg string) {
	if region {
		for _, k := range strings.Split(os.Getenv("VP_KNOWN"), ",") {
			if k == id {
				return
			}
		}
	}
	if !cond {
		panic(Failure{msg})
	}
}

// Fail reports a violation.
func Fail(msg string) { panic(Failure{msg}) }

// Cover marks a situation the exploration has to reach.
func Cover(l string) { covers[l] = true }

// Param is a bound, by tier.
func Param(name string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

// And does not fork.
func And(a, b bool) bool { return a && b }

// Or does not fork.
func Or(a, b bool) bool { return a || b }

// Not does not fork.
func Not(a bool) bool { return !a }

// Implies does not fork.
func Implies(a, b bool) bool { return !a || b }

// EqBytes compares without forking.
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// EqStr compares without forking.
func EqStr(a, b string) bool { return a == b }

// IteInt selects without forking.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// IteByte selects without forking.
func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}

// Observe records a value that the native run must reproduce.
func Observe(l string, v int) { obs = append(obs, Obs{l, []int64{int64(v)}}) }

// ObsBytes records bytes that the native run must reproduce.
func ObsBytes(l string, v []byte) {
	o := Obs{L: l}
	for _, b := range v {
		o.V = append(o.V, int64(b))
	}
	obs = append(obs, o)
}

// ObsStr records a string that the native run must reproduce.
func ObsStr(l string, v string) { ObsBytes(l, []byte(v)) }

// Try runs f and returns a non-empty description if it panicked.
func Try(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case Failure, Assumed, Diverged:
				panic(r)
			}
			msg = fmt.Sprint(r)
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	f()
	return ""
}

// AbstractTime replaces calendar arithmetic by its contract.
func AbstractTime() {}

// MapOrders explores several iteration orders of each map.
func MapOrders() {}

// IsReplay is true natively.
func IsReplay() bool { return true }

// Debug prints natively.
func Debug(a ...interface{}) {
	if os.Getenv("VP_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, a...)
	}
}
