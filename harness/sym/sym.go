// Package sym declares the symbolic inputs and the assertions of the harnesses.
//
// The symbolic executor gives every function here its own meaning; the code below is the native one, used to replay
// a counterexample or a sampled path against the real build: inputs come, in order, from a recorded list.
package sym

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"reflect"
	"strconv"
	"strings"
)

var (
	inputs []string
	pos    int
	// Obs are the observations of the current run.
	Obs []string
	// Failed lists the assertions that failed.
	Failed []string
	// Reached lists the labels reached.
	Reached []string
	// IsThorough is the tier.
	IsThorough bool
	known      string
)

// Stop is the panic value that ends a run early.
type Stop struct{ Why string }

// Start begins a run with the given inputs.
func Start(in []string, thorough bool) {
	inputs, pos, Obs, Failed, Reached, IsThorough, known = in, 0, nil, nil, nil, thorough, ""
}

func next(kind string) string {
	if pos >= len(inputs) {
		panic(Stop{"inputs exhausted at " + kind})
	}
	k, v, _ := strings.Cut(inputs[pos], "=")
	pos++
	if k != kind {
		panic(Stop{"input kind mismatch: want " + kind + " have " + k})
	}
	return v
}

func num(kind string, w int, signed bool) *big.Int {
	v := next(kind)
	r := new(big.Int)
	if s, ok := strings.CutPrefix(v, "#"); ok {
		r.SetString(s, 16)
		if signed && r.Bit(w-1) == 1 {
			r.Sub(r, new(big.Int).Lsh(big.NewInt(1), uint(w)))
		}
		return r
	}
	r.SetString(v, 10)
	return r
}

// Symbolic values of the basic types.
func Int() int       { return int(num("int", 64, true).Int64()) }
func Int8() int8     { return int8(num("int8", 8, true).Int64()) }
func Int16() int16   { return int16(num("int16", 16, true).Int64()) }
func Int32() int32   { return int32(num("int32", 32, true).Int64()) }
func Int64() int64   { return int64(num("int64", 64, true).Int64()) }
func Uint() uint     { return uint(num("uint", 64, false).Uint64()) }
func Uint8() uint8   { return uint8(num("uint8", 8, false).Uint64()) }
func Uint16() uint16 { return uint16(num("uint16", 16, false).Uint64()) }
func Uint32() uint32 { return uint32(num("uint32", 32, false).Uint64()) }
func Uint64() uint64 { return uint64(num("uint64", 64, false).Uint64()) }
func Bool() bool     { return next("bool") == "1" }
func Float64() float64 {
	return math.Float64frombits(num("float64", 64, false).Uint64())
}
func Float32() float32 {
	return math.Float32frombits(uint32(num("float32", 32, false).Uint64()))
}

// Choice is one of 0..n-1, split without the solver.
func Choice(n int) int {
	if n <= 1 {
		next("choice")
		return 0
	}
	v, _ := strconv.Atoi(next("choice"))
	return v
}

// IntIn is a symbolic integer lo..hi (constants).
func IntIn(lo, hi int) int { return int(num("intin", 64, true).Int64()) }

func unhex(v string) []byte {
	r := make([]byte, len(v)/2)
	for i := range r {
		b, _ := strconv.ParseUint(v[2*i:2*i+2], 16, 8)
		r[i] = byte(b)
	}
	return r
}

// String is a string of exactly n arbitrary bytes.
func String(n int) string { return string(unhex(next("string"))) }

// StringOf is a string of exactly n bytes of the alphabet.
func StringOf(n int, alphabet string) string { return string(unhex(next("string"))) }

// Bytes is a slice of exactly n arbitrary bytes.
func Bytes(n int) []byte { return unhex(next("string")) }

// BigInt is an arbitrary integer of magnitude below 2^bits.
func BigInt(bits int) *big.Int { return num("big", 1<<20, true) }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(Stop{"assumption"})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		Failed = append(Failed, msg)
		panic(Stop{"assert " + msg})
	}
}

// Reach marks a label every complete exploration has to reach (vacuity guard).
func Reach(label string) { Reached = append(Reached, label) }

// Known marks the inputs of a recorded finding: assertions that fail under cond, until KnownEnd, belong to it.
func Known(id string, cond bool) {
	if cond {
		known = id
	}
}

// KnownEnd ends the region of Known.
func KnownEnd() { known = "" }

// KnownNow is the current known finding region.
func KnownNow() string { return known }

// Thorough tells the tier.
func Thorough() bool { return IsThorough }

// Fork makes the executor split on c.
func Fork(c bool) bool { return c }

// Eq is true when both values are equal; it exists to compare without a path split in the executor.
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// And, Or, Not and Implies combine conditions without a path split in the executor.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }

// Observe records a value the executor must predict exactly.
func Observe(v any) { Obs = append(Obs, obs(v, 0)) }

func obs(v any, d int) string {
	if v == nil {
		return "nil"
	}
	return obsV(reflect.ValueOf(v), d)
}

var errT = reflect.TypeOf((*error)(nil)).Elem()

func obsV(v reflect.Value, d int) string {
	if d > 6 {
		return "?"
	}
	t := v.Type()
	if t.Kind() == reflect.Pointer {
		if v.IsNil() {
			return "nilptr"
		}
		if t == reflect.TypeOf((*big.Int)(nil)) && v.CanInterface() {
			return "z" + v.Interface().(*big.Int).String()
		}
		if t.Elem().PkgPath() == "math/big" {
			return "?"
		}
	}
	if t.Kind() == reflect.Interface {
		if v.IsNil() {
			return "nil"
		}
		return obsV(v.Elem(), d+1)
	}
	if t.Implements(errT) {
		return "error"
	}
	switch t.Kind() {
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Float64:
		if f := v.Float(); f != f {
			return "fNaN"
		}
		return fmt.Sprintf("f%x", math.Float64bits(v.Float()))
	case reflect.Float32:
		if f := v.Float(); f != f {
			return "fNaN"
		}
		return fmt.Sprintf("f%x", math.Float32bits(float32(v.Float())))
	case reflect.String:
		return fmt.Sprintf("s%x", v.String())
	case reflect.Slice, reflect.Array:
		r := "["
		for i := 0; i < v.Len(); i++ {
			r += obsV(v.Index(i), d+1) + ","
		}
		return r + "]"
	case reflect.Struct:
		r := "{"
		for i := 0; i < v.NumField(); i++ {
			r += obsV(v.Field(i), d+1) + ","
		}
		return r + "}"
	}
	return "?"
}

// Debug prints when SYM_DEBUG is set (native only).
func Debug(a ...any) {
	if os.Getenv("SYM_DEBUG") != "" {
		fmt.Println(a...)
	}
}
