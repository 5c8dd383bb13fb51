// Package sym is the interface between harnesses and the symbolic machine. The machine replaces these
// functions; the bodies here run a harness natively on recorded values.
package sym

import "fmt"

// Run is one native run of a harness.
type Run struct {
	Values   []uint64
	pos      int
	Reached  map[string]int
	Observed []string
	Failures []string
	Known    map[string]string
	Bounds   map[string]int
	Short    bool
}

// R is the current run.
var R *Run

// NeedEnv is the panic value of a native run that needs a process whose environment is exactly as given.
type NeedEnv struct{ Env []string }

// Skipped is the panic value of a failed assumption.
type Skipped struct{}

// Failed is the panic value of a failed assertion that cannot continue.
type Failed struct{ Msg string }

func next() uint64 {
	if R.pos >= len(R.Values) {
		R.Short = true
		return 0
	}
	v := R.Values[R.pos]
	R.pos++
	return v
}

// Bool is any boolean.
func Bool() bool { return next() != 0 }

// Int is any integer of lo..hi.
func Int(lo, hi int) int {
	if lo == hi {
		return lo
	}
	v := int(next())
	if v < lo || v > hi {
		return lo
	}
	return v
}

// Byte is any byte of the alphabet (any byte at all when it is empty).
func Byte(alphabet string) byte {
	v := byte(next())
	if alphabet == "" {
		return v
	}
	for i := 0; i < len(alphabet); i++ {
		if alphabet[i] == v {
			return v
		}
	}
	m := alphabet[0]
	for i := range alphabet {
		if alphabet[i] < m {
			m = alphabet[i]
		}
	}
	return m
}

// String is any string of min to max bytes of the alphabet.
func String(min, max int, alphabet string) string {
	n := min + Choice(max-min+1)
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(alphabet)
	}
	return string(b)
}

// Choice is any of 0..n-1.
func Choice(n int) int {
	if n <= 1 {
		return 0
	}
	v := int(next())
	if v >= n {
		return 0
	}
	return v
}

// Assume drops the runs in which c is false.
func Assume(c bool) {
	if !c {
		panic(Skipped{})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		R.Failures = append(R.Failures, msg)
		panic(Failed{msg})
	}
}

// AssertKnown is an assertion whose failure is the listed finding id.
func AssertKnown(id string, c bool, msg string) {
	if !c {
		if R.Known == nil {
			R.Known = map[string]string{}
		}
		R.Known[id] = msg
		R.Failures = append(R.Failures, msg)
		panic(Failed{msg})
	}
}

// Reach marks a place that the exploration has to reach.
func Reach(label string) {
	if R.Reached == nil {
		R.Reached = map[string]int{}
	}
	R.Reached[label]++
}

// Observe records text that the machine and the native run have to agree on.
func Observe(s string) { R.Observed = append(R.Observed, s) }

// ObserveInt records a number, without a branch.
func ObserveInt(n int64) { R.Observed = append(R.Observed, fmt.Sprint(n)) }

// ObserveBool records a boolean, without a branch.
func ObserveBool(b bool) {
	n := "0"
	if b {
		n = "1"
	}
	R.Observed = append(R.Observed, n)
}

// Symbolic is true in the machine.
func Symbolic() bool { return false }

// Bound is a named bound of the harness.
func Bound(name string, def int) int {
	if v, ok := R.Bounds[name]; ok {
		return v
	}
	return def
}

// And is the conjunction, without a branch.
func And(c ...bool) bool {
	for _, b := range c {
		if !b {
			return false
		}
	}
	return true
}

// Or is the disjunction, without a branch.
func Or(c ...bool) bool {
	for _, b := range c {
		if b {
			return true
		}
	}
	return false
}

// IteInt is a if c, else b, without a branch.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Note prints s when debugging.
func Note(s string) { fmt.Println("note:", s) }

// Yield is a scheduling point.
func Yield() {}

// Quiesce lets the other goroutines run as far as they can and returns how many are left (machine only).
func Quiesce() int { return 0 }

// Goroutines is the number of live goroutines (machine only).
func Goroutines() int { return 1 }

// AlphabetKey has a member of every class of byte that the key grammar distinguishes.
const AlphabetKey = ".'\"019-+ax_ \xc3\x85"
