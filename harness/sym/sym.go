// Package sym is the interface between the harnesses and the checker.
//
// The symbolic engine intercepts every function below (except JSONString); in
// the native build they take their values from a recorded input vector, so
// that a counterexample found by the solver is replayed against the compiled
// code.
package sym

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

// RuntimeError represents a Go run-time panic in the symbolic engine.
type RuntimeError string

func (e RuntimeError) Error() string { return "runtime error: " + string(e) }

// RuntimeError marks the type as a runtime.Error.
func (e RuntimeError) RuntimeError() {}

// Value is one recorded input.
type Value struct {
	Name string
	Kind string
	U    uint64
	B    []byte `json:",omitempty"`
}

// Vector is a recorded run.
type Vector struct {
	Property  string
	Harness   string
	Kind      string
	Msg       string
	Where     string
	Thorough  bool
	Inputs    []Value
	Schedule  []string    `json:",omitempty"`
	Obs       [][2]string `json:",omitempty"`
	TZ        string      `json:",omitempty"` // process time zone
	Decisions int
}

var (
	mu       sync.Mutex
	vec      map[string][]Value
	rnd      *rand.Rand
	thorough bool
	stress   int
	// Out is where the outcome goes.
	Out = os.Stdout
	// Log of the values drawn in random mode.
	drawn []Value
	labs  = map[string]int{}
	obsN  int
	// RandomMode is set when inputs are drawn at random (debugging only).
	RandomMode bool
)

// Load sets the inputs of the native run.
func Load(v *Vector) {
	vec = map[string][]Value{}
	for _, x := range v.Inputs {
		vec[x.Name] = append(vec[x.Name], x)
	}
	thorough = v.Thorough
}

// LoadRandom makes the native run draw random inputs.
func LoadRandom(seed int64, th bool) {
	rnd = rand.New(rand.NewSource(seed))
	thorough = th
	RandomMode = true
}

// SetStress perturbs native schedules.
func SetStress(n int) { stress = n }

// Finish reports the outcome and exits.
func Finish(kind, msg string) {
	mu.Lock()
	if rnd != nil && kind == "VIOLATION" {
		b, _ := json.Marshal(drawn)
		fmt.Fprintf(Out, "INPUTS %s\n", b)
	}
	fmt.Fprintf(Out, "%s %s\n", kind, strings.ReplaceAll(msg, "\n", " "))
	for k := range labs {
		fmt.Fprintf(Out, "REACH %s\n", k)
	}
	os.Exit(0)
}

func next(name, kind string, gen func() Value) Value {
	mu.Lock()
	defer mu.Unlock()
	if rnd != nil {
		v := gen()
		v.Name, v.Kind = name, kind
		drawn = append(drawn, v)
		return v
	}
	q := vec[name]
	if len(q) == 0 || q[0].Kind != kind {
		fmt.Fprintf(Out, "DIVERGED no input %s of kind %s\n", name, kind)
		os.Exit(0)
	}
	vec[name] = q[1:]
	return q[0]
}

func interesting(w uint) uint64 {
	switch rnd.Intn(6) {
	case 0:
		return uint64(rnd.Intn(4))
	case 1:
		return ^uint64(rnd.Intn(4))
	case 2:
		return uint64(1)<<uint(rnd.Intn(int(w))) + uint64(rnd.Intn(3)) - 1
	}
	return rnd.Uint64()
}

func num(name, kind string, w uint) uint64 {
	return next(name, kind, func() Value { return Value{U: interesting(w) & (1<<w - 1)} }).U
}

// Byte is any byte.
func Byte(name string) byte { return byte(num(name, "u8", 8)) }

// U16 is any 16-bit value.
func U16(name string) uint16 { return uint16(num(name, "u16", 16)) }

// U32 is any 32-bit value.
func U32(name string) uint32 { return uint32(num(name, "u32", 32)) }

// U64 is any 64-bit value.
func U64(name string) uint64 {
	return next(name, "u64", func() Value { return Value{U: interesting(64)} }).U
}

// Bool is any truth value.
func Bool(name string) bool {
	return next(name, "bool", func() Value { return Value{U: uint64(rnd.Intn(2))} }).U != 0
}

// Int is any value lo..hi.
func Int(name string, lo, hi int) int {
	if lo == hi {
		return lo
	}
	return int(next(name, "int", func() Value {
		switch rnd.Intn(5) {
		case 0:
			return Value{U: uint64(lo)}
		case 1:
			return Value{U: uint64(hi)}
		}
		return Value{U: uint64(lo + rnd.Intn(hi-lo+1))}
	}).U)
}

// Bytes is any byte slice of length n.
func Bytes(name string, n int) []byte {
	v := next(name, "bytes", func() Value {
		b := make([]byte, n)
		rnd.Read(b)
		switch rnd.Intn(3) {
		case 0:
			for i := range b {
				b[i] = 0
			}
		case 1:
			for i := range b {
				b[i] = byte('a' + rnd.Intn(26))
			}
		}
		return Value{B: b}
	})
	b := make([]byte, n)
	copy(b, v.B)
	return b
}

// Big is any byte slice whose (possibly symbolic) length is n.
func Big(name string, n int) []byte {
	v := next(name, "big", func() Value {
		b := make([]byte, n)
		rnd.Read(b)
		return Value{B: b}
	})
	b := make([]byte, n)
	copy(b, v.B)
	return b
}

// Choice is any value 0..n-1, explored one by one.
func Choice(name string, n int) int {
	return int(next(name, "choice", func() Value { return Value{U: uint64(rnd.Intn(n))} }).U)
}

// Concretize explores the possible values of v one by one.
func Concretize(v int) int { return v }

// Assume restricts the exploration.
func Assume(c bool) {
	if !c {
		Finish("ASSUME", "")
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		Finish("VIOLATION", msg)
	}
}

// Fail is Assert(false, msg).
func Fail(msg string) { Finish("VIOLATION", msg) }

// Reach marks a witness.
func Reach(label string) { mu.Lock(); labs[label]++; mu.Unlock() }

// Expect declares witnesses that some path must reach.
func Expect(labels ...string) {}

// Note records an assumption in the evidence.
func Note(text string) {}

// Observe records a value that symbolic and native run must agree on.
func Observe(name string, v interface{}) {
	var s string
	switch x := v.(type) {
	case []byte:
		s = "nil"
		if x != nil {
			s = fmt.Sprintf("x%x", x)
		}
	case string:
		s = fmt.Sprintf("x%x", x)
	default:
		s = fmt.Sprint(v)
	}
	mu.Lock()
	fmt.Fprintf(Out, "OBS %d %s %s\n", obsN, name, s)
	obsN++
	mu.Unlock()
}

// And is a conjunction without short-circuit.
func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

// Or is a disjunction without short-circuit.
func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

// Ite is a conditional value.
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Eq compares byte strings.
func Eq(a, b []byte) bool { return bytes.Equal(a, b) }

// EqStr compares strings.
func EqStr(a, b string) bool { return a == b }

// FloatText reports whether text is decimal text (exponent-free if plain)
// that parses back to the float with these bits.
func FloatText(text []byte, bits uint64, bitSize int, plain bool) bool {
	s := string(text)
	if plain && strings.ContainsAny(s, "eEpPxX_nNiI") {
		return false
	}
	f, err := strconv.ParseFloat(s, bitSize)
	if err != nil {
		return false
	}
	if bitSize == 32 {
		return math.Float32bits(float32(f)) == uint32(bits)
	}
	return math.Float64bits(f) == bits
}

// dump is the stack of all goroutines but the caller's.
func dump() []string {
	b := make([]byte, 1<<16)
	for {
		n := runtime.Stack(b, true)
		if n < len(b) {
			b = b[:n]
			break
		}
		b = make([]byte, 2*len(b))
	}
	gs := strings.Split(string(b), "\n\n")
	return gs[1:]
}

// Quiesce lets every other goroutine run until it blocks or ends.
func Quiesce() {
	calm := 0
	for end := time.Now().Add(4 * time.Second); time.Now().Before(end); {
		busy := false
		for _, g := range dump() {
			if strings.HasPrefix(g, "goroutine ") {
				h, _, _ := strings.Cut(g, "\n")
				if strings.Contains(h, "[running") || strings.Contains(h, "[runnable") || strings.Contains(h, "[sleep") {
					busy = true
				}
			}
		}
		if busy {
			calm = 0
		} else if calm++; calm > 4 {
			return
		}
		time.Sleep(3 * time.Millisecond)
	}
}

// LibGoroutines counts the goroutines of the library and its driver.
func LibGoroutines() int {
	n := 0
	for _, g := range dump() {
		if strings.Contains(g, "github.com/Breeze0806/") {
			n++
		}
	}
	return n
}

// Explore makes the scheduler explore interleavings with at most n preemptions.
func Explore(n int) {}

// Races switches data-race detection on.
func Races() {}

// MapOrder explores map iteration orders.
func MapOrder(on bool) {}

// Thorough reports the tier.
func Thorough() bool { return thorough }

// Symbolic reports whether the symbolic engine is running.
func Symbolic() bool { return false }

// Yield is a point where a native stress run perturbs the schedule.
func Yield() {
	if stress == 0 {
		return
	}
	switch rand.Intn(4) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(rand.Intn(200)) * time.Microsecond)
	case 2:
		time.Sleep(time.Duration(rand.Intn(3)) * time.Millisecond)
	}
}

const hexd = "0123456789abcdef"

// JSONString is encoding/json's rendering of a string (checked against the
// real one by every native validation run).
func JSONString(s []byte) []byte {
	out := []byte{'"'}
	for i := 0; i < len(s); {
		c := s[i]
		if c < 0x80 {
			switch {
			case c == '"' || c == '\\':
				out = append(out, '\\', c)
			case c == '\b':
				out = append(out, '\\', 'b')
			case c == '\f':
				out = append(out, '\\', 'f')
			case c == '\n':
				out = append(out, '\\', 'n')
			case c == '\r':
				out = append(out, '\\', 'r')
			case c == '\t':
				out = append(out, '\\', 't')
			case c < 0x20 || c == '<' || c == '>' || c == '&':
				out = append(out, '\\', 'u', '0', '0', hexd[c>>4], hexd[c&15])
			default:
				out = append(out, c)
			}
			i++
			continue
		}
		n := utf8Len(s[i:])
		if n == 0 {
			out = append(out, "\\ufffd"...)
			i++
			continue
		}
		if n == 3 && c == 0xe2 && s[i+1] == 0x80 && (s[i+2] == 0xa8 || s[i+2] == 0xa9) {
			if s[i+2] == 0xa8 {
				out = append(out, "\\u2028"...)
			} else {
				out = append(out, "\\u2029"...)
			}
			i += 3
			continue
		}
		out = append(out, s[i:i+n]...)
		i += n
	}
	return append(out, '"')
}

// utf8Len is the length of the well-formed UTF-8 sequence s starts with, or 0.
func utf8Len(s []byte) int {
	c := s[0]
	n := 0
	lo, hi := byte(0x80), byte(0xbf)
	switch {
	case c < 0xc2:
		return 0
	case c < 0xe0:
		n = 2
	case c < 0xf0:
		n = 3
		if c == 0xe0 {
			lo = 0xa0
		} else if c == 0xed {
			hi = 0x9f
		}
	case c < 0xf5:
		n = 4
		if c == 0xf0 {
			lo = 0x90
		} else if c == 0xf4 {
			hi = 0x8f
		}
	default:
		return 0
	}
	if len(s) < n || s[1] < lo || s[1] > hi {
		return 0
	}
	for j := 2; j < n; j++ {
		if s[j] < 0x80 || s[j] > 0xbf {
			return 0
		}
	}
	return n
}
