package sx

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func f32(b uint64) float32 { return math.Float32frombits(uint32(b)) }
func f64(b uint64) float64 { return math.Float64frombits(b) }

func jsonQuote(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

// intrinsic models a function; ok false falls back to its body.
type intrinsic func(m *Machine, k *call) (v Value, ok bool)

var none = Tuple{}

// skipInit lists packages whose initialisation is not run.
var skipInit = map[string]bool{"runtime": true, "os": false, "reflect": true, "internal/cpu": true,
	"internal/godebug": true, "crypto/internal/fips140": true, "syscall": true, "encoding/json": true, "encoding/json/v2": true, "internal/poll": false,
	"crypto/tls": true, "crypto/x509": true, "net/http": true, "math/big": true, "verifh/sym": false}

func (m *Machine) i64(v uint64) *Term { return m.T.Const(64, v) }

func str(v Value) *Str   { return v.(*Str) }
func term(v Value) *Term { return v.(*Term) }

func (m *Machine) str(v Value) string { return m.mustConc(v) }

var nilErr = Iface{}

func noop(m *Machine, k *call) (Value, bool) { return m.zeroResult(k.fn), true }

var intrinsics map[string]intrinsic

func lookupIntrinsic(name string, fn *ssa.Function) intrinsic {
	if f := intrinsics[name]; f != nil {
		return f
	}
	if strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "internal/runtime/atomic.") {
		return atomicFn(name[strings.LastIndexByte(name, '.')+1:])
	}
	if strings.HasPrefix(name, "unique.Make[") {
		return func(m *Machine, k *call) (Value, bool) {
			if !m.inInit {
				return nil, false
			}
			return m.zeroResult(k.fn), true
		}
	}
	if fn.Pkg != nil {
		switch fn.Pkg.Pkg.Path() {
		case "internal/race", "internal/msan", "internal/asan":
			if fn.Name() != "init" {
				return noop
			}
		case "internal/godebug":
			if fn.Name() != "init" {
				return func(m *Machine, k *call) (Value, bool) {
					if strings.HasSuffix(name, ".New") {
						return Ptr{obj: m.newObject(byteT, 1, "godebug")}, true
					}
					return m.zeroResult(k.fn), true
				}
			}
		}
	}
	return nil
}

func atomicFn(name string) intrinsic {
	has := func(p string) bool { return strings.HasPrefix(name, p) }
	elemOf := func(k *call) types.Type {
		return k.fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
	}
	pre := func(m *Machine, k *call) Ptr {
		p := k.args[0].(Ptr)
		if p.obj == nil {
			m.nilDeref()
		}
		return p
	}
	raw := func(m *Machine, f func()) { // no race tracking: atomic accesses synchronise
		sv := m.race
		m.race = nil
		f()
		m.race = sv
	}
	switch {
	case has("Load"):
		return func(m *Machine, k *call) (v Value, ok bool) {
			p := pre(m, k)
			m.acquire(p)
			raw(m, func() { v = m.load(p, elemOf(k)) })
			return v, true
		}
	case has("Store"):
		return func(m *Machine, k *call) (Value, bool) {
			p := pre(m, k)
			m.release(p)
			raw(m, func() { m.store(p, k.args[1], elemOf(k)) })
			return none, true
		}
	case has("Add"):
		return func(m *Machine, k *call) (v Value, ok bool) {
			p := pre(m, k)
			m.acquire(p)
			m.release(p)
			raw(m, func() {
				v = m.T.Add(m.load(p, elemOf(k)).(*Term), k.args[1].(*Term))
				m.store(p, v, elemOf(k))
			})
			return v, true
		}
	case has("And"), has("Or"):
		return func(m *Machine, k *call) (v Value, ok bool) {
			p := pre(m, k)
			m.acquire(p)
			m.release(p)
			raw(m, func() {
				o := m.load(p, elemOf(k)).(*Term)
				n := m.T.BAnd(o, k.args[1].(*Term))
				if has("Or") {
					n = m.T.BOr(o, k.args[1].(*Term))
				}
				m.store(p, n, elemOf(k))
				v = o
			})
			return v, true
		}
	case has("Swap"):
		return func(m *Machine, k *call) (v Value, ok bool) {
			p := pre(m, k)
			m.acquire(p)
			m.release(p)
			raw(m, func() {
				v = m.load(p, elemOf(k))
				m.store(p, k.args[1], elemOf(k))
			})
			return v, true
		}
	case has("CompareAndSwap"):
		return func(m *Machine, k *call) (v Value, ok bool) {
			p := pre(m, k)
			m.acquire(p)
			m.release(p)
			var old Value
			raw(m, func() { old = m.load(p, elemOf(k)) })
			if m.branch(m.eq(old, k.args[1]), "cas") {
				raw(m, func() { m.store(p, k.args[2], elemOf(k)) })
				return m.T.True, true
			}
			return m.T.False, true
		}
	}
	return nil
}

// note records which stub was used.
func (m *Machine) note(s string) { m.Stubs[s]++ }

func (m *Machine) input(in Input) { m.inputs = append(m.inputs, in) }

func (m *Machine) inName(s string) string { return fmt.Sprintf("in%d!%s", len(m.inputs), s) }

func symInt(w uint8, kind string) intrinsic {
	return func(m *Machine, k *call) (Value, bool) {
		n := m.str(k.args[0])
		t := m.T.Var(m.inName(n), w, 0, mask(w))
		m.input(Input{Name: n, Kind: kind, T: t})
		return t, true
	}
}

func (m *Machine) boolArgs(v Value) []*Term {
	var out []*Term
	for _, x := range m.leavesOf(v.(Slice)) {
		out = append(out, x.(*Term))
	}
	return out
}

// ifaceIs compares errors like errors.Is.
func (m *Machine) errorsIs(err, target Iface) *Term {
	for depth := 0; depth < 20; depth++ {
		if err.t == nil {
			return m.T.Bool(target.t == nil)
		}
		if target.t != nil && types.Identical(err.t, target.t) && types.Comparable(err.t) {
			if c := m.eq(err, target); c != m.T.False {
				return c
			}
		}
		if r, ok := m.callMethod2(err, "Is", target); ok {
			if b, ok := r.(*Term); ok && m.branch(b, "Is") {
				return m.T.True
			}
		}
		r, ok := m.callMethod2(err, "Unwrap")
		if !ok {
			return m.T.False
		}
		switch x := r.(type) {
		case Iface:
			err = x
			if err.t == nil {
				return m.T.False
			}
		case Slice:
			for _, e := range m.leavesOf(x) {
				if m.errorsIs(e.(Iface), target) == m.T.True {
					return m.T.True
				}
			}
			return m.T.False
		default:
			return m.T.False
		}
	}
	return m.T.False
}

func (m *Machine) callMethod2(x Iface, name string, args ...Value) (Value, bool) {
	fn := m.P.methodByName(x.t, name)
	if fn == nil || fn.Signature.Params().Len() != len(args) {
		return nil, false
	}
	return m.callSync(&Closure{fn: fn}, append([]Value{x.v}, args...)), true
}

// indexByte finds the first byte equal to c (forking).
func (m *Machine) indexByte(b []*Term, c *Term) int {
	for i, x := range b {
		if m.branch(m.T.Eq(x, c), "index byte") {
			return i
		}
	}
	return -1
}

func (m *Machine) countByte(b []*Term, c *Term) *Term {
	n := 0
	for _, x := range b {
		if m.branch(m.T.Eq(x, c), "count byte") {
			n++
		}
	}
	return m.i64(uint64(n))
}

func (m *Machine) indexBytes(a, b []*Term) int {
	for i := 0; i+len(b) <= len(a); i++ {
		cs := make([]*Term, len(b))
		for j := range b {
			cs[j] = m.T.Eq(a[i+j], b[j])
		}
		if m.branch(m.T.And(cs...), "index") {
			return i
		}
	}
	return -1
}

// anyBytes reads a string or byte slice.
func (m *Machine) anyBytes(v Value) []*Term {
	switch x := v.(type) {
	case *Str:
		return m.strBytes(x)
	case Slice:
		return m.bytesOf(x)
	}
	m.unsupported("bytes of %T", v)
	return nil
}

func (m *Machine) anyWin(v Value) (win, bool) {
	switch x := v.(type) {
	case *Str:
		if x.a != nil {
			return m.strWin(x), true
		}
	case Slice:
		if x.s != nil && x.obj.arr != nil && (!x.s.len.IsConst() || x.s.len.val >= bigLen) {
			return win{x.obj.arr, x.s.off, x.s.len}, true
		}
	}
	return win{}, false
}

func (m *Machine) bytesEq(a, b Value) *Term {
	_, oka := m.anyWin(a)
	_, okb := m.anyWin(b)
	if oka || okb {
		return m.winEq(m.winOf(a), m.winOf(b))
	}
	x, y := m.anyBytes(a), m.anyBytes(b)
	if len(x) != len(y) {
		return m.T.False
	}
	cs := make([]*Term, len(x))
	for i := range x {
		cs[i] = m.T.Eq(x[i], y[i])
	}
	return m.T.And(cs...)
}

func (m *Machine) winOf(v Value) win {
	if w, ok := m.anyWin(v); ok {
		return w
	}
	b := m.anyBytes(v)
	return win{&ArrSym{vec: append([]*Term{}, b...)}, m.i64(0), m.i64(uint64(len(b)))}
}

func (m *Machine) compare(a, b Value) *Term {
	x, y := m.anyBytes(a), m.anyBytes(b)
	T := m.T
	n := min(len(x), len(y))
	eqs := make([]*Term, 0, n+1)
	for i := 0; i < n; i++ {
		eqs = append(eqs, T.Eq(x[i], y[i]))
	}
	eq := T.Bool(len(x) == len(y))
	if len(x) == len(y) {
		eq = T.And(eqs...)
	}
	return T.Ite(eq, m.i64(0), T.Ite(m.bytesLess(x, y), m.i64(^uint64(0)), m.i64(1)))
}

// fillBytes overwrites the bytes of a slice.
func (m *Machine) fillBytes(s Slice, b []*Term) {
	off := s.off
	if s.s != nil {
		m.unsupported("write into symbolic window")
	}
	if m.race != nil && len(b) > 0 {
		m.race.access(m, Ptr{obj: s.obj, off: off}, len(b), true)
	}
	for i, x := range b {
		m.set(s.obj, off+i, x)
	}
}

// argIface splits variadic ...interface{}.
func (m *Machine) variadic(v Value) []Value { return m.leavesOf(v.(Slice)) }

func (m *Machine) fmtErrorf(k *call) Value {
	f := m.str(k.args[0])
	args := m.variadic(k.args[1])
	s := m.sprintf(f, args)
	if i := strings.Index(f, "%w"); i >= 0 {
		// which argument
		n := 0
		for j := 0; j < i; j++ {
			if f[j] == '%' {
				if j+1 < len(f) && f[j+1] == '%' {
					j++
					continue
				}
				n++
			}
		}
		if n < len(args) {
			if e, ok := args[n].(Iface); ok && e.t != nil {
				o := m.newObject(m.P.wrapErrT.(*types.Pointer).Elem(), 1, "")
				o.slots[0] = s
				o.slots[1] = e
				return Iface{t: m.P.wrapErrT, v: Ptr{obj: o}}
			}
		}
	}
	return m.newError(s)
}

// writeTo writes text to an io.Writer.
func (m *Machine) writeTo(w Iface, b []*Term) Value {
	if w.t == nil {
		m.nilDeref()
	}
	r, ok := m.callMethod(w, "Write", m.newBytes(b))
	if !ok {
		m.unsupported("Write of %s", w.t)
	}
	return r
}

func (m *Machine) sprint(args []Value, ln bool) *Str {
	s := &fmtState{m: m}
	prevStr := true
	for i, a := range args {
		x := a.(Iface)
		_, isStr := x.v.(*Str)
		if x.t != nil {
			if b, ok := x.t.Underlying().(*types.Basic); !ok || b.Kind() != types.String {
				isStr = false
			}
		}
		if i > 0 && (ln || (!isStr && !prevStr)) {
			s.lit(" ")
		}
		s.arg(x, 'v', fmtFlags{}, 0)
		prevStr = isStr
	}
	if ln {
		s.lit("\n")
	}
	return m.strOf(s.out)
}

// parseInt models strconv.ParseInt/ParseUint/Atoi in base 10.
func (m *Machine) parseInt(s *Str, bitSize int, signed bool, fn string) (Value, bool) {
	T := m.T
	if bitSize == 0 {
		bitSize = 64
	}
	b := m.strBytes(s)
	ret := func(v *Term, st int) (Value, bool) {
		if st != 0 {
			if v == nil {
				v = T.Const(64, 0)
			}
			return Tuple{v, m.numError(fn, st)}, true
		}
		return Tuple{v, nilErr}, true
	}
	if !signed {
		v, st := m.atoiU(b, mask(uint8(bitSize)))
		return ret(v, st)
	}
	neg := false
	if len(b) > 0 {
		if m.branch(T.Eq(b[0], T.Const(8, '-')), "minus") {
			neg = true
			b = b[1:]
		} else if m.branch(T.Eq(b[0], T.Const(8, '+')), "plus") {
			b = b[1:]
		}
	}
	cut := uint64(1) << (bitSize - 1)
	if neg {
		v, st := m.atoiU(b, cut)
		if st == 2 {
			return ret(T.Const(64, -cut), 2)
		}
		if st != 0 {
			return ret(nil, st)
		}
		return ret(T.Neg(v), 0)
	}
	v, st := m.atoiU(b, cut-1)
	if st == 2 {
		return ret(T.Const(64, cut-1), 2)
	}
	return ret(v, st)
}

// ---- time ----

const unixToInternal = 62135596800

// timeParts gives seconds since 1970 and the location name of a time.Time.
func (m *Machine) timeParts(v Value) (sec *Term, loc string, nsec *Term) {
	a := v.(Agg)
	T := m.T
	wall, ext, lp := a[0].(*Term), a[1].(*Term), a[2].(Ptr)
	if !T.Eq(T.Extract(wall, 63, 63), T.Const(1, 0)).IsConst() || T.Extract(wall, 63, 63).val != 0 {
		m.unsupported("time with monotonic clock")
	}
	sec = T.Sub(ext, T.Const(64, unixToInternal))
	nsec = T.BAnd(wall, T.Const(64, 1<<30-1))
	loc = "utc"
	if lp.obj != nil {
		loc = fmt.Sprintf("loc%d", lp.obj.id)
		if g := m.P.Pkgs["time"]; g != nil {
			if o := m.globals[g.Var("localLoc")]; o == lp.obj {
				loc = "local"
			} else if o := m.globals[g.Var("utcLoc")]; o == lp.obj {
				loc = "utc"
			}
		}
	}
	return
}

func (m *Machine) timeUF(part string, sec *Term, loc string) *Term {
	T := m.T
	r := map[string][2]uint64{"year": {1969, 2107}, "month": {1, 12}, "day": {1, 31}, "hour": {0, 23}, "minute": {0, 59}, "second": {0, 59}, "wday": {0, 6}, "yday": {1, 366}}[part]
	if sec.IsConst() || sec.umax > 1<<33 {
		if !m.branch(T.Ult(sec, T.Const(64, 1<<33)), "representable time") {
			m.unsupported("time outside 1970..2106")
		}
	}
	m.note("time zone database: civil fields of an instant are an uninterpreted function of (instant, location)")
	return T.ZExt(T.UF("time!"+loc+"!"+part, 16, r[0], r[1], T.Extract(sec, 33, 0)), 64)
}

func timeField(parts ...string) intrinsic {
	return func(m *Machine, k *call) (Value, bool) {
		sec, loc, _ := m.timeParts(k.args[0])
		if len(parts) == 1 {
			return m.timeUF(parts[0], sec, loc), true
		}
		t := make(Tuple, len(parts))
		for i, p := range parts {
			t[i] = m.timeUF(p, sec, loc)
		}
		return t, true
	}
}

// timeFormat renders a time with the layout elements MySQL text needs; other
// layout text becomes tokens.
func (m *Machine) timeFormat(v Value, layout string) []*Term {
	sec, loc, nsec := m.timeParts(v)
	var out []*Term
	fix := func(part string, w int) {
		t := m.timeUF(part, sec, loc)
		for i := w - 1; i >= 0; i-- {
			out = append(out, m.digit(t, i))
		}
	}
	for len(layout) > 0 {
		switch {
		case strings.HasPrefix(layout, "2006"):
			fix("year", 4)
			layout = layout[4:]
		case strings.HasPrefix(layout, "01"):
			fix("month", 2)
			layout = layout[2:]
		case strings.HasPrefix(layout, "02"):
			fix("day", 2)
			layout = layout[2:]
		case strings.HasPrefix(layout, "15"):
			fix("hour", 2)
			layout = layout[2:]
		case strings.HasPrefix(layout, "04"):
			fix("minute", 2)
			layout = layout[2:]
		case strings.HasPrefix(layout, "05"):
			fix("second", 2)
			layout = layout[2:]
		case strings.HasPrefix(layout, "-0700"), strings.HasPrefix(layout, "MST"), strings.HasPrefix(layout, "Z07:00"), strings.HasPrefix(layout, "Jan"), strings.HasPrefix(layout, "Mon"), strings.HasPrefix(layout, "PM"), strings.HasPrefix(layout, "03"):
			n := 3
			if strings.HasPrefix(layout, "-0700") {
				n = 5
			} else if layout[0] == 'Z' {
				n = 6
			} else if layout[0] == 'P' || layout[0] == '0' {
				n = 2
			}
			for i := 0; i < n; i++ {
				out = append(out, m.T.UF(fmt.Sprintf("timetok!%s!%s!%d", loc, layout[:n], i), 8, '0', '9', m.T.Extract(sec, 33, 0)))
			}
			layout = layout[n:]
		case strings.HasPrefix(layout, ".999999999"):
			if !m.branch(m.T.Eq(nsec, m.T.Const(64, 0)), "nanoseconds") {
				m.unsupported("fractional seconds in time format")
			}
			layout = layout[10:]
		case strings.HasPrefix(layout, ".0"):
			n := 1
			for n < len(layout) && layout[n] == '0' {
				n++
			}
			out = append(out, m.T.Const(8, '.'))
			for i := 0; i < n-1; i++ {
				out = append(out, m.digit(nsec, 8-i))
			}
			layout = layout[n:]
		default:
			out = append(out, m.T.Const(8, uint64(layout[0])))
			layout = layout[1:]
		}
	}
	return out
}

func (m *Machine) appendBytes(dst Value, b []*Term) Value {
	add := make([]Value, len(b))
	for i, x := range b {
		add[i] = x
	}
	if d := dst.(Slice); d.s != nil {
		return m.appendSym(d, &ArrSym{vec: append([]*Term{}, b...)}, m.i64(0), m.i64(uint64(len(b))))
	}
	return m.appendVals(dst.(Slice), add, byteT)
}

func init() {
	intrinsics = map[string]intrinsic{
		// ---- harness primitives ----
		"verifh/sym.Byte": symInt(8, "u8"),
		"verifh/sym.U16":  symInt(16, "u16"),
		"verifh/sym.U32":  symInt(32, "u32"),
		"verifh/sym.U64":  symInt(64, "u64"),
		"verifh/sym.Bool": symInt(0, "bool"),
		"verifh/sym.Int": func(m *Machine, k *call) (Value, bool) {
			n := m.str(k.args[0])
			lo, hi := m.concretize(term(k.args[1]), "bound"), m.concretize(term(k.args[2]), "bound")
			if lo == hi {
				return m.i64(lo), true
			}
			if int64(lo) < 0 {
				m.unsupported("sym.Int with negative bound")
			}
			t := m.T.Var(m.inName(fmt.Sprintf("%s@%d@%d", n, lo, hi)), 64, lo, hi)
			m.input(Input{Name: n, Kind: "int", T: t})
			return t, true
		},
		"verifh/sym.Bytes": func(m *Machine, k *call) (Value, bool) {
			n := m.str(k.args[0])
			l := m.concretizeLen(term(k.args[1]))
			base := m.inName(n)
			ts := make([]*Term, l)
			for i := range ts {
				ts[i] = m.T.Var(fmt.Sprintf("%s.%d", base, i), 8, 0, 255)
			}
			m.input(Input{Name: n, Kind: "bytes", Ts: ts})
			return m.newBytes(ts), true
		},
		"verifh/sym.Big": func(m *Machine, k *call) (Value, bool) {
			n := m.str(k.args[0])
			l := term(k.args[1])
			a := &ArrSym{name: m.inName(n)}
			m.input(Input{Name: n, Kind: "big", Arr: a, Len: l})
			m.nobj++
			o := &Object{id: m.nobj, lay: m.layout(byteT), epoch: m.epoch, arr: a, alen: l, m: m}
			return Slice{obj: o, s: &symWin{m.i64(0), l, l}}, true
		},
		"verifh/sym.Choice": func(m *Machine, k *call) (Value, bool) {
			n := m.str(k.args[0])
			c := m.choice(int(m.concretize(term(k.args[1]), "bound")), "choice "+n)
			m.input(Input{Name: n, Kind: "choice", N: c})
			return m.i64(uint64(c)), true
		},
		"verifh/sym.Concretize": func(m *Machine, k *call) (Value, bool) {
			return m.i64(m.concretize(term(k.args[0]), "harness value")), true
		},
		"verifh/sym.Assume": func(m *Machine, k *call) (Value, bool) {
			m.assume(term(k.args[0]))
			return none, true
		},
		"verifh/sym.Assert": func(m *Machine, k *call) (Value, bool) {
			m.assertTrue(term(k.args[0]), m.str(k.args[1]))
			return none, true
		},
		"verifh/sym.Fail": func(m *Machine, k *call) (Value, bool) {
			m.asserts++
			m.AssertQ++
			m.report("assert", m.str(k.args[0]), m.model)
			panic(endPath{"stop", "failed"})
		},
		"verifh/sym.Reach": func(m *Machine, k *call) (Value, bool) {
			m.Reached[m.str(k.args[0])]++
			return none, true
		},
		"verifh/sym.Expect": func(m *Machine, k *call) (Value, bool) {
			for _, x := range m.variadic(k.args[0]) {
				m.Expected[m.mustConc(x)] = true
			}
			return none, true
		},
		"verifh/sym.Note": func(m *Machine, k *call) (Value, bool) {
			m.Assumes[m.str(k.args[0])] = true
			return none, true
		},
		"verifh/sym.Observe": func(m *Machine, k *call) (Value, bool) {
			x := k.args[1].(Iface)
			v := x.v
			if s, ok := v.(Slice); ok { // snapshot
				if s.obj == nil {
					v = "nil"
				} else if _, isw := m.anyWin(s); !isw {
					v = m.bytesOf(s)
				} else {
					return none, true
				}
			}
			m.obs = append(m.obs, Obs{Name: m.str(k.args[0]), V: v, T: x.t})
			return none, true
		},
		"verifh/sym.And": func(m *Machine, k *call) (Value, bool) { return m.T.And(m.boolArgs(k.args[0])...), true },
		"verifh/sym.Or":  func(m *Machine, k *call) (Value, bool) { return m.T.Or(m.boolArgs(k.args[0])...), true },
		"verifh/sym.Ite": func(m *Machine, k *call) (Value, bool) {
			return m.T.Ite(term(k.args[0]), term(k.args[1]), term(k.args[2])), true
		},
		"verifh/sym.Eq":    func(m *Machine, k *call) (Value, bool) { return m.bytesEq(k.args[0], k.args[1]), true },
		"verifh/sym.EqStr": func(m *Machine, k *call) (Value, bool) { return m.bytesEq(k.args[0], k.args[1]), true },
		"verifh/sym.FloatText": func(m *Machine, k *call) (Value, bool) {
			// text is plain decimal text of the float with these bits
			b := m.bytesOf(k.args[0].(Slice))
			bitsT := term(k.args[1])
			bs := int(m.concretize(term(k.args[2]), "bit size"))
			plain := m.concretize(term(k.args[3]), "plain") == 1
			var x Flt
			if bs == 32 {
				x = Flt{t: m.T.Extract(bitsT, 31, 0), w: 32}
			} else {
				x = Flt{t: bitsT, w: 64}
			}
			match := func(c byte, size int) *Term {
				want := m.ftoa(x, c, -1, true, size)
				if len(want) != len(b) {
					return m.T.False
				}
				cs := make([]*Term, len(b))
				for i := range b {
					cs[i] = m.T.Eq(b[i], want[i])
				}
				return m.T.And(cs...)
			}
			cs := []*Term{match('f', bs)}
			if bs == 32 {
				cs = append(cs, match('f', 64))
			}
			if !plain {
				for _, c := range []byte("eEgG") {
					cs = append(cs, match(c, bs))
				}
			}
			known := m.T.Or(cs...)
			if known.IsConst() && known.val == 1 || x.t.IsConst() {
				return known, true
			}
			// text in another format: known to be wrong for some values, or
			// undecided
			bad, ok := m.badFloats(b, x, bs, plain)
			if !ok {
				return known, true
			}
			if len(bad) == 0 {
				m.unsupported("text of a float in a format that may or may not parse back")
			}
			return m.T.Or(known, m.T.Not(m.T.Or(bad...))), true
		},
		"verifh/sym.Quiesce": func(m *Machine, k *call) (Value, bool) {
			g := k.g
			if g == nil {
				m.unsupported("Quiesce in a nested call")
			}
			if !g.frozen && g.why != "quiesced" {
				g.frozen = true
				g.why = "quiesced"
				g.status = gBlocked
				k.block = true
				return nil, false
			}
			g.why = ""
			return none, true
		},
		"verifh/sym.LibGoroutines": func(m *Machine, k *call) (Value, bool) {
			n, _ := m.libGoroutines()
			return m.i64(uint64(n)), true
		},
		"verifh/sym.Explore": func(m *Machine, k *call) (Value, bool) {
			m.maxPre = int(int64(m.concretize(term(k.args[0]), "bound")))
			m.explore = m.maxPre >= 0
			return none, true
		},
		"verifh/sym.Yield": func(m *Machine, k *call) (Value, bool) {
			m.yieldReq = m.explore && m.nested == 0 && m.preempts < m.maxPre
			return none, true
		},
		"verifh/sym.Races": func(m *Machine, k *call) (Value, bool) {
			m.race = &raceState{sh: map[*Value]*shadow{}, seen: map[string]bool{}}
			return none, true
		},
		"verifh/sym.MapOrder": func(m *Machine, k *call) (Value, bool) {
			m.mapOrder = term(k.args[0]) == m.T.True
			return none, true
		},
		"verifh/sym.Thorough": func(m *Machine, k *call) (Value, bool) { return m.T.Bool(m.Thorough), true },
		"verifh/sym.Symbolic": func(m *Machine, k *call) (Value, bool) { return m.T.True, true },

		"os.NewFile": func(m *Machine, k *call) (Value, bool) {
			t := k.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
			return Ptr{obj: m.newObject(t, 1, "file")}, true
		},
		"reflect.TypeOf": func(m *Machine, k *call) (Value, bool) {
			if !m.inInit { // opaque: only package initialisers keep types around
				return nil, false
			}
			rt := k.fn.Pkg.Type("rtype").Type()
			return Iface{t: types.NewPointer(rt), v: Ptr{obj: m.newObject(byteT, 1, "reflect type")}}, true
		},

		// ---- strconv ----
		"strconv.AppendInt": func(m *Machine, k *call) (Value, bool) {
			if m.concretize(term(k.args[2]), "base") != 10 {
				return nil, false
			}
			return m.appendBytes(k.args[0], m.itoa(term(k.args[1]), true)), true
		},
		"strconv.AppendUint": func(m *Machine, k *call) (Value, bool) {
			if m.concretize(term(k.args[2]), "base") != 10 {
				return nil, false
			}
			return m.appendBytes(k.args[0], m.itoa(term(k.args[1]), false)), true
		},
		"strconv.FormatInt": func(m *Machine, k *call) (Value, bool) {
			if m.concretize(term(k.args[1]), "base") != 10 {
				return nil, false
			}
			return m.strOf(m.itoa(term(k.args[0]), true)), true
		},
		"strconv.FormatUint": func(m *Machine, k *call) (Value, bool) {
			if m.concretize(term(k.args[1]), "base") != 10 {
				return nil, false
			}
			return m.strOf(m.itoa(term(k.args[0]), false)), true
		},
		"strconv.Itoa": func(m *Machine, k *call) (Value, bool) { return m.strOf(m.itoa(term(k.args[0]), true)), true },
		"strconv.ParseInt": func(m *Machine, k *call) (Value, bool) {
			if m.concretize(term(k.args[1]), "base") != 10 {
				return nil, false
			}
			return m.parseInt(str(k.args[0]), int(m.concretize(term(k.args[2]), "bit size")), true, "ParseInt")
		},
		"strconv.ParseUint": func(m *Machine, k *call) (Value, bool) {
			if m.concretize(term(k.args[1]), "base") != 10 {
				return nil, false
			}
			return m.parseInt(str(k.args[0]), int(m.concretize(term(k.args[2]), "bit size")), false, "ParseUint")
		},
		"strconv.Atoi": func(m *Machine, k *call) (Value, bool) {
			return m.parseInt(str(k.args[0]), 64, true, "Atoi")
		},
		"strconv.Quote": func(m *Machine, k *call) (Value, bool) {
			if !str(k.args[0]).isConc() {
				return nil, false
			}
			return mkStr(strconv.Quote(m.str(k.args[0]))), true
		},
		"strconv.AppendFloat": func(m *Machine, k *call) (Value, bool) {
			return m.appendBytes(k.args[0], m.fmtFloat(k.args[1:])), true
		},
		"strconv.FormatFloat": func(m *Machine, k *call) (Value, bool) {
			return m.strOf(m.fmtFloat(k.args)), true
		},

		// ---- math ----
		"math.Float32frombits": func(m *Machine, k *call) (Value, bool) { return Flt{t: term(k.args[0]), w: 32}, true },
		"math.Float64frombits": func(m *Machine, k *call) (Value, bool) { return Flt{t: term(k.args[0]), w: 64}, true },
		"math.Float32bits":     func(m *Machine, k *call) (Value, bool) { return k.args[0].(Flt).t, true },
		"math.Float64bits":     func(m *Machine, k *call) (Value, bool) { return k.args[0].(Flt).t, true },
		"math.IsNaN": func(m *Machine, k *call) (Value, bool) {
			b, _ := m.fltKey(k.args[0].(Flt))
			return m.fltNaN(b), true
		},

		// ---- fmt ----
		"fmt.Sprintf": func(m *Machine, k *call) (Value, bool) {
			return m.sprintf(m.str(k.args[0]), m.variadic(k.args[1])), true
		},
		"fmt.Errorf": func(m *Machine, k *call) (Value, bool) { return m.fmtErrorf(k), true },
		"fmt.Fprintf": func(m *Machine, k *call) (Value, bool) {
			if r, ok := m.fprintBig(k.args[0].(Iface), k.args[1], m.variadic(k.args[2])); ok {
				return r, true
			}
			return m.writeTo(k.args[0].(Iface), m.strBytes(m.sprintf(m.str(k.args[1]), m.variadic(k.args[2])))), true
		},
		"fmt.Fprint": func(m *Machine, k *call) (Value, bool) {
			return m.writeTo(k.args[0].(Iface), m.strBytes(m.sprint(m.variadic(k.args[1]), false))), true
		},
		"fmt.Fprintln": func(m *Machine, k *call) (Value, bool) {
			return m.writeTo(k.args[0].(Iface), m.strBytes(m.sprint(m.variadic(k.args[1]), true))), true
		},
		"fmt.Appendf": func(m *Machine, k *call) (Value, bool) {
			return m.appendBytes(k.args[0], m.strBytes(m.sprintf(m.str(k.args[1]), m.variadic(k.args[2])))), true
		},
		"fmt.Sprint":   func(m *Machine, k *call) (Value, bool) { return m.sprint(m.variadic(k.args[0]), false), true },
		"fmt.Sprintln": func(m *Machine, k *call) (Value, bool) { return m.sprint(m.variadic(k.args[0]), true), true },
		"fmt.Printf":   func(m *Machine, k *call) (Value, bool) { return Tuple{m.i64(0), nilErr}, true },
		"fmt.Println":  func(m *Machine, k *call) (Value, bool) { return Tuple{m.i64(0), nilErr}, true },
		"fmt.Print":    func(m *Machine, k *call) (Value, bool) { return Tuple{m.i64(0), nilErr}, true },

		// ---- errors ----
		"errors.Is": func(m *Machine, k *call) (Value, bool) {
			return m.errorsIs(k.args[0].(Iface), k.args[1].(Iface)), true
		},

		// ---- bytes, strings ----
		"internal/bytealg.IndexByte": func(m *Machine, k *call) (Value, bool) {
			return m.i64(uint64(int64(m.indexByte(m.anyBytes(k.args[0]), term(k.args[1]))))), true
		},
		"internal/bytealg.LastIndexByteString": func(m *Machine, k *call) (Value, bool) { return m.lastIndexByte(k), true },
		"internal/bytealg.LastIndexByte":       func(m *Machine, k *call) (Value, bool) { return m.lastIndexByte(k), true },
		"internal/bytealg.Count": func(m *Machine, k *call) (Value, bool) {
			return m.countByte(m.anyBytes(k.args[0]), term(k.args[1])), true
		},
		"internal/bytealg.Equal":   func(m *Machine, k *call) (Value, bool) { return m.bytesEq(k.args[0], k.args[1]), true },
		"bytes.Equal":              func(m *Machine, k *call) (Value, bool) { return m.bytesEq(k.args[0], k.args[1]), true },
		"internal/bytealg.Compare": func(m *Machine, k *call) (Value, bool) { return m.compare(k.args[0], k.args[1]), true },
		"bytes.Compare":            func(m *Machine, k *call) (Value, bool) { return m.compare(k.args[0], k.args[1]), true },
		"strings.Compare":          func(m *Machine, k *call) (Value, bool) { return m.compare(k.args[0], k.args[1]), true },
		"strings.Index": func(m *Machine, k *call) (Value, bool) {
			return m.i64(uint64(int64(m.indexBytes(m.anyBytes(k.args[0]), m.anyBytes(k.args[1]))))), true
		},
		"bytes.Index": func(m *Machine, k *call) (Value, bool) {
			return m.i64(uint64(int64(m.indexBytes(m.anyBytes(k.args[0]), m.anyBytes(k.args[1]))))), true
		},
		"strings.ToLower": func(m *Machine, k *call) (Value, bool) { return m.caseMap(str(k.args[0]), 'A', 'Z', 0x20) },
		"strings.ToUpper": func(m *Machine, k *call) (Value, bool) { return m.caseMap(str(k.args[0]), 'a', 'z', 0xe0) },
		"strings.Clone":   func(m *Machine, k *call) (Value, bool) { return k.args[0], true },
		"strings.EqualFold": func(m *Machine, k *call) (Value, bool) {
			a, b := m.strBytes(str(k.args[0])), m.strBytes(str(k.args[1]))
			T := m.T
			lower := func(c *Term) *Term {
				return T.Ite(T.And(T.Ule(T.Const(8, 'A'), c), T.Ule(c, T.Const(8, 'Z'))), T.Add(c, T.Const(8, 0x20)), c)
			}
			if !asciiConst(b) {
				a, b = b, a
			}
			if asciiConst(b) {
				// the only longer texts that fold to ASCII are U+212A (k) and U+017F (s)
				memo := map[[2]int]*Term{}
				var match func(i, j int) *Term
				match = func(i, j int) *Term {
					if len(a)-i < len(b)-j || len(a)-i > 3*(len(b)-j) {
						return T.False
					}
					if j == len(b) {
						return T.True
					}
					if r := memo[[2]int{i, j}]; r != nil {
						return r
					}
					c := lower(b[j])
					r := T.Eq(lower(a[i]), c)
					if r != T.False {
						r = T.And(r, match(i+1, j+1))
					}
					text := ""
					switch c.val {
					case 'k':
						text = "\u212a"
					case 's':
						text = "\u017f"
					}
					if n := len(text); n > 0 && i+n <= len(a) {
						cs := []*Term{}
						for x := 0; x < n; x++ {
							cs = append(cs, T.Eq(a[i+x], T.Const(8, uint64(text[x]))))
						}
						if e := T.And(cs...); e != T.False {
							r = T.Or(r, T.And(e, match(i+n, j+1)))
						}
					}
					memo[[2]int{i, j}] = r
					return r
				}
				return match(0, 0), true
			}
			for _, x := range append(append([]*Term{}, a...), b...) {
				if x.umax >= 0x80 && !m.branch(T.Ult(x, T.Const(8, 0x80)), "ascii") {
					return nil, false
				}
			}
			if len(a) != len(b) {
				return T.False, true
			}
			cs := []*Term{}
			for i := range a {
				cs = append(cs, T.Eq(lower(a[i]), lower(b[i])))
			}
			return T.And(cs...), true
		},
		"(*strings.Builder).copyCheck": noop,
		"(*strings.Builder).String": func(m *Machine, k *call) (Value, bool) {
			p := k.args[0].(Ptr)
			l := m.layout(k.fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem())
			return m.sliceToStr(p.obj.get(p.off + l.offs[1]).(Slice)), true
		},
		"internal/stringslite.Clone": func(m *Machine, k *call) (Value, bool) { return k.args[0], true },
		"bytes.Clone": func(m *Machine, k *call) (Value, bool) {
			if s := k.args[0].(Slice); s.obj != nil && s.s == nil && s.len == 0 {
				return m.newBytes(nil), true
			}
			return nil, false
		},

		// ---- encoding/hex ----
		"encoding/hex.EncodeToString": func(m *Machine, k *call) (Value, bool) {
			if _, ok := m.anyWin(k.args[0]); ok {
				m.note("hex dump of a buffer of symbolic length in an error text is not modelled")
				return mkStr("<hex>"), true
			}
			return m.strOf(m.hexText(m.bytesOf(k.args[0].(Slice)), false)), true
		},
		"encoding/hex.Encode": func(m *Machine, k *call) (Value, bool) {
			b := m.hexText(m.bytesOf(k.args[1].(Slice)), false)
			d := k.args[0].(Slice)
			if d.s == nil && d.len < len(b) {
				m.goPanicStr("runtime error: index out of range")
			}
			m.fillBytes(d, b)
			return m.i64(uint64(len(b))), true
		},
		"encoding/hex.Decode": func(m *Machine, k *call) (Value, bool) {
			src := m.bytesOf(k.args[1].(Slice))
			b, st := m.hexDecode(src)
			d := k.args[0].(Slice)
			if d.s == nil && d.len < len(b) {
				m.goPanicStr("runtime error: index out of range")
			}
			m.fillBytes(d, b)
			if st != "" {
				return Tuple{m.i64(uint64(len(b))), m.newError(mkStr(st))}, true
			}
			return Tuple{m.i64(uint64(len(b))), nilErr}, true
		},
		"encoding/hex.DecodeString": func(m *Machine, k *call) (Value, bool) {
			b, st := m.hexDecode(m.strBytes(str(k.args[0])))
			if st != "" {
				return Tuple{m.newBytes(b), m.newError(mkStr(st))}, true
			}
			return Tuple{m.newBytes(b), nilErr}, true
		},

		// ---- encoding/binary on basic values ----
		"encoding/binary.Write": func(m *Machine, k *call) (Value, bool) {
			order, x := k.args[1].(Iface), k.args[2].(Iface)
			vals, ts, ok := m.fixedLeaves(x)
			if !ok {
				return nil, false
			}
			var bs []*Term
			for i, v := range vals {
				w, _, _ := intWidth(ts(i))
				tv := v.(*Term)
				var one []*Term
				for j := uint8(0); j < w/8; j++ {
					one = append(one, m.T.Extract(tv, j*8+7, j*8))
				}
				if strings.Contains(order.t.String(), "big") {
					for i, j := 0, len(one)-1; i < j; i, j = i+1, j-1 {
						one[i], one[j] = one[j], one[i]
					}
				}
				bs = append(bs, one...)
			}
			r := m.writeTo(k.args[0].(Iface), bs).(Tuple)
			return r[1], true
		},
		"encoding/binary.Read": func(m *Machine, k *call) (Value, bool) {
			order, x := k.args[1].(Iface), k.args[2].(Iface)
			pt, ok := x.t.Underlying().(*types.Pointer)
			var n int
			var set func(b []*Term)
			T := m.T
			word := func(b []*Term) *Term {
				c := append([]*Term(nil), b...)
				if !strings.Contains(order.t.String(), "big") {
					for i, j := 0, len(c)-1; i < j; i, j = i+1, j-1 {
						c[i], c[j] = c[j], c[i]
					}
				}
				return T.Concat(c...)
			}
			vals, ts, fixed := m.fixedLeaves(x)
			if !fixed {
				return nil, false
			}
			ws := make([]int, len(vals))
			for i := range vals {
				w, _, _ := intWidth(ts(i))
				ws[i] = int(w / 8)
				n += ws[i]
			}
			set = func(b []*Term) {
				out := make(Agg, len(ws))
				for i, w := range ws {
					out[i] = word(b[:w])
					b = b[w:]
				}
				switch {
				case !ok:
					s := x.v.(Slice)
					for i, v := range out {
						m.set(s.obj, s.off*s.obj.lay.n+i, v)
					}
				case isAgg(pt.Elem()):
					m.store(x.v.(Ptr), out, pt.Elem())
				default:
					m.store(x.v.(Ptr), out[0], pt.Elem())
				}
			}
			buf := m.newBytes(make([]*Term, 0))
			o := m.newObject(byteT, n, "")
			buf = Slice{obj: o, len: n, cap: n}
			fn := m.P.Func("io", "ReadFull")
			r := m.callSync(&Closure{fn: fn}, []Value{k.args[0], buf}).(Tuple)
			if e := r[1].(Iface); e.t != nil {
				return e, true
			}
			set(m.bytesOf(buf))
			return nilErr, true
		},

		// ---- sort, reflect ----
		"sort.Slice": func(m *Machine, k *call) (Value, bool) {
			return m.sortSlice(k, "pdqsort_func", func(n int) []Value {
				return []Value{m.i64(0), m.i64(uint64(n)), m.i64(uint64(bits.Len(uint(n))))}
			})
		},
		"sort.SliceStable": func(m *Machine, k *call) (Value, bool) {
			return m.sortSlice(k, "stable_func", func(n int) []Value { return []Value{m.i64(uint64(n))} })
		},
		"sort.SliceIsSorted": func(m *Machine, k *call) (Value, bool) {
			s, ok := k.args[0].(Iface).v.(Slice)
			if !ok || s.s != nil {
				return nil, false
			}
			for i := s.len - 1; i > 0; i-- {
				if m.branch(m.callSync(k.args[1].(*Closure), []Value{m.i64(uint64(i)), m.i64(uint64(i - 1))}).(*Term), "sorted") {
					return m.T.False, true
				}
			}
			return m.T.True, true
		},
		"reflect.DeepEqual": func(m *Machine, k *call) (Value, bool) {
			return m.deepEqual(k.args[0], k.args[1], nil, 0), true
		},

		// ---- encoding/json ----
		"encoding/json.Marshal": func(m *Machine, k *call) (Value, bool) {
			x := k.args[0].(Iface)
			var out []*Term
			if x.t == nil {
				return Tuple{m.newBytes(m.constBytes("null")), nilErr}, true
			}
			if e := m.jsonMarshal(x.v, x.t, &out); e != nil {
				return Tuple{Slice{}, *e}, true
			}
			return Tuple{m.jsonTextOf(out), nilErr}, true
		},
		"encoding/json.Valid": func(m *Machine, k *call) (Value, bool) {
			fn := m.P.Func("verifh/sym", "JSONValid")
			return m.callSync(&Closure{fn: fn}, []Value{k.args[0]}), true
		},
		"encoding/json.NewEncoder": func(m *Machine, k *call) (Value, bool) {
			t := k.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
			o := m.newObject(t, 1, "")
			m.side[jsonText{o}] = jsonEnc{k.args[0].(Iface)}
			return Ptr{obj: o}, true
		},
		"(*encoding/json.Encoder).SetEscapeHTML": noop,
		"(*encoding/json.Encoder).Encode": func(m *Machine, k *call) (Value, bool) {
			e, ok := m.side[jsonText{k.args[0].(Ptr).obj}].(jsonEnc)
			if !ok {
				m.unsupported("json encoder")
			}
			x := k.args[1].(Iface)
			var out []*Term
			if x.t == nil {
				out = m.constBytes("null")
			} else if e := m.jsonMarshal(x.v, x.t, &out); e != nil {
				return *e, true
			}
			out = append(out, m.T.Const(8, '\n'))
			r, ok := m.callMethod(e.w, "Write", m.newBytes(out))
			if !ok {
				m.unsupported("json encoder")
			}
			return r.(Tuple)[1], true
		},

		// ---- time ----
		"(time.Time).Date":   timeField("year", "month", "day"),
		"(time.Time).Clock":  timeField("hour", "minute", "second"),
		"(time.Time).Year":   timeField("year"),
		"(time.Time).Month":  timeField("month"),
		"(time.Time).Day":    timeField("day"),
		"(time.Time).Hour":   timeField("hour"),
		"(time.Time).Minute": timeField("minute"),
		"(time.Time).Second": timeField("second"),
		"(time.Time).Format": func(m *Machine, k *call) (Value, bool) {
			return m.strOf(m.timeFormat(k.args[0], m.str(k.args[1]))), true
		},
		"(time.Time).AppendFormat": func(m *Machine, k *call) (Value, bool) {
			return m.appendBytes(k.args[1], m.timeFormat(k.args[0], m.str(k.args[2]))), true
		},
		"(time.Time).String": func(m *Machine, k *call) (Value, bool) {
			return m.strOf(m.timeFormat(k.args[0], "2006-01-02 15:04:05.999999999 -0700 MST")), true
		},
		"time.Now": func(m *Machine, k *call) (Value, bool) {
			m.note("time.Now: a virtual clock that only advances when every goroutine waits")
			a := m.zero(k.fn.Signature.Results().At(0).Type()).(Agg)
			a[1] = m.i64(uint64(int64(unixToInternal) + 1700000000 + m.now/1e9))
			a[0] = m.i64(uint64(m.now % 1e9))
			return a, true
		},
		"time.runtimeNano": func(m *Machine, k *call) (Value, bool) { return m.i64(uint64(m.now)), true },
		"time.now": func(m *Machine, k *call) (Value, bool) {
			return Tuple{m.i64(1700000000 + uint64(m.now/1e9)), m.T.Const(32, uint64(m.now%1e9)), m.i64(uint64(m.now))}, true
		},
		"time.Sleep": func(m *Machine, k *call) (Value, bool) {
			g := k.g
			if g == nil {
				return none, true
			}
			if g.why == "slept" {
				g.why = ""
				return none, true
			}
			d := int64(m.concretize(term(k.args[0]), "sleep"))
			m.blockOn(g, "sleep")
			m.addTimer(d, func() { g.status = gRun; g.why = "slept" })
			k.block = true
			return nil, false
		},
		"time.AfterFunc": func(m *Machine, k *call) (Value, bool) {
			tt := k.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
			o := m.newObject(tt, 1, "timer")
			cl := k.args[1].(*Closure)
			vc := m.cur.vc
			t := m.addTimer(int64(m.concretize(term(k.args[0]), "duration")), func() {
				g := m.newG(cl, nil)
				if m.race != nil {
					g.vc = append(VC(nil), vc...)
					g.tick()
				}
			})
			m.setSide(o, t)
			return Ptr{obj: o}, true
		},
		"time.NewTimer": func(m *Machine, k *call) (Value, bool) {
			tt := k.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
			o := m.newObject(tt, 1, "timer")
			ct := tt.Underlying().(*types.Struct).Field(0).Type().Underlying().(*types.Chan).Elem()
			c := m.newChan(1, ct)
			o.slots[0] = c
			t := m.addTimer(int64(m.concretize(term(k.args[0]), "duration")), func() {
				if len(c.buf) == 0 {
					m.doSend(m.gs[0], c, m.zero(ct))
				}
			})
			m.setSide(o, t)
			return Ptr{obj: o}, true
		},
		"time.After": func(m *Machine, k *call) (Value, bool) {
			ct := k.fn.Signature.Results().At(0).Type().Underlying().(*types.Chan).Elem()
			c := m.newChan(1, ct)
			m.addTimer(int64(m.concretize(term(k.args[0]), "duration")), func() {
				if len(c.buf) == 0 {
					m.doSend(m.gs[0], c, m.zero(ct))
				}
			})
			return c, true
		},
		"(*time.Timer).Stop": func(m *Machine, k *call) (Value, bool) {
			t, _ := m.side[k.args[0].(Ptr).obj].(*timer)
			if t == nil || t.dead {
				return m.T.False, true
			}
			t.dead = true
			return m.T.True, true
		},
		"(*time.Timer).Reset": func(m *Machine, k *call) (Value, bool) {
			t, _ := m.side[k.args[0].(Ptr).obj].(*timer)
			if t == nil {
				m.unsupported("Reset of an unknown timer")
			}
			was := !t.dead
			t.at = m.now + int64(m.concretize(term(k.args[1]), "duration"))
			t.dead = false
			return m.T.Bool(was), true
		},

		// ---- sync ----
		"(*sync.Mutex).Lock": func(m *Machine, k *call) (Value, bool) {
			return none, m.tryLock(k, k.args[0].(Ptr), true)
		},
		"(*sync.Mutex).TryLock": func(m *Machine, k *call) (Value, bool) {
			l := m.lock(k.args[0].(Ptr))
			if l.w {
				return m.T.False, true
			}
			l.w = true
			m.acquire(k.args[0].(Ptr))
			return m.T.True, true
		},
		"(*sync.Mutex).Unlock":    func(m *Machine, k *call) (Value, bool) { m.unlock(k.args[0].(Ptr), true); return none, true },
		"(*sync.RWMutex).Lock":    func(m *Machine, k *call) (Value, bool) { return none, m.tryLock(k, k.args[0].(Ptr), true) },
		"(*sync.RWMutex).Unlock":  func(m *Machine, k *call) (Value, bool) { m.unlock(k.args[0].(Ptr), true); return none, true },
		"(*sync.RWMutex).RLock":   func(m *Machine, k *call) (Value, bool) { return none, m.tryLock(k, k.args[0].(Ptr), false) },
		"(*sync.RWMutex).RUnlock": func(m *Machine, k *call) (Value, bool) { m.unlock(k.args[0].(Ptr), false); return none, true },
		"(*sync.WaitGroup).Add": func(m *Machine, k *call) (Value, bool) {
			m.wgAdd(k.args[0].(Ptr), int64(m.concretize(term(k.args[1]), "delta")))
			return none, true
		},
		"(*sync.WaitGroup).Done": func(m *Machine, k *call) (Value, bool) {
			m.wgAdd(k.args[0].(Ptr), -1)
			return none, true
		},
		"(*sync.WaitGroup).Wait": func(m *Machine, k *call) (Value, bool) {
			p := k.args[0].(Ptr)
			l := m.lock(p)
			if l.r > 0 {
				if k.g == nil {
					m.unsupported("Wait in a nested call")
				}
				m.blockOn(k.g, "wait group")
				l.wait = append(l.wait, k.g)
				k.block = true
				return nil, false
			}
			m.acquire(p)
			return none, true
		},
		"(*sync.Pool).Get": func(m *Machine, k *call) (Value, bool) {
			p := k.args[0].(Ptr)
			pt := k.fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
			st := pt.Underlying().(*types.Struct)
			l := m.layout(pt)
			cl, _ := p.obj.get(p.off + l.offs[st.NumFields()-1]).(*Closure)
			if cl == nil {
				return Iface{}, true
			}
			return m.callSync(cl, nil), true
		},
		"(*sync.Pool).Put": noop,
		"(*sync/atomic.Value).Store": func(m *Machine, k *call) (Value, bool) {
			p := k.args[0].(Ptr)
			if p.obj == nil {
				m.nilDeref()
			}
			x := k.args[1].(Iface)
			if x.t == nil {
				m.goPanicStr("sync/atomic: store of nil value into Value")
			}
			if old, ok := p.obj.get(p.off).(Iface); ok && old.t != nil && !types.Identical(old.t, x.t) {
				m.goPanicStr("sync/atomic: store of inconsistently typed value into Value")
			}
			m.release(p)
			m.set(p.obj, p.off, x)
			return none, true
		},
		"(*sync/atomic.Value).Load": func(m *Machine, k *call) (Value, bool) {
			p := k.args[0].(Ptr)
			if p.obj == nil {
				m.nilDeref()
			}
			m.acquire(p)
			return p.obj.get(p.off), true
		},
		"(*sync/atomic.Value).CompareAndSwap": func(m *Machine, k *call) (Value, bool) {
			p := k.args[0].(Ptr)
			m.acquire(p)
			m.release(p)
			if m.branch(m.eq(p.obj.get(p.off), k.args[1]), "cas") {
				m.set(p.obj, p.off, k.args[2])
				return m.T.True, true
			}
			return m.T.False, true
		},
		"(*sync/atomic.Value).Swap": func(m *Machine, k *call) (Value, bool) {
			p := k.args[0].(Ptr)
			m.acquire(p)
			m.release(p)
			old := p.obj.get(p.off)
			m.set(p.obj, p.off, k.args[1])
			return old, true
		},

		// ---- runtime ----
		"runtime.Gosched": func(m *Machine, k *call) (Value, bool) {
			m.yieldReq = m.explore && m.nested == 0
			return none, true
		},
		"runtime.KeepAlive":             noop,
		"runtime.SetFinalizer":          noop,
		"runtime.AddCleanup":            noop,
		"runtime.GC":                    noop,
		"runtime.Caller":                noop,
		"runtime.Callers":               noop,
		"runtime.Stack":                 noop,
		"runtime.ReadMemStats":          noop,
		"runtime/debug.Stack":           noop,
		"os.runtime_args":               noop,
		"os.Getenv":                     noop,
		"os.runtime_beforeExit":         noop,
		"os.Exit":                       func(m *Machine, k *call) (Value, bool) { m.unsupported("os.Exit"); return nil, true },
		"context.runtime_goroutineLeak": noop,
		"internal/bytealg.MakeNoZero": func(m *Machine, k *call) (Value, bool) {
			n := term(k.args[0])
			if !n.IsConst() {
				o := &Object{id: m.nobj, lay: m.layout(byteT), epoch: m.epoch, arr: &ArrSym{zero: true}, alen: n, m: m}
				m.nobj++
				return Slice{obj: o, s: &symWin{m.i64(0), n, n}}, true
			}
			c := roundSize(int(n.val))
			o := m.newObject(byteT, c, "")
			return Slice{obj: o, len: int(n.val), cap: c}, true
		},
	}
	for _, n := range []string{"IndexByteString", "CountString", "CompareString"} {
		intrinsics["internal/bytealg."+n] = intrinsics["internal/bytealg."+strings.TrimSuffix(n, "String")]
	}
	intrinsics["strings.IndexByte"] = intrinsics["internal/bytealg.IndexByte"]
	intrinsics["bytes.IndexByte"] = intrinsics["internal/bytealg.IndexByte"]
	intrinsics["internal/stringslite.Index"] = intrinsics["strings.Index"]
	intrinsics["internal/stringslite.IndexByte"] = intrinsics["strings.IndexByte"]
}

func (m *Machine) setSide(k, v interface{}) {
	m.side[k] = v
}

func (m *Machine) wgAdd(p Ptr, d int64) {
	l := m.lock(p)
	l.r += int(d)
	if l.r < 0 {
		m.goPanicStr("sync: negative WaitGroup counter")
	}
	m.release(p)
	if l.r == 0 {
		for _, g := range l.wait {
			g.status = gRun
		}
		l.wait = nil
	}
}

func (m *Machine) lastIndexByte(k *call) Value {
	b := m.anyBytes(k.args[0])
	for i := len(b) - 1; i >= 0; i-- {
		if m.branch(m.T.Eq(b[i], term(k.args[1])), "last index byte") {
			return m.i64(uint64(i))
		}
	}
	return m.i64(^uint64(0))
}

func (m *Machine) caseMap(s *Str, lo, hi byte, delta uint64) (Value, bool) {
	b := m.strBytes(s)
	T := m.T
	out := make([]*Term, len(b))
	for i, x := range b {
		if x.umax >= 0x80 && !m.branch(T.Ult(x, T.Const(8, 0x80)), "ascii") {
			// concretise what is not ASCII
			for j := range b {
				if j != i {
					continue
				}
			}
			return nil, false
		}
		out[i] = T.Ite(T.And(T.Ule(T.Const(8, uint64(lo)), x), T.Ule(x, T.Const(8, uint64(hi)))), T.Add(x, T.Const(8, delta)), x)
	}
	return m.strOf(out), true
}

func (m *Machine) hexDecode(src []*Term) (out []*Term, st string) {
	for i := 0; i+1 < len(src); i += 2 {
		h, ok := m.unhex(src[i])
		if !ok {
			return out, "encoding/hex: invalid byte"
		}
		l, ok := m.unhex(src[i+1])
		if !ok {
			return out, "encoding/hex: invalid byte"
		}
		out = append(out, m.T.Concat(h, l))
	}
	if len(src)%2 == 1 {
		if _, ok := m.unhex(src[len(src)-1]); !ok {
			return out, "encoding/hex: invalid byte"
		}
		return out, "encoding/hex: odd length hex string"
	}
	return out, ""
}

func (m *Machine) fmtFloat(a []Value) []*Term {
	x := a[0].(Flt)
	c := byte(m.concretize(term(a[1]), "format"))
	p := int(int64(m.concretize(term(a[2]), "precision")))
	bs := int(m.concretize(term(a[3]), "bit size"))
	return m.ftoa(x, c, p, true, bs)
}

func asciiConst(b []*Term) bool {
	for _, x := range b {
		if !x.IsConst() || x.val >= 0x80 {
			return false
		}
	}
	return true
}

// fixedLeaves are the integers of a value encoding/binary reads and writes: an
// integer, array, struct of integers, a pointer to one or a slice of them.
func (m *Machine) fixedLeaves(x Iface) (vals []Value, ts func(int) *types.Basic, ok bool) {
	if x.t == nil {
		return nil, nil, false
	}
	t, v := x.t, x.v
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
		if _, ok := t.Underlying().(*types.Slice); ok {
			return nil, nil, false
		}
		if v.(Ptr).obj == nil {
			return nil, nil, false
		}
		v = m.load(v.(Ptr), t)
	}
	switch a := v.(type) {
	case Agg:
		vals = a
	case Slice:
		if a.s != nil {
			return nil, nil, false
		}
		vals, t = m.leavesOf(a), t.Underlying().(*types.Slice).Elem()
	default:
		vals = []Value{v}
	}
	lt := m.layout(t).leafT
	ts = func(i int) *types.Basic { return lt[i%len(lt)].Underlying().(*types.Basic) }
	for i, l := range lt {
		b, ok := l.Underlying().(*types.Basic)
		if !ok {
			return nil, nil, false
		}
		if w, _, ok := intWidth(b); !ok || w == 0 || b.Kind() == types.Int || b.Kind() == types.Uint || b.Kind() == types.Uintptr {
			return nil, nil, false
		}
		if i < len(vals) {
			if _, ok := vals[i].(*Term); !ok {
				return nil, nil, false
			}
		}
	}
	return vals, ts, true
}

// sortSlice runs the sort of package sort with a swap on the slice's memory.
func (m *Machine) sortSlice(k *call, fn string, args func(n int) []Value) (Value, bool) {
	s, ok := k.args[0].(Iface).v.(Slice)
	f := m.P.Func("sort", fn)
	if !ok || s.s != nil || f == nil {
		return nil, false
	}
	if s.obj == nil || s.len < 2 {
		return none, true
	}
	es := s.obj.lay.n
	swap := &Closure{nat: func(m *Machine, a []Value) Value {
		i, j := int(m.concretize(term(a[0]), "index")), int(m.concretize(term(a[1]), "index"))
		for x := 0; x < es; x++ {
			p, q := (s.off+i)*es+x, (s.off+j)*es+x
			if m.race != nil {
				m.race.access(m, Ptr{obj: s.obj, off: p}, 1, true)
				m.race.access(m, Ptr{obj: s.obj, off: q}, 1, true)
			}
			u, v := s.obj.get(p), s.obj.get(q)
			m.set(s.obj, p, v)
			m.set(s.obj, q, u)
		}
		return none
	}}
	m.callSync(&Closure{fn: f}, append([]Value{Agg{k.args[1], swap}}, args(s.len)...))
	return none, true
}

// deepEqual follows reflect.DeepEqual on acyclic values; t is nil for interfaces.
func (m *Machine) deepEqual(x, y Value, t types.Type, depth int) *Term {
	T := m.T
	if depth > 60 {
		m.unsupported("deep comparison")
	}
	if a, ok := x.(Iface); ok {
		b := y.(Iface)
		if a.t == nil || b.t == nil {
			return T.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return T.False
		}
		return m.deepEqual(a.v, b.v, a.t, depth+1)
	}
	leaves := func(x, y []Value, lt []types.Type) *Term {
		cs := []*Term{}
		for i := range x {
			c := m.deepEqual(x[i], y[i], lt[i%len(lt)], depth+1)
			if c == T.False {
				return c
			}
			cs = append(cs, c)
		}
		return T.And(cs...)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct, *types.Array:
		a, ok := x.(Agg)
		if !ok {
			m.unsupported("deep comparison of %T", x)
		}
		return leaves(a, y.(Agg), m.layout(t).leafT)
	case *types.Pointer:
		a, b := x.(Ptr), y.(Ptr)
		if a.obj == nil || b.obj == nil {
			return T.Bool(a.obj == nil && b.obj == nil)
		}
		if a.obj == b.obj && a.off == b.off && a.idx == nil && b.idx == nil {
			return T.True
		}
		return m.deepEqual(m.load(a, u.Elem()), m.load(b, u.Elem()), u.Elem(), depth+1)
	case *types.Slice:
		a, b := x.(Slice), y.(Slice)
		if a.obj == nil || b.obj == nil {
			return T.Bool(a.obj == nil && b.obj == nil)
		}
		if bt, ok := u.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Byte {
			return m.bytesEq(a, b)
		}
		if a.s != nil || b.s != nil {
			m.unsupported("deep comparison of a slice of symbolic length")
		}
		if a.len != b.len {
			return T.False
		}
		return leaves(m.leavesOf(a), m.leavesOf(b), m.layout(u.Elem()).leafT)
	case *types.Map:
		a, _ := x.(*MapObj)
		b, _ := y.(*MapObj)
		if a == nil || b == nil {
			return T.Bool(a == nil && b == nil)
		}
		m.mapAccess(a, false)
		m.mapAccess(b, false)
		if a.n != b.n {
			return T.False
		}
		cs := []*Term{}
		for i := range a.keys {
			if !a.live[i] {
				continue
			}
			j := m.mapFind(b, a.keys[i])
			if j < 0 {
				return T.False
			}
			c := m.deepEqual(a.vals[i], b.vals[j], u.Elem(), depth+1)
			if c == T.False {
				return c
			}
			cs = append(cs, c)
		}
		return T.And(cs...)
	case *types.Signature:
		a, _ := x.(*Closure)
		b, _ := y.(*Closure)
		return T.Bool(a == nil && b == nil)
	}
	return m.eq(x, y)
}

// fprintBig writes a format of plain verbs with texts of symbolic length among
// the arguments piece by piece, into a memory buffer.
func (m *Machine) fprintBig(w Iface, format Value, args []Value) (Value, bool) {
	f, isStr := format.(*Str)
	if w.t == nil || !isStr || !f.isConc() || (w.t.String() != "*bytes.Buffer" && w.t.String() != "*strings.Builder") {
		return nil, false
	}
	big := func(a Value) (Value, bool) {
		x := a.(Iface)
		if x.t == nil {
			return nil, false
		}
		if _, ok := m.anyWin(x.v); !ok {
			return nil, false
		}
		if _, ok := x.t.(*types.Named); ok {
			return nil, false
		}
		return x.v, true
	}
	any := false
	for _, a := range args {
		if _, ok := big(a); ok {
			any = true
		}
	}
	if !any || strings.Count(f.s, "%") != len(args) {
		return nil, false
	}
	parts := strings.Split(f.s, "%")
	for _, p := range parts[1:] {
		if p == "" || !strings.Contains("svdqxX", p[:1]) {
			return nil, false
		}
	}
	total := m.i64(0)
	put := func(s Slice) {
		r, ok := m.callMethod(w, "Write", s)
		if !ok {
			m.unsupported("Write of %s", w.t)
		}
		total = m.T.Add(total, r.(Tuple)[0].(*Term))
	}
	put(m.newBytes(m.constBytes(parts[0])))
	for i, a := range args {
		verb, rest := parts[i+1][:1], parts[i+1][1:]
		b, ok := big(a)
		switch v := b.(type) {
		case *Str:
			ok = ok && (verb == "s" || verb == "v")
			if ok {
				put(m.strToSlice(v))
			}
		case Slice:
			ok = ok && verb == "s"
			if ok {
				put(v)
			}
		}
		if !ok {
			put(m.newBytes(m.strBytes(m.sprintf("%"+verb, []Value{a}))))
		}
		put(m.newBytes(m.constBytes(rest)))
	}
	return Tuple{total, nilErr}, true
}
