// Package sx is a symbolic executor for Go programs in SSA form.
package sx

import (
	"fmt"
	"math/bits"
	"os"
	"sort"
	"strings"
)

// Op is a term constructor.
type Op uint8

// Term constructors.  Width 0 is Bool, otherwise a bit-vector of 1..64 bits.
const (
	OConst Op = iota
	OVar
	OUF // uninterpreted function application (name, args)
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OAdd
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLShr
	OAShr
	OConcat
	OExtract
	OSExt
)

var opNames = [...]string{"const", "var", "uf", "not", "and", "or", "=", "bvult", "bvule", "bvslt", "bvsle", "ite",
	"bvadd", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvnot",
	"bvshl", "bvlshr", "bvashr", "concat", "extract", "sext"}

// Term is a hash-consed expression.
type Term struct {
	op         Op
	w          uint8
	hi, lo     uint8
	id         uint32
	val        uint64
	name       string
	args       []*Term
	umin, umax uint64
	// solver bookkeeping
	defined uint32 // solver generation in which a definition was sent
	vars    []*Term
	varsSet bool
	size    uint32
}

type tkey struct {
	op, w, hi, lo uint8
	val           uint64
	name          string
	a, b, c       uint32
	rest          string
}

// TT is a term table; it is not safe for concurrent use.
type TT struct {
	m      map[tkey]*Term
	next   uint32
	small  [65][]*Term
	True   *Term
	False  *Term
	Simps  uint64
	consts map[[2]uint64]*Term
	digs   map[*Term]digInfo // decimal characters made by digit
	cores  map[*Term]digInfo // the same before '0' is added
	hexs   map[*Term]*Term   // hexadecimal character -> nibble
}

// NewTT returns an empty term table.
func NewTT() *TT {
	t := &TT{m: map[tkey]*Term{}, consts: map[[2]uint64]*Term{}, next: 1}
	t.False = &Term{op: OConst, w: 0, val: 0}
	t.True = &Term{op: OConst, w: 0, val: 1, umin: 1, umax: 1}
	t.reg(t.False)
	t.reg(t.True)
	return t
}

func (t *TT) reg(x *Term) { x.id = t.next; t.next++ }

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

// Const returns the constant v of width w.
func (t *TT) Const(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return t.True
		}
		return t.False
	}
	v &= mask(w)
	if v < 512 {
		s := t.small[w]
		if s == nil {
			s = make([]*Term, 512)
			t.small[w] = s
		}
		if x := s[v]; x != nil {
			return x
		}
		x := &Term{op: OConst, w: w, val: v, umin: v, umax: v}
		t.reg(x)
		s[v] = x
		return x
	}
	k := [2]uint64{uint64(w), v}
	if x := t.consts[k]; x != nil {
		return x
	}
	x := &Term{op: OConst, w: w, val: v, umin: v, umax: v}
	t.reg(x)
	t.consts[k] = x
	return x
}

// Bool returns a Boolean constant.
func (t *TT) Bool(b bool) *Term {
	if b {
		return t.True
	}
	return t.False
}

// IsConst reports whether x is a constant.
func (x *Term) IsConst() bool { return x.op == OConst }

// Width of x.
func (x *Term) Width() uint8 { return x.w }

// Val of a constant.
func (x *Term) Val() uint64 { return x.val }

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (t *TT) mk(x Term) *Term {
	k := tkey{op: uint8(x.op), w: x.w, hi: x.hi, lo: x.lo, val: x.val, name: x.name}
	switch len(x.args) {
	case 0:
	case 1:
		k.a = x.args[0].id
	case 2:
		k.a, k.b = x.args[0].id, x.args[1].id
	case 3:
		k.a, k.b, k.c = x.args[0].id, x.args[1].id, x.args[2].id
	default:
		var sb strings.Builder
		for _, a := range x.args {
			sb.WriteByte(byte(a.id))
			sb.WriteByte(byte(a.id >> 8))
			sb.WriteByte(byte(a.id >> 16))
			sb.WriteByte(byte(a.id >> 24))
		}
		k.rest = sb.String()
	}
	if y := t.m[k]; y != nil {
		return y
	}
	y := &x
	y.size = 1
	for _, a := range y.args {
		if y.size < 1<<30 {
			y.size += a.size
		}
	}
	if y.w > 0 && y.op != OVar && y.op != OUF {
		t.rng(y)
	}
	t.reg(y)
	t.m[k] = y
	return y
}

// Var declares (or returns) the variable of that name with a value range.
func (t *TT) Var(name string, w uint8, lo, hi uint64) *Term {
	if w > 0 && hi > mask(w) {
		hi = mask(w)
	}
	return t.mk(Term{op: OVar, w: w, name: name, umin: lo, umax: hi})
}

// UF applies an uninterpreted function whose results lie in lo..hi.
func (t *TT) UF(name string, w uint8, lo, hi uint64, args ...*Term) *Term {
	if w > 0 && hi > mask(w) {
		hi = mask(w)
	}
	return t.mk(Term{op: OUF, w: w, name: name, umin: lo, umax: hi, args: args})
}

// rng computes the unsigned range of a fresh term.
func (t *TT) rng(x *Term) {
	m := mask(x.w)
	x.umin, x.umax = 0, m
	a := x.args
	switch x.op {
	case OIte:
		x.umin, x.umax = min(a[1].umin, a[2].umin), max(a[1].umax, a[2].umax)
	case OAdd:
		lo, c1 := bits.Add64(a[0].umin, a[1].umin, 0)
		hi, c2 := bits.Add64(a[0].umax, a[1].umax, 0)
		if x.w < 64 {
			if hi <= m {
				x.umin, x.umax = lo, hi
			} else if lo > m && hi <= 2*m+1 {
				x.umin, x.umax = lo&m, hi&m
			}
		} else if c1 == c2 {
			x.umin, x.umax = lo, hi
		}
	case OMul:
		h1, hi := bits.Mul64(a[0].umax, a[1].umax)
		if h1 == 0 && hi <= m {
			x.umin, x.umax = a[0].umin*a[1].umin, hi
		}
	case OUDiv:
		if a[1].umin > 0 {
			x.umin, x.umax = a[0].umin/a[1].umax, a[0].umax/a[1].umin
		}
	case OURem:
		if a[1].umin > 0 {
			x.umax = min(a[0].umax, a[1].umax-1)
		}
	case OConcat:
		var lo, hi uint64
		for _, p := range a {
			if p.w >= 64 {
				lo, hi = p.umin, p.umax
				continue
			}
			lo = lo<<p.w | p.umin
			hi = hi<<p.w | p.umax
		}
		x.umin, x.umax = lo, hi
	case OExtract:
		// exact only when nothing above is cut off
		if x.lo == 0 {
			if a[0].umax <= m {
				x.umin, x.umax = a[0].umin, a[0].umax
			}
		} else {
			lo, hi := a[0].umin>>x.lo, a[0].umax>>x.lo
			if hi <= m {
				x.umin, x.umax = lo, hi
			}
		}
	case OBAnd:
		x.umax = min(a[0].umax, a[1].umax)
	case OBOr:
		x.umin = max(a[0].umin, a[1].umin)
		n := bits.Len64(a[0].umax | a[1].umax)
		x.umax = mask(uint8(n))
		if n == 0 {
			x.umax = 0
		}
	case OBXor:
		n := bits.Len64(a[0].umax | a[1].umax)
		if n < 64 {
			x.umax = uint64(1)<<n - 1
		}
	case OLShr:
		x.umax = a[0].umax
	}
}

// ---- Boolean ----

// Not negates.
func (t *TT) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return t.Bool(a.val == 0)
	case ONot:
		return a.args[0]
	case OUlt:
		return t.Ule(a.args[1], a.args[0])
	case OUle:
		return t.Ult(a.args[1], a.args[0])
	case OSlt:
		return t.Sle(a.args[1], a.args[0])
	case OSle:
		return t.Slt(a.args[1], a.args[0])
	case OEq:
		// 1-bit: x != c  is x == ~c
		if a.args[0].w == 1 && a.args[1].IsConst() {
			return t.Eq(a.args[0], t.Const(1, a.args[1].val^1))
		}
	}
	return t.mk(Term{op: ONot, args: []*Term{a}})
}

func (t *TT) nary(op Op, in []*Term) *Term {
	unit, zero := t.True, t.False
	if op == OOr {
		unit, zero = t.False, t.True
	}
	var out []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		out = append(out, x)
		return true
	}
	for _, x := range in {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	k := 0
	for i, x := range out {
		if i > 0 && x == out[k-1] {
			continue
		}
		out[k] = x
		k++
	}
	out = out[:k]
	if len(out) == 1 {
		return out[0]
	}
	if len(out) <= 64 {
		set := map[*Term]bool{}
		for _, x := range out {
			set[x] = true
		}
		for _, x := range out {
			if x.op == ONot && set[x.args[0]] {
				return zero
			}
			if x.op == OUlt && set[t.Not(x)] {
				return zero
			}
		}
	}
	return t.mk(Term{op: op, args: append([]*Term(nil), out...)})
}

// And of any number of conditions.
func (t *TT) And(a ...*Term) *Term { return t.nary(OAnd, a) }

// Or of any number of conditions.
func (t *TT) Or(a ...*Term) *Term { return t.nary(OOr, a) }

// segs gives the concat pieces of x, most significant first.
func segs(x *Term) []*Term {
	if x.op == OConcat {
		return x.args
	}
	return []*Term{x}
}

// align cuts a and b into pieces of equal widths.
func (t *TT) align(a, b *Term) (pa, pb []*Term) {
	sa, sb := segs(a), segs(b)
	i, j := 0, 0
	var ca, cb *Term
	for {
		if ca == nil {
			if i == len(sa) {
				return
			}
			ca = sa[i]
			i++
		}
		if cb == nil {
			cb = sb[j]
			j++
		}
		switch {
		case ca.w == cb.w:
			pa, pb = append(pa, ca), append(pb, cb)
			ca, cb = nil, nil
		case ca.w > cb.w:
			pa = append(pa, t.Extract(ca, ca.w-1, ca.w-cb.w))
			pb = append(pb, cb)
			ca = t.Extract(ca, ca.w-cb.w-1, 0)
			cb = nil
		default:
			pb = append(pb, t.Extract(cb, cb.w-1, cb.w-ca.w))
			pa = append(pa, ca)
			cb = t.Extract(cb, cb.w-ca.w-1, 0)
			ca = nil
		}
	}
}

// Eq is equality of two terms of the same width.
func (t *TT) Eq(a, b *Term) *Term {
	if a == b {
		return t.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d %d", a.w, b.w))
	}
	if a.IsConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.IsConst() {
			if a.IsConst() {
				return t.Bool(a.val == b.val)
			}
			if b.val == 1 {
				return a
			}
			return t.Not(a)
		}
		if t.Not(a) == b {
			return t.False
		}
		if a.id > b.id {
			a, b = b, a
		}
		return t.mk(Term{op: OEq, args: []*Term{a, b}})
	}
	if a.IsConst() && b.IsConst() {
		return t.Bool(a.val == b.val)
	}
	if a.umax < b.umin || b.umax < a.umin {
		return t.False
	}
	if a.op == OConcat || b.op == OConcat {
		pa, pb := t.align(a, b)
		if len(pa) > 1 {
			cs := make([]*Term, len(pa))
			for i := range pa {
				cs[i] = t.Eq(pa[i], pb[i])
				if cs[i] == t.False {
					return t.False
				}
			}
			return t.And(cs...)
		}
	}
	if b.IsConst() {
		switch a.op {
		case OAdd:
			if a.args[1].IsConst() {
				return t.Eq(a.args[0], t.Const(a.w, b.val-a.args[1].val))
			}
		case OBNot:
			return t.Eq(a.args[0], t.Const(a.w, ^b.val))
		case OBXor:
			if a.args[1].IsConst() {
				return t.Eq(a.args[0], t.Const(a.w, b.val^a.args[1].val))
			}
		case OIte:
			x, y := a.args[1], a.args[2]
			if x.IsConst() || y.IsConst() || disjoint(x, b) || disjoint(y, b) {
				return t.Ite(a.args[0], t.Eq(x, b), t.Eq(y, b))
			}
		case OSExt:
			iw := a.args[0].w
			lowc := b.val & mask(iw)
			if uint64(sext64(lowc, iw))&mask(a.w) != b.val {
				return t.False
			}
			return t.Eq(a.args[0], t.Const(iw, lowc))
		}
	}
	if a.op == OIte && b.op != OIte && (a.args[1] == b || a.args[2] == b) {
		if a.args[1] == b {
			return t.Or(a.args[0], t.Eq(a.args[2], b))
		}
		return t.Or(t.Not(a.args[0]), t.Eq(a.args[1], b))
	}
	if b.op == OIte && a.op != OIte && (b.args[1] == a || b.args[2] == a) {
		return t.Eq(b, a)
	}
	if a.op == OIte && b.op == OIte && a.args[0] == b.args[0] {
		return t.Ite(a.args[0], t.Eq(a.args[1], b.args[1]), t.Eq(a.args[2], b.args[2]))
	}
	if (a.op == OAdd || a.op == OMul) && (b.op == OAdd || b.op == OMul) {
		l := lin{w: a.w}
		if l.add(a, 1) && l.add(b, mask(a.w)) {
			d := t.build(&l)
			if d.IsConst() {
				return t.Bool(d.val == 0)
			}
			if d.op != OAdd && d.op != OMul {
				return t.Eq(d, t.Const(a.w, 0))
			}
			if a.op == OAdd && b.op == OAdd {
				switch {
				case a.args[0] == b.args[0]:
					return t.Eq(a.args[1], b.args[1])
				case a.args[1] == b.args[1]:
					return t.Eq(a.args[0], b.args[0])
				}
			}
		}
	}
	if a.op == OSExt && b.op == OSExt && a.args[0].w == b.args[0].w {
		return t.Eq(a.args[0], b.args[0])
	}
	if !b.IsConst() && a.id > b.id {
		a, b = b, a
	}
	return t.mk(Term{op: OEq, args: []*Term{a, b}})
}

func disjoint(x, b *Term) bool { return x.umax < b.umin || x.umin > b.umax }

// dropLead removes leading zero bits common to a and b.
func (t *TT) dropLead(a, b *Term) (*Term, *Term) {
	n := min(bits.LeadingZeros64(a.umax), bits.LeadingZeros64(b.umax)) - (64 - int(a.w))
	if n <= 0 {
		return a, b
	}
	if int(a.w) == n {
		n--
	}
	if n <= 0 {
		return a, b
	}
	ok := func(x *Term) bool { return x.op == OConst || x.op == OConcat }
	if (a.op == OConcat || b.op == OConcat) && ok(a) && ok(b) {
		return t.Extract(a, a.w-1-uint8(n), 0), t.Extract(b, b.w-1-uint8(n), 0)
	}
	return a, b
}

// Ult is unsigned less-than.
func (t *TT) Ult(a, b *Term) *Term {
	if a == b {
		return t.False
	}
	if a.umax < b.umin {
		return t.True
	}
	if a.umin >= b.umax {
		return t.False
	}
	a, b = t.dropLead(a, b)
	if b.IsConst() && b.val == 1 {
		return t.Eq(a, t.Const(a.w, 0))
	}
	if a.IsConst() && a.val == mask(a.w)-1 {
		return t.Eq(b, t.Const(a.w, mask(a.w)))
	}
	if a.IsConst() && a.val == 0 {
		return t.Not(t.Eq(b, a))
	}
	if a.op == OIte && b.IsConst() {
		x, y := t.Ult(a.args[1], b), t.Ult(a.args[2], b)
		if x.IsConst() || y.IsConst() {
			return t.Ite(a.args[0], x, y)
		}
	}
	if b.op == OIte && a.IsConst() {
		x, y := t.Ult(a, b.args[1]), t.Ult(a, b.args[2])
		if x.IsConst() || y.IsConst() {
			return t.Ite(b.args[0], x, y)
		}
	}
	if a.op == OAdd && a.args[1].IsConst() && b.IsConst() {
		if x, c := a.args[0], a.args[1].val; x.umax <= mask(a.w)-c { // no wrap
			if b.val <= c {
				return t.False
			}
			return t.Ult(x, t.Const(a.w, b.val-c))
		} else if nc := (-c) & mask(a.w); x.umin >= nc && b.val <= mask(a.w)-nc {
			return t.Ult(x, t.Const(a.w, b.val+nc))
		}
	}
	if b.op == OAdd && b.args[1].IsConst() && a.IsConst() {
		if x, c := b.args[0], b.args[1].val; x.umax <= mask(a.w)-c {
			if a.val < c {
				return t.True
			}
			return t.Ult(t.Const(a.w, a.val-c), x)
		} else if nc := (-c) & mask(a.w); x.umin >= nc && a.val <= mask(a.w)-nc {
			return t.Ult(t.Const(a.w, a.val+nc), x)
		}
	}
	// udiv(x,c) < k  ==  x < k*c
	if b.IsConst() && a.op == OUDiv && a.args[1].IsConst() {
		h, l := bits.Mul64(b.val, a.args[1].val)
		if h == 0 && l <= mask(a.w) {
			return t.Ult(a.args[0], t.Const(a.w, l))
		}
	}
	if a.IsConst() && b.op == OUDiv && b.args[1].IsConst() {
		h, l := bits.Mul64(a.val+1, b.args[1].val)
		if h == 0 && l <= mask(a.w) && a.val != ^uint64(0) {
			return t.Not(t.Ult(b.args[0], t.Const(a.w, l)))
		}
	}
	return t.mk(Term{op: OUlt, args: []*Term{a, b}})
}

// Ule is unsigned less-or-equal.
func (t *TT) Ule(a, b *Term) *Term {
	if a == b {
		return t.True
	}
	if a.umax <= b.umin {
		return t.True
	}
	if a.umin > b.umax {
		return t.False
	}
	if b.IsConst() && b.val < mask(b.w) {
		return t.Ult(a, t.Const(a.w, b.val+1))
	}
	if a.IsConst() && a.val > 0 {
		return t.Ult(t.Const(a.w, a.val-1), b)
	}
	a, b = t.dropLead(a, b)
	return t.mk(Term{op: OUle, args: []*Term{a, b}})
}

// signKnown returns (true, s) when the top bit of a is always s.
func signKnown(a *Term) (bool, bool) {
	h := uint64(1) << (a.w - 1)
	if a.umax < h {
		return true, false
	}
	if a.umin >= h {
		return true, true
	}
	return false, false
}

// Slt is signed less-than.
func (t *TT) Slt(a, b *Term) *Term {
	if a == b {
		return t.False
	}
	ka, sa := signKnown(a)
	kb, sb := signKnown(b)
	if ka && kb {
		if sa != sb {
			return t.Bool(sa)
		}
		return t.Ult(a, b)
	}
	if b.IsConst() && b.val == 0 {
		return t.Eq(t.Extract(a, a.w-1, a.w-1), t.Const(1, 1))
	}
	if a.IsConst() && a.val == mask(a.w) { // -1 < b  <=>  b >= 0
		return t.Eq(t.Extract(b, b.w-1, b.w-1), t.Const(1, 0))
	}
	if a.op == OIte && b.IsConst() && (a.args[1].IsConst() || a.args[2].IsConst()) {
		return t.Ite(a.args[0], t.Slt(a.args[1], b), t.Slt(a.args[2], b))
	}
	if a.op == OSExt && b.op == OSExt && a.args[0].w == b.args[0].w {
		return t.Slt(a.args[0], b.args[0])
	}
	if a.op == OSExt && b.IsConst() {
		iw := a.args[0].w
		v := sext64(b.val, b.w)
		lo, hi := -(int64(1) << (iw - 1)), int64(1)<<(iw-1)-1
		if v > hi {
			return t.True
		}
		if v <= lo {
			return t.False
		}
		return t.Slt(a.args[0], t.Const(iw, uint64(v)))
	}
	if b.op == OSExt && a.IsConst() {
		iw := b.args[0].w
		v := sext64(a.val, a.w)
		lo, hi := -(int64(1) << (iw - 1)), int64(1)<<(iw-1)-1
		if v < lo {
			return t.True
		}
		if v >= hi {
			return t.False
		}
		return t.Slt(t.Const(iw, uint64(v)), b.args[0])
	}
	return t.mk(Term{op: OSlt, args: []*Term{a, b}})
}

// Sle is signed less-or-equal.
func (t *TT) Sle(a, b *Term) *Term {
	if a == b {
		return t.True
	}
	ka, sa := signKnown(a)
	kb, sb := signKnown(b)
	if ka && kb {
		if sa != sb {
			return t.Bool(sa)
		}
		return t.Ule(a, b)
	}
	if b.IsConst() && b.val != mask(b.w)>>1 {
		return t.Slt(a, t.Const(a.w, b.val+1))
	}
	if a.IsConst() && a.val != uint64(1)<<(a.w-1) {
		return t.Slt(t.Const(a.w, a.val-1), b)
	}
	return t.mk(Term{op: OSle, args: []*Term{a, b}})
}

// Ite is if-then-else.
func (t *TT) Ite(c, a, b *Term) *Term {
	if c.IsConst() {
		if c.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return t.Ite(c.args[0], b, a)
	}
	if a.w == 0 {
		switch {
		case a.IsConst() && b.IsConst():
			if a.val == 1 {
				return c
			}
			return t.Not(c)
		case a.IsConst() && a.val == 1:
			return t.Or(c, b)
		case a.IsConst():
			return t.And(t.Not(c), b)
		case b.IsConst() && b.val == 1:
			return t.Or(t.Not(c), a)
		case b.IsConst():
			return t.And(c, a)
		}
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if b.op == OIte && b.args[1] == a {
		return t.Ite(t.Or(c, b.args[0]), a, b.args[2])
	}
	if a == b {
		return a
	}
	return t.mk(Term{op: OIte, w: a.w, args: []*Term{c, a, b}})
}

// ---- bit-vectors ----

// Concat of pieces, most significant first.
func (t *TT) Concat(ps ...*Term) *Term {
	var out []*Term
	push := func(p *Term) {
		if n := len(out); n > 0 {
			l := out[n-1]
			if l.IsConst() && p.IsConst() {
				out[n-1] = t.Const(l.w+p.w, l.val<<p.w|p.val)
				return
			}
			// adjacent extracts of one term
			lb, lh, ll := ext(l)
			pb, ph, pl := ext(p)
			if lb == pb && lb != nil && ll == ph+1 {
				out[n-1] = t.Extract(lb, lh, pl)
				return
			}
			// the low part of a sum was rewritten
			if lb != nil && lb.op == OAdd && ll == p.w && t.Extract(lb, ll-1, 0) == p {
				out[n-1] = t.Extract(lb, lh, 0)
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range ps {
		if p.w == 0 {
			panic("concat of bool")
		}
		if p.op == OConcat {
			for _, q := range p.args {
				push(q)
			}
		} else {
			push(p)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	var w int
	for _, p := range out {
		w += int(p.w)
	}
	if w > 64 {
		panic("concat too wide")
	}
	// 0 ++ extract(k..0, x) is x when x has that width and is small enough
	if len(out) == 2 && out[0].IsConst() && out[0].val == 0 {
		p := out[1]
		if p.op == OExtract && p.lo == 0 && int(p.args[0].w) == w && p.args[0].umax <= mask(p.w) {
			return p.args[0]
		}
		// 0 ++ -x is 2^k-x for 0 < x <= 2^k
		if n := p; p.w < 64 {
			if p.op == OExtract && p.lo == 0 {
				n = p.args[0]
			}
			if n.op == OMul || n.op == OAdd {
				if x := t.negAny(n, mask(p.w)); x != nil && x.umin > 0 {
					x = t.Resize(x, uint8(w), false)
					return t.Sub(t.Const(uint8(w), mask(p.w)+1), x)
				}
			}
		}
		// pull zero-extension over non-wrapping operations
		if p.op == OAdd && p.args[1].IsConst() {
			x, c := p.args[0], p.args[1]
			if x.umax <= mask(p.w)-c.val {
				return t.Add(t.ZExt(x, uint8(w)), t.ZExt(c, uint8(w)))
			}
			if nc := (-c.val) & mask(p.w); x.umin >= nc {
				return t.Add(t.ZExt(x, uint8(w)), t.Const(uint8(w), -nc))
			}
		}
		if p.op == OIte {
			return t.Ite(p.args[0], t.ZExt(p.args[1], uint8(w)), t.ZExt(p.args[2], uint8(w)))
		}
		if (p.op == OUDiv || p.op == OURem) && p.args[1].IsConst() && p.args[1].val != 0 {
			x := t.ZExt(p.args[0], uint8(w))
			c := t.Const(uint8(w), p.args[1].val)
			if p.op == OUDiv {
				return t.UDiv(x, c)
			}
			return t.URem(x, c)
		}
		if p.op == OMul && p.args[1].IsConst() {
			if h, l := bits.Mul64(p.args[0].umax, p.args[1].val); h == 0 && l <= mask(p.w) {
				return t.Mul(t.ZExt(p.args[0], uint8(w)), t.Const(uint8(w), p.args[1].val))
			}
		}
	}
	// 1..1 ++ -x is -x in the wider width
	if len(out) == 2 && out[0].IsConst() && out[0].val == mask(out[0].w) && (out[1].op == OMul || out[1].op == OAdd) {
		if x := t.negAny(out[1], mask(out[1].w)); x != nil && x.umin > 0 {
			return t.Neg(t.ZExt(x, uint8(w)))
		}
	}
	return t.mk(Term{op: OConcat, w: uint8(w), args: append([]*Term(nil), out...)})
}

func ext(x *Term) (*Term, uint8, uint8) {
	if x.op == OExtract {
		return x.args[0], x.hi, x.lo
	}
	return nil, 0, 0
}

// Extract bits hi..lo.
func (t *TT) Extract(x *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == x.w {
		return x
	}
	switch x.op {
	case OConst:
		return t.Const(w, x.val>>lo)
	case OExtract:
		return t.Extract(x.args[0], x.lo+hi, x.lo+lo)
	case OConcat:
		var ps []*Term
		pos := x.w
		for _, p := range x.args {
			ph, pl := pos-1, pos-p.w
			pos = pl
			if pl > hi || ph < lo {
				continue
			}
			h, l := min(ph, hi), max(pl, lo)
			ps = append(ps, t.Extract(p, h-pl, l-pl))
		}
		return t.Concat(ps...)
	case OSExt:
		iw := x.args[0].w
		if hi < iw {
			return t.Extract(x.args[0], hi, lo)
		}
		if lo == 0 {
			return t.SExt(x.args[0], w)
		}
		if lo >= iw-1 {
			return t.SExt(t.Extract(x.args[0], iw-1, iw-1), w)
		}
	case OBNot:
		return t.BNot(t.Extract(x.args[0], hi, lo))
	case OAdd:
		// keep products whole: their other bits may be taken elsewhere
		if lo == 0 && x.args[1].IsConst() && x.args[0].op != OMul && x.args[0].op != OAdd {
			return t.Add(t.Extract(x.args[0], hi, 0), t.Extract(x.args[1], hi, 0))
		}
	case OIte:
		if x.args[1].size < 8 || x.args[2].size < 8 {
			return t.Ite(x.args[0], t.Extract(x.args[1], hi, lo), t.Extract(x.args[2], hi, lo))
		}
	case OBAnd, OBOr, OBXor:
		a, b := t.Extract(x.args[0], hi, lo), t.Extract(x.args[1], hi, lo)
		switch x.op {
		case OBAnd:
			return t.BAnd(a, b)
		case OBOr:
			return t.BOr(a, b)
		}
		return t.BXor(a, b)
	}
	if lo < 64 && x.umax>>lo == 0 {
		return t.Const(w, 0)
	}
	// bits above the range are zero
	if n := uint8(bits.Len64(x.umax)); hi >= n && n > lo && n < x.w {
		return t.Concat(t.Const(hi-n+1, 0), t.Extract(x, n-1, lo))
	}
	return t.mk(Term{op: OExtract, w: w, hi: hi, lo: lo, args: []*Term{x}})
}

// ZExt zero-extends (or returns x unchanged) to width w.
func (t *TT) ZExt(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.w > w {
		return t.Extract(x, w-1, 0)
	}
	return t.Concat(t.Const(w-x.w, 0), x)
}

// SExt sign-extends to width w.
func (t *TT) SExt(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.w > w {
		return t.Extract(x, w-1, 0)
	}
	if x.IsConst() {
		return t.Const(w, uint64(sext64(x.val, x.w)))
	}
	if k, s := signKnown(x); k && !s {
		return t.ZExt(x, w)
	} else if k && s {
		return t.Concat(t.Const(w-x.w, mask(w-x.w)), x)
	}
	if x.op == OSExt {
		return t.SExt(x.args[0], w)
	}
	if x.op == OMul || x.op == OAdd {
		if y := t.negOf(x); y != nil {
			return t.Neg(t.ZExt(y, w))
		}
	}
	return t.mk(Term{op: OSExt, w: w, args: []*Term{x}})
}

// Resize converts x to width w with the given signedness of the source.
func (t *TT) Resize(x *Term, w uint8, signed bool) *Term {
	if signed {
		return t.SExt(x, w)
	}
	return t.ZExt(x, w)
}

// Add modulo 2^w.
func (t *TT) Add(a, b *Term) *Term {
	if a.IsConst() {
		a, b = b, a
	}
	if a.IsConst() {
		return t.Const(a.w, a.val+b.val)
	}
	if b.IsConst() {
		if b.val == 0 {
			return a
		}
		if a.op == OAdd && a.args[1].IsConst() {
			return t.Add(a.args[0], t.Const(a.w, a.args[1].val+b.val))
		}
		if a.op == OIte && a.args[1].IsConst() && a.args[2].IsConst() {
			return t.Ite(a.args[0], t.Add(a.args[1], b), t.Add(a.args[2], b))
		}
		if a.op == OIte && a.size < 40 {
			return t.Ite(a.args[0], t.Add(a.args[1], b), t.Add(a.args[2], b))
		}
	}
	// a constant that leaves the low pieces alone
	if b.IsConst() && a.op == OConcat {
		k := uint8(0)
		for i := len(a.args) - 1; i > 0 && int(k+a.args[i].w) <= bits.TrailingZeros64(b.val); i-- {
			k += a.args[i].w
		}
		if k > 0 {
			return t.Concat(t.Add(t.Extract(a, a.w-1, k), t.Const(a.w-k, b.val>>k)), t.Extract(a, k-1, 0))
		}
	}
	// disjoint pieces: or-like
	if a.op == OConcat || b.op == OConcat {
		if r := t.disjointMerge(a, b); r != nil {
			return r
		}
	}
	if r := t.addLin(a, b); r != nil {
		return r
	}
	if !b.IsConst() && a.id > b.id {
		a, b = b, a
	}
	return t.mk(Term{op: OAdd, w: a.w, args: []*Term{a, b}})
}

// lin is a linear form: sum of c[i]*x[i] plus k, modulo 2^w.
type lin struct {
	w uint8
	x []*Term
	c []uint64
	k uint64
}

const maxLin = 24

// linOf decomposes coef*x; it reports false if the form gets too long.
func (l *lin) add(x *Term, coef uint64) bool {
	switch {
	case x.op == OConst:
		l.k += coef * x.val
		return true
	case x.op == OAdd:
		return l.add(x.args[0], coef) && l.add(x.args[1], coef)
	case x.op == OMul && x.args[1].IsConst():
		return l.add(x.args[0], coef*x.args[1].val)
	}
	for i, y := range l.x {
		if y == x {
			l.c[i] += coef
			return true
		}
	}
	if len(l.x) >= maxLin {
		return false
	}
	l.x = append(l.x, x)
	l.c = append(l.c, coef)
	return true
}

// max is the largest value of the form if it cannot wrap.
func (l *lin) max() (uint64, bool) {
	m := mask(l.w)
	sum := l.k & m
	for i, x := range l.x {
		c := l.c[i] & m
		h, p := bits.Mul64(c, x.umax)
		if h != 0 {
			return 0, false
		}
		var cy uint64
		sum, cy = bits.Add64(sum, p, 0)
		if cy != 0 {
			return 0, false
		}
	}
	return sum, sum <= m
}

// build makes the canonical term of the form.
func (t *TT) build(l *lin) *Term {
	m := mask(l.w)
	// q*c*k + r*k with q = y/c, r = y%c
	for again := true; again; {
		again = false
		for i, x := range l.x {
			if x.op != OURem || l.c[i]&m == 0 || !x.args[1].IsConst() || x.args[1].val == 0 {
				continue
			}
			q := t.UDiv(x.args[0], x.args[1])
			var ql lin
			ql.w = l.w
			if !ql.add(q, 1) || ql.k != 0 || len(ql.x) != 1 || ql.c[0] != 1 {
				continue
			}
			for j, y := range l.x {
				if y == q && (l.c[i]*x.args[1].val-l.c[j])&m == 0 {
					k := l.c[i]
					l.c[i], l.c[j] = 0, 0
					if !l.add(x.args[0], k) {
						l.x = append(l.x, x.args[0])
						l.c = append(l.c, k)
					}
					again = true
					break
				}
			}
			if again {
				break
			}
		}
	}
	type tc struct {
		x *Term
		c uint64
	}
	var ts []tc
	for i, x := range l.x {
		if c := l.c[i] & m; c != 0 {
			ts = append(ts, tc{x, c})
		}
	}
	k := t.Const(l.w, l.k)
	if len(ts) == 0 {
		return k
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].x.id < ts[j].x.id })
	var acc *Term
	for _, y := range ts {
		p := t.scale(y.x, y.c)
		if acc == nil {
			acc = p
		} else {
			acc = t.mk(Term{op: OAdd, w: l.w, args: []*Term{acc, p}})
		}
	}
	if k.val != 0 {
		acc = t.mk(Term{op: OAdd, w: l.w, args: []*Term{acc, k}})
	}
	return acc
}

// scale is c*x for an x that is no sum.
func (t *TT) scale(x *Term, c uint64) *Term {
	c &= mask(x.w)
	switch {
	case c == 1:
		return x
	case bits.OnesCount64(c) == 1:
		return t.shlc(x, uint8(bits.TrailingZeros64(c)))
	case x.op == OIte && x.args[1].IsConst() && x.args[2].IsConst():
		return t.Ite(x.args[0], t.Const(x.w, c*x.args[1].val), t.Const(x.w, c*x.args[2].val))
	}
	return t.mk(Term{op: OMul, w: x.w, args: []*Term{x, t.Const(x.w, c)}})
}

// addLin adds two linear forms.
func (t *TT) addLin(a, b *Term) *Term {
	l := lin{w: a.w}
	if !l.add(a, 1) || !l.add(b, 1) {
		return nil
	}
	return t.build(&l)
}

// splitBy separates l = g*q + r with r < g; ok false if that is not possible
// without wrapping.
func (l *lin) splitBy(g uint64) (q, r lin, ok bool) {
	q, r = lin{w: l.w}, lin{w: l.w}
	q.k, r.k = l.k/g, l.k%g
	for i, x := range l.x {
		if l.c[i]%g == 0 {
			q.x = append(q.x, x)
			q.c = append(q.c, l.c[i]/g)
		} else {
			r.x = append(r.x, x)
			r.c = append(r.c, l.c[i])
		}
	}
	rm, fit := r.max()
	return q, r, fit && rm < g
}

func gcd(a, b uint64) uint64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// divisors lists the useful common divisors of c and the coefficients.
func (l *lin) divisors(c uint64) []uint64 {
	var out []uint64
	for _, k := range l.c {
		if g := gcd(c, k); g > 1 {
			out = append(out, g)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] > out[j] })
	k := 0
	for i, g := range out {
		if i > 0 && g == out[k-1] {
			continue
		}
		out[k] = g
		k++
	}
	return out[:k]
}

// sumForm decomposes a sum or product that cannot wrap.
func sumForm(a *Term) (lin, bool) {
	l := lin{w: a.w}
	if a.op != OAdd && a.op != OMul || !l.add(a, 1) {
		return l, false
	}
	m := mask(a.w)
	l.k &= m
	for i := range l.c {
		l.c[i] &= m
	}
	_, fit := l.max()
	return l, fit
}

// isNeg reports whether a is (-1)*b.
func isNeg(a, b *Term) bool {
	return a.op == OMul && a.args[1].IsConst() && a.args[1].val == mask(a.w) && a.args[0] == b
}

func (t *TT) disjointMerge(a, b *Term) *Term {
	pa, pb := t.align(a, b)
	if len(pa) == 1 {
		return nil
	}
	out := make([]*Term, len(pa))
	for i := range pa {
		switch {
		case pa[i].IsConst() && pa[i].val == 0:
			out[i] = pb[i]
		case pb[i].IsConst() && pb[i].val == 0:
			out[i] = pa[i]
		default:
			return nil
		}
	}
	return t.Concat(out...)
}

// Neg is two's complement negation.
func (t *TT) Neg(a *Term) *Term { return t.Mul(a, t.Const(a.w, mask(a.w))) }

// Sub modulo 2^w.
func (t *TT) Sub(a, b *Term) *Term {
	if a == b {
		return t.Const(a.w, 0)
	}
	if b.IsConst() {
		return t.Add(a, t.Const(a.w, -b.val))
	}
	l := lin{w: a.w}
	if l.add(a, 1) && l.add(b, mask(a.w)) {
		return t.build(&l)
	}
	return t.Add(a, t.Neg(b))
}

// Mul modulo 2^w.
func (t *TT) Mul(a, b *Term) *Term {
	if a.IsConst() {
		a, b = b, a
	}
	if a.IsConst() {
		return t.Const(a.w, a.val*b.val)
	}
	if b.IsConst() {
		c := b.val
		switch {
		case c == 0:
			return b
		case c == 1:
			return a
		case bits.OnesCount64(c) == 1:
			return t.shlc(a, uint8(bits.TrailingZeros64(c)))
		}
		if a.op == OMul || a.op == OAdd {
			l := lin{w: a.w}
			if l.add(a, c) {
				return t.build(&l)
			}
		}
		if a.op == OIte && a.args[1].IsConst() && a.args[2].IsConst() {
			return t.Ite(a.args[0], t.Mul(a.args[1], b), t.Mul(a.args[2], b))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return t.mk(Term{op: OMul, w: a.w, args: []*Term{a, b}})
}

// UDiv with SMT-LIB semantics; callers exclude zero divisors.
func (t *TT) UDiv(a, b *Term) *Term {
	if b.IsConst() && b.val != 0 {
		c := b.val
		if a.IsConst() {
			return t.Const(a.w, a.val/c)
		}
		if c == 1 {
			return a
		}
		if a.umin/c == a.umax/c {
			return t.Const(a.w, a.umin/c)
		}
		if bits.OnesCount64(c) == 1 {
			return t.lshrc(a, uint8(bits.TrailingZeros64(c)))
		}
		if a.op == OUDiv && a.args[1].IsConst() {
			h, l := bits.Mul64(c, a.args[1].val)
			if h == 0 && l <= mask(a.w) {
				return t.UDiv(a.args[0], t.Const(a.w, l))
			}
			return t.Const(a.w, 0)
		}
		if l, ok := sumForm(a); ok {
			for _, g := range l.divisors(c) {
				if q, _, ok := l.splitBy(g); ok {
					if g == c {
						return t.build(&q)
					}
					return t.UDiv(t.build(&q), t.Const(a.w, c/g))
				}
			}
			if q, r, _ := l.splitBy(c); len(q.x) > 0 || q.k > 0 {
				return t.Add(t.build(&q), t.UDiv(t.build(&r), b))
			}
		}
		// (x % k) / c with c | k : (x / c) % (k / c)
		if a.op == OURem && a.args[1].IsConst() && a.args[1].val%c == 0 {
			return t.URem(t.UDiv(a.args[0], b), t.Const(a.w, a.args[1].val/c))
		}
	}
	return t.mk(Term{op: OUDiv, w: a.w, args: []*Term{a, b}})
}

// URem with SMT-LIB semantics; callers exclude zero divisors.
func (t *TT) URem(a, b *Term) *Term {
	if b.IsConst() && b.val != 0 {
		c := b.val
		if a.IsConst() {
			return t.Const(a.w, a.val%c)
		}
		if a.umax < c {
			return a
		}
		if c == 1 {
			return t.Const(a.w, 0)
		}
		if bits.OnesCount64(c) == 1 {
			return t.ZExt(t.Extract(a, uint8(bits.TrailingZeros64(c))-1, 0), a.w)
		}
		if l, ok := sumForm(a); ok {
			for _, g := range l.divisors(c) {
				if q, r, ok := l.splitBy(g); ok {
					if g == c {
						return t.build(&r)
					}
					return t.Add(t.Mul(t.URem(t.build(&q), t.Const(a.w, c/g)), t.Const(a.w, g)), t.build(&r))
				}
			}
			if q, r, _ := l.splitBy(c); len(q.x) > 0 || q.k > 0 {
				return t.URem(t.build(&r), b)
			}
		}
		if a.op == OURem && a.args[1].IsConst() && a.args[1].val%c == 0 {
			return t.URem(a.args[0], b)
		}
	}
	return t.mk(Term{op: OURem, w: a.w, args: []*Term{a, b}})
}

// negAny gives x for -x with x <= hi.
func (t *TT) negAny(a *Term, hi uint64) *Term {
	l := lin{w: a.w}
	m := mask(a.w)
	if !l.add(a, m) {
		return nil
	}
	l.k &= m
	for i := range l.c {
		l.c[i] &= m
	}
	if v, ok := l.max(); !ok || v > hi {
		return nil
	}
	return t.build(&l)
}

// negOf gives x for -x with a small x.
func (t *TT) negOf(a *Term) *Term {
	if a.op != OMul && a.op != OAdd {
		return nil
	}
	return t.negAny(a, mask(a.w)>>1)
}

// SDiv is Go's truncated division.
func (t *TT) SDiv(a, b *Term) *Term {
	ka, sa := signKnown(a)
	kb, sb := signKnown(b)
	if a.IsConst() && b.IsConst() && b.val != 0 {
		x, y := sext64(a.val, a.w), sext64(b.val, b.w)
		if y == -1 {
			return t.Neg(a)
		}
		return t.Const(a.w, uint64(x/y))
	}
	if ka && kb && !sa && !sb {
		return t.UDiv(a, b)
	}
	if ka && sa && kb && !sb {
		return t.Neg(t.UDiv(t.Neg(a), b))
	}
	if x := t.negOf(a); x != nil && kb && !sb {
		return t.Neg(t.UDiv(x, b))
	}
	return t.mk(Term{op: OSDiv, w: a.w, args: []*Term{a, b}})
}

// SRem is Go's remainder.
func (t *TT) SRem(a, b *Term) *Term {
	ka, sa := signKnown(a)
	kb, sb := signKnown(b)
	if a.IsConst() && b.IsConst() && b.val != 0 {
		x, y := sext64(a.val, a.w), sext64(b.val, b.w)
		if y == -1 {
			return t.Const(a.w, 0)
		}
		return t.Const(a.w, uint64(x%y))
	}
	if ka && kb && !sa && !sb {
		return t.URem(a, b)
	}
	if ka && sa && kb && !sb {
		return t.Neg(t.URem(t.Neg(a), b))
	}
	if x := t.negOf(a); x != nil && kb && !sb {
		return t.Neg(t.URem(x, b))
	}
	return t.mk(Term{op: OSRem, w: a.w, args: []*Term{a, b}})
}

// runs cuts constant c of width w into maximal runs of equal bits, msb first.
func runs(c uint64, w uint8) (ws []uint8, bs []bool) {
	for i := int(w) - 1; i >= 0; {
		b := c>>uint(i)&1 == 1
		j := i
		for j >= 0 && (c>>uint(j)&1 == 1) == b {
			j--
		}
		ws = append(ws, uint8(i-j))
		bs = append(bs, b)
		i = j
	}
	return
}

func (t *TT) piecewise(a *Term, c uint64, one, zero func(p *Term) *Term) *Term {
	ws, bs := runs(c, a.w)
	if len(ws) > 8 {
		return nil
	}
	var out []*Term
	pos := a.w
	for i, n := range ws {
		p := t.Extract(a, pos-1, pos-n)
		pos -= n
		if bs[i] {
			out = append(out, one(p))
		} else {
			out = append(out, zero(p))
		}
	}
	return t.Concat(out...)
}

func ident(p *Term) *Term { return p }

// BAnd is bitwise and.
func (t *TT) BAnd(a, b *Term) *Term {
	if a.IsConst() {
		a, b = b, a
	}
	if a.IsConst() {
		return t.Const(a.w, a.val&b.val)
	}
	if a == b {
		return a
	}
	if b.IsConst() {
		if r := t.piecewise(a, b.val, ident, func(p *Term) *Term { return t.Const(p.w, 0) }); r != nil {
			return r
		}
	}
	if a.op == OConcat || b.op == OConcat {
		pa, pb := t.align(a, b)
		if len(pa) > 1 {
			for i := range pa {
				pa[i] = t.BAnd(pa[i], pb[i])
			}
			return t.Concat(pa...)
		}
	}
	if !b.IsConst() && a.id > b.id {
		a, b = b, a
	}
	return t.mk(Term{op: OBAnd, w: a.w, args: []*Term{a, b}})
}

// BOr is bitwise or.
func (t *TT) BOr(a, b *Term) *Term {
	if a.IsConst() {
		a, b = b, a
	}
	if a.IsConst() {
		return t.Const(a.w, a.val|b.val)
	}
	if a == b {
		return a
	}
	if b.IsConst() {
		if b.val == 0 {
			return a
		}
		if r := t.piecewise(a, b.val, func(p *Term) *Term { return t.Const(p.w, mask(p.w)) }, ident); r != nil {
			return r
		}
	}
	if a.op == OConcat || b.op == OConcat {
		pa, pb := t.align(a, b)
		if len(pa) > 1 {
			for i := range pa {
				pa[i] = t.BOr(pa[i], pb[i])
			}
			return t.Concat(pa...)
		}
	}
	if !b.IsConst() && a.id > b.id {
		a, b = b, a
	}
	return t.mk(Term{op: OBOr, w: a.w, args: []*Term{a, b}})
}

// BXor is bitwise exclusive or.
func (t *TT) BXor(a, b *Term) *Term {
	if a.IsConst() {
		a, b = b, a
	}
	if a.IsConst() {
		return t.Const(a.w, a.val^b.val)
	}
	if a == b {
		return t.Const(a.w, 0)
	}
	if b.IsConst() {
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return t.BNot(a)
		}
		if r := t.piecewise(a, b.val, t.BNot, ident); r != nil {
			return r
		}
	}
	if a.op == OConcat || b.op == OConcat {
		pa, pb := t.align(a, b)
		if len(pa) > 1 {
			for i := range pa {
				pa[i] = t.BXor(pa[i], pb[i])
			}
			return t.Concat(pa...)
		}
	}
	if !b.IsConst() && a.id > b.id {
		a, b = b, a
	}
	return t.mk(Term{op: OBXor, w: a.w, args: []*Term{a, b}})
}

// BNot is bitwise complement.
func (t *TT) BNot(a *Term) *Term {
	switch a.op {
	case OConst:
		return t.Const(a.w, ^a.val)
	case OBNot:
		return a.args[0]
	case OConcat:
		ps := make([]*Term, len(a.args))
		for i, p := range a.args {
			ps[i] = t.BNot(p)
		}
		return t.Concat(ps...)
	case OIte:
		if a.args[1].IsConst() && a.args[2].IsConst() {
			return t.Ite(a.args[0], t.BNot(a.args[1]), t.BNot(a.args[2]))
		}
	}
	return t.mk(Term{op: OBNot, w: a.w, args: []*Term{a}})
}

func (t *TT) shlc(a *Term, n uint8) *Term {
	if n == 0 {
		return a
	}
	if n >= a.w {
		return t.Const(a.w, 0)
	}
	return t.Concat(t.Extract(a, a.w-1-n, 0), t.Const(n, 0))
}

func (t *TT) lshrc(a *Term, n uint8) *Term {
	if n == 0 {
		return a
	}
	if n >= a.w {
		return t.Const(a.w, 0)
	}
	return t.Concat(t.Const(n, 0), t.Extract(a, a.w-1, n))
}

// Shift performs Go's <<, >> on a by the unsigned amount n of any width.
func (t *TT) Shift(op Op, a, n *Term) *Term {
	if n.IsConst() {
		k := n.val
		if k >= uint64(a.w) {
			if op == OAShr {
				return t.SExt(t.Extract(a, a.w-1, a.w-1), a.w)
			}
			return t.Const(a.w, 0)
		}
		switch op {
		case OShl:
			return t.shlc(a, uint8(k))
		case OLShr:
			return t.lshrc(a, uint8(k))
		default:
			if k == 0 {
				return a
			}
			return t.SExt(t.Extract(a, a.w-1, uint8(k)), a.w)
		}
	}
	if n.w > a.w {
		big := t.Not(t.Ult(n, t.Const(n.w, uint64(a.w))))
		m := t.Extract(n, a.w-1, 0)
		var over *Term
		if op == OAShr {
			over = t.SExt(t.Extract(a, a.w-1, a.w-1), a.w)
		} else {
			over = t.Const(a.w, 0)
		}
		if a.w < 8 {
			// amount could exceed what the narrow width can count
		}
		return t.Ite(big, over, t.mk(Term{op: op, w: a.w, args: []*Term{a, m}}))
	}
	n = t.ZExt(n, a.w)
	return t.mk(Term{op: op, w: a.w, args: []*Term{a, n}})
}

// ---- evaluation ----

// Model assigns values to variables and function applications.
type Model struct {
	vars map[string]uint64
	ufs  map[string]uint64
	memo map[*Term]uint64
}

// NewModel returns an empty model (everything at its minimum).
func NewModel() *Model {
	return &Model{vars: map[string]uint64{}, ufs: map[string]uint64{}, memo: map[*Term]uint64{}}
}

func ufKey(x *Term, args []uint64) string {
	var sb strings.Builder
	sb.WriteString(x.name)
	for _, a := range args {
		fmt.Fprintf(&sb, ",%x", a)
	}
	return sb.String()
}

// Eval evaluates x under the model.
func (m *Model) Eval(x *Term) uint64 {
	if x.op == OConst {
		return x.val
	}
	if v, ok := m.memo[x]; ok {
		return v
	}
	v := m.eval(x)
	m.memo[x] = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (m *Model) eval(x *Term) uint64 {
	mk := mask(x.w)
	switch x.op {
	case OVar:
		if v, ok := m.vars[x.name]; ok {
			return v
		}
		return x.umin
	case OUF:
		as := make([]uint64, len(x.args))
		for i, a := range x.args {
			as[i] = m.Eval(a)
		}
		if v, ok := m.ufs[ufKey(x, as)]; ok {
			return v
		}
		return x.umin
	case ONot:
		return m.Eval(x.args[0]) ^ 1
	case OAnd:
		for _, a := range x.args {
			if m.Eval(a) == 0 {
				return 0
			}
		}
		return 1
	case OOr:
		for _, a := range x.args {
			if m.Eval(a) == 1 {
				return 1
			}
		}
		return 0
	case OIte:
		if m.Eval(x.args[0]) == 1 {
			return m.Eval(x.args[1])
		}
		return m.Eval(x.args[2])
	case OConcat:
		var v uint64
		for _, p := range x.args {
			if p.w >= 64 {
				v = m.Eval(p)
				continue
			}
			v = v<<p.w | m.Eval(p)
		}
		return v
	case OExtract:
		return m.Eval(x.args[0]) >> x.lo & mk
	case OSExt:
		return uint64(sext64(m.Eval(x.args[0]), x.args[0].w)) & mk
	case OBNot:
		return ^m.Eval(x.args[0]) & mk
	}
	a, b := m.Eval(x.args[0]), m.Eval(x.args[1])
	w := x.args[0].w
	switch x.op {
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sext64(a, w) < sext64(b, w))
	case OSle:
		return b2u(sext64(a, w) <= sext64(b, w))
	case OAdd:
		return (a + b) & mk
	case OMul:
		return (a * b) & mk
	case OUDiv:
		if b == 0 {
			return mk
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		sa, sb := sext64(a, w), sext64(b, w)
		if sb == 0 {
			if sa < 0 {
				return 1
			}
			return mk
		}
		if sb == -1 {
			return uint64(-sa) & mk
		}
		return uint64(sa/sb) & mk
	case OSRem:
		sa, sb := sext64(a, w), sext64(b, w)
		if sb == 0 {
			return a
		}
		if sb == -1 {
			return 0
		}
		return uint64(sa%sb) & mk
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return a << b & mk
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext64(a, w)>>b) & mk
	}
	panic("eval " + opNames[x.op])
}

// String renders x for diagnostics.
func (x *Term) String() string {
	switch x.op {
	case OConst:
		if x.w == 0 {
			return fmt.Sprint(x.val == 1)
		}
		return fmt.Sprintf("%d:%d", x.val, x.w)
	case OVar:
		return x.name
	case OExtract:
		return fmt.Sprintf("%s[%d:%d]", x.args[0], x.hi, x.lo)
	}
	if int(x.size) > printMax {
		return fmt.Sprintf("<%s #%d size %d>", opNames[x.op], x.id, x.size)
	}
	var sb strings.Builder
	sb.WriteByte('(')
	if x.op == OUF {
		sb.WriteString(x.name)
	} else {
		sb.WriteString(opNames[x.op])
	}
	for _, a := range x.args {
		sb.WriteByte(' ')
		sb.WriteString(a.String())
	}
	sb.WriteByte(')')
	return sb.String()
}

// freeVars returns the variables and function symbols x depends on, as
// representative terms (function applications are represented by a term per
// function symbol).
func (t *TT) freeVars(x *Term) []*Term {
	if x.varsSet {
		return x.vars
	}
	seen := map[*Term]bool{}
	set := map[*Term]bool{}
	var walk func(y *Term)
	walk = func(y *Term) {
		if seen[y] {
			return
		}
		seen[y] = true
		if y.varsSet {
			for _, v := range y.vars {
				set[v] = true
			}
			return
		}
		switch y.op {
		case OVar:
			set[y] = true
		case OUF:
			set[t.Var("uf!"+y.name, 1, 0, 1)] = true
		}
		for _, a := range y.args {
			walk(a)
		}
	}
	walk(x)
	x.vars = make([]*Term, 0, len(set))
	for v := range set {
		x.vars = append(x.vars, v)
	}
	sort.Slice(x.vars, func(i, j int) bool { return x.vars[i].id < x.vars[j].id })
	x.varsSet = true
	return x.vars
}

// printMax bounds the terms String prints in full.
var printMax = func() int {
	if os.Getenv("GOSYM_FULL") != "" {
		return 2000
	}
	return 60
}()
