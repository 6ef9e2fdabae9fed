package sx

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"
)

// ---- decimal text ----

type digInfo struct {
	v *Term // 64-bit value
	i int   // power of ten
}

var pow10 = [20]uint64{1, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19}

// digit is the character of the i-th decimal digit of v (64 bits).
func (m *Machine) digit(v *Term, i int) *Term {
	T := m.T
	if i > 19 || v.umax < pow10[i] {
		return T.Const(8, '0')
	}
	x := T.ZExt(v, 64)
	d := T.URem(T.UDiv(x, T.Const(64, pow10[i])), T.Const(64, 10))
	core := T.Extract(d, 7, 0)
	c := T.Add(core, T.Const(8, '0'))
	if !c.IsConst() {
		if T.digs == nil {
			T.digs = map[*Term]digInfo{}
		}
		if _, ok := T.digs[c]; !ok {
			T.digs[c] = digInfo{v, i}
		}
		if T.cores == nil {
			T.cores = map[*Term]digInfo{}
		}
		for _, k := range []*Term{core, d, T.Extract(d, 3, 0)} {
			if _, ok := T.cores[k]; !ok && !k.IsConst() {
				T.cores[k] = digInfo{v, i}
			}
		}
	}
	return c
}

// decDigits forks on the number of digits of v and lists at least minw of them.
func (m *Machine) decDigits(v *Term, minw int) []*Term {
	T := m.T
	v = T.ZExt(v, 64)
	n := 1
	if minw > 1 {
		n = minw
	}
	for n < 20 && !m.branch(T.Ult(v, T.Const(64, pow10[n])), "digits") {
		n++
	}
	out := make([]*Term, 0, n)
	for i := n - 1; i >= 0; i-- {
		out = append(out, m.digit(v, i))
	}
	return out
}

// magnitude splits a signed value into sign and magnitude (forking).
func (m *Machine) magnitude(v *Term, signed bool) (bool, *Term) {
	T := m.T
	if !signed {
		return false, T.ZExt(v, 64)
	}
	x := v
	if x.op == OSExt {
		x = x.args[0]
	}
	if m.branch(T.Slt(x, T.Const(x.w, 0)), "sign") {
		return true, T.ZExt(T.Neg(x), 64)
	}
	// non-negative
	if x.op != OSExt && x.w > 1 {
		return false, T.ZExt(x, 64)
	}
	return false, T.ZExt(x, 64)
}

func (m *Machine) itoa(v *Term, signed bool) []*Term {
	neg, u := m.magnitude(v, signed)
	var out []*Term
	if neg {
		out = append(out, m.T.Const(8, '-'))
	}
	return append(out, m.decDigits(u, 1)...)
}

func (m *Machine) constBytes(s string) []*Term {
	out := make([]*Term, len(s))
	for i := range out {
		out[i] = m.T.Const(8, uint64(s[i]))
	}
	return out
}

// atoiU parses decimal digits; status 0 ok, 1 syntax, 2 range.
func (m *Machine) atoiU(b []*Term, maxv uint64) (*Term, int) {
	T := m.T
	if len(b) == 0 {
		return nil, 1
	}
	// digits of one value, in order?
	if di, ok := T.digs[b[0]]; ok && di.i == len(b)-1 {
		same := true
		for k, c := range b {
			d, ok := T.digs[c]
			if !ok || d.v != di.v || d.i != len(b)-1-k {
				same = false
				break
			}
		}
		if same {
			n := len(b)
			fits := n > 19 || di.v.umax < pow10[n]
			if !fits {
				lt := T.Ult(di.v, T.Const(64, pow10[n]))
				r, _ := m.feasible(T.Not(lt))
				fits = r == Unsat
			}
			if fits {
				if di.v.umax > maxv {
					if !m.branch(T.Ule(di.v, T.Const(64, maxv)), "parse range") {
						return T.Const(64, maxv), 2
					}
				}
				return di.v, 0
			}
		}
	}
	acc := T.Const(64, 0)
	for k, c := range b {
		isd := T.And(T.Ule(T.Const(8, '0'), c), T.Ule(c, T.Const(8, '9')))
		if !m.branch(isd, "digit") {
			return nil, 1
		}
		d := T.ZExt(T.Sub(c, T.Const(8, '0')), 64)
		if k >= 18 { // overflow possible
			lim := T.Const(64, maxv)
			// acc > (max-d)/10  <=>  acc*10+d > max
			over := T.Ult(T.UDiv(T.Sub(lim, d), T.Const(64, 10)), acc)
			if m.branch(over, "parse overflow") {
				for _, c := range b[k+1:] {
					isd := T.And(T.Ule(T.Const(8, '0'), c), T.Ule(c, T.Const(8, '9')))
					if !m.branch(isd, "digit") {
						return nil, 1
					}
				}
				return T.Const(64, maxv), 2
			}
		}
		acc = T.Add(T.Mul(acc, T.Const(64, 10)), d)
	}
	if acc.umax > maxv && len(b) <= 18 {
		if m.branch(T.Ult(T.Const(64, maxv), acc), "parse range") {
			return T.Const(64, maxv), 2
		}
	}
	return acc, 0
}

// numError builds a strconv.NumError-like error.
func (m *Machine) numError(fn string, status int) Iface {
	msg := "strconv." + fn + ": parsing: invalid syntax"
	if status == 2 {
		msg = "strconv." + fn + ": parsing: value out of range"
	}
	return m.newError(mkStr(msg))
}

// newError is errors.New.
func (m *Machine) newError(s *Str) Iface {
	o := m.newObject(m.P.errStringT.(*types.Pointer).Elem(), 1, "")
	o.slots[0] = s
	return Iface{t: m.P.errStringT, v: Ptr{obj: o}}
}

// ---- fmt ----

type fmtState struct {
	m   *Machine
	out []*Term
}

func (s *fmtState) lit(x string)    { s.out = append(s.out, s.m.constBytes(x)...) }
func (s *fmtState) terms(b []*Term) { s.out = append(s.out, b...) }

type fmtFlags struct {
	plus, minus, zero, space, sharp bool
	wid, prec                       int
	hasWid, hasPrec                 bool
}

func (m *Machine) sprintf(format string, args []Value) *Str {
	s := &fmtState{m: m}
	n := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			s.lit(format[i:])
			break
		}
		s.lit(format[i : i+j])
		i += j + 1
		var f fmtFlags
	flags:
		for i < len(format) {
			switch format[i] {
			case '+':
				f.plus = true
			case '-':
				f.minus = true
				f.zero = false
			case '0':
				f.zero = !f.minus
			case ' ':
				f.space = true
			case '#':
				f.sharp = true
			default:
				break flags
			}
			i++
		}
		num := func() (int, bool) {
			if i < len(format) && format[i] == '*' {
				i++
				if n >= len(args) {
					return 0, false
				}
				t, ok := args[n].(Iface).v.(*Term)
				n++
				if !ok {
					return 0, false
				}
				v := int(int64(sext64(m.concretize(t, "format width"), t.w)))
				if v < 0 {
					f.minus, f.zero = true, false
					v = -v
				}
				return v, true
			}
			st := i
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				i++
			}
			if st == i {
				return 0, false
			}
			v, _ := strconv.Atoi(format[st:i])
			return v, true
		}
		f.wid, f.hasWid = num()
		if i < len(format) && format[i] == '.' {
			i++
			f.prec, _ = num()
			f.hasPrec = true
		}
		if i >= len(format) {
			s.lit("%!(NOVERB)")
			break
		}
		verb := format[i]
		i++
		if verb == '%' {
			s.lit("%")
			continue
		}
		if n >= len(args) {
			s.lit("%!" + string(rune(verb)) + "(MISSING)")
			continue
		}
		a := args[n].(Iface)
		n++
		s.arg(a, verb, f, 0)
	}
	if n < len(args) {
		s.lit("%!(EXTRA ")
		for k, a := range args[n:] {
			if k > 0 {
				s.lit(", ")
			}
			x := a.(Iface)
			if x.t == nil {
				s.lit("<nil>")
			} else {
				s.lit(x.t.String() + "=")
				s.arg(x, 'v', fmtFlags{}, 0)
			}
		}
		s.lit(")")
	}
	return m.strOf(s.out)
}

func (s *fmtState) pad(f fmtFlags, b []*Term, zeroOK bool) {
	n := len(b)
	if !f.hasWid || f.wid <= n {
		s.terms(b)
		return
	}
	fill := " "
	if f.zero && zeroOK {
		fill = "0"
	}
	if f.minus {
		s.terms(b)
		s.lit(strings.Repeat(" ", f.wid-n))
		return
	}
	s.lit(strings.Repeat(fill, f.wid-n))
	s.terms(b)
}

func (s *fmtState) opaque(t types.Type) {
	s.m.Stubs["fmt: text of "+t.String()+" is not modelled"]++
	s.lit("<" + t.String() + ">")
}

func (s *fmtState) arg(a Iface, verb byte, f fmtFlags, depth int) {
	m := s.m
	if a.t == nil {
		if verb == 'T' || verb == 'v' {
			s.pad(f, m.constBytes("<nil>"), false)
		} else {
			s.lit("%!" + string(rune(verb)) + "(<nil>)")
		}
		return
	}
	if verb == 'T' {
		s.pad(f, m.constBytes(a.t.String()), false)
		return
	}
	if verb == 'w' {
		verb = 'v'
	}
	if !f.sharp && strings.IndexByte("vsxXq", verb) >= 0 {
		for _, name := range []string{"Error", "String"} {
			fn := m.P.methodByName(a.t, name)
			if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
				continue
			}
			if b, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
				continue
			}
			if p, ok := a.v.(Ptr); ok && p.obj == nil {
				s.pad(f, m.constBytes("<nil>"), false)
				return
			}
			if skipFmtMethod(fn.String()) {
				s.opaque(a.t)
				return
			}
			if r, ok := m.callSync(&Closure{fn: fn}, []Value{a.v}).(*Str); ok {
				s.str(r, verb, f)
				return
			}
		}
	}
	s.val(a.v, a.t, verb, f, depth)
}

func skipFmtMethod(n string) bool {
	return strings.HasPrefix(n, "(time.") || strings.HasPrefix(n, "(*time.") || strings.HasPrefix(n, "(reflect.")
}

func (s *fmtState) str(x *Str, verb byte, f fmtFlags) {
	m := s.m
	switch verb {
	case 'v', 's':
		b := m.strBytes(x)
		if f.hasPrec && f.prec < len(b) { // bytes = runes for ASCII
			b = b[:f.prec]
		}
		s.pad(f, b, true)
	case 'x', 'X':
		s.pad(f, m.hexText(m.strBytes(x), verb == 'X'), true)
	case 'q':
		if x.isConc() {
			s.pad(f, m.constBytes(strconv.Quote(x.s)), false)
			return
		}
		s.lit("\"")
		s.terms(m.strBytes(x))
		s.lit("\"")
		m.Stubs["fmt: %q of symbolic text is not escaped"]++
	default:
		s.lit("%!" + string(rune(verb)) + "(string=)")
	}
}

func (s *fmtState) integer(v *Term, signed bool, verb byte, f fmtFlags, t types.Type) {
	m := s.m
	T := m.T
	switch verb {
	case 'v', 'd':
		neg, u := m.magnitude(v, signed)
		minw := 1
		if f.hasPrec {
			minw = f.prec
			if minw == 0 {
				minw = 1
				if m.branch(T.Eq(u, T.Const(64, 0)), "zero with precision 0") {
					s.pad(fmtFlags{wid: f.wid, hasWid: f.hasWid, minus: f.minus}, nil, false)
					return
				}
			}
		} else if f.zero && f.hasWid && !f.minus {
			minw = f.wid
			if neg || f.plus || f.space {
				minw--
			}
		}
		var b []*Term
		switch {
		case neg:
			b = append(b, T.Const(8, '-'))
		case f.plus:
			b = append(b, T.Const(8, '+'))
		case f.space:
			b = append(b, T.Const(8, ' '))
		}
		b = append(b, m.decDigits(u, max(minw, 1))...)
		f.zero = false
		s.pad(f, b, false)
	case 'x', 'X':
		neg, u := m.magnitude(v, signed)
		n := 1
		for n < 16 && !m.branch(T.Ult(u, T.Const(64, uint64(1)<<(4*n))), "hex digits") {
			n++
		}
		minw := n
		if f.hasPrec {
			minw = max(n, f.prec)
		} else if f.zero && f.hasWid && !f.minus {
			minw = max(n, f.wid)
		}
		var b []*Term
		if neg {
			b = append(b, T.Const(8, '-'))
		}
		if f.sharp {
			b = append(b, m.constBytes("0"+string(rune(verb)))...)
		}
		for i := minw - 1; i >= 0; i-- {
			if i > 15 {
				b = append(b, T.Const(8, '0'))
				continue
			}
			b = append(b, m.hexDigit(T.Extract(u, uint8(4*i+3), uint8(4*i)), verb == 'X'))
		}
		f.zero = false
		s.pad(f, b, false)
	case 'c':
		if v.umax < 0x80 {
			s.pad(f, []*Term{T.Extract(v, 7, 0)}, false)
			return
		}
		s.pad(f, m.constBytes(string(rune(m.concretize(v, "rune")))), false)
	case 'b', 'o', 'q', 'U':
		k := m.concretize(v, "formatted integer")
		s.lit(fmt.Sprintf("%"+string(rune(verb)), k))
	default:
		s.lit("%!" + string(rune(verb)) + "(" + t.String() + "=)")
	}
}

func (s *fmtState) val(v Value, t types.Type, verb byte, f fmtFlags, depth int) {
	m := s.m
	if depth > 6 {
		s.opaque(t)
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case *Term:
			w, signed, _ := intWidth(u)
			if w == 0 {
				if m.branch(x, "formatted bool") {
					s.pad(f, m.constBytes("true"), false)
				} else {
					s.pad(f, m.constBytes("false"), false)
				}
				return
			}
			s.integer(x, signed, verb, f, t)
		case *Str:
			s.str(x, verb, f)
		case Flt:
			s.terms(m.ftoa(x, verbFmt(verb), f.prec, f.hasPrec, int(x.w)))
		default:
			s.opaque(t)
		}
	case *types.Slice, *types.Array:
		var el types.Type
		var leaves []Value
		if st, ok := u.(*types.Slice); ok {
			el = st.Elem()
			sl := v.(Slice)
			if sl.s != nil && !sl.s.len.IsConst() {
				s.opaque(t)
				return
			}
			leaves = m.leavesOf(sl)
		} else {
			el = u.(*types.Array).Elem()
			leaves = v.(Agg)
		}
		if b, ok := el.Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			bs := make([]*Term, len(leaves))
			for i := range bs {
				bs[i] = leaves[i].(*Term)
			}
			switch verb {
			case 's':
				s.pad(f, bs, false)
				return
			case 'x', 'X':
				s.pad(f, m.hexText(bs, verb == 'X'), false)
				return
			}
			if len(bs) > 24 {
				s.opaque(t)
				return
			}
		}
		n := m.layout(el).n
		s.lit("[")
		for i := 0; n > 0 && i*n < len(leaves); i++ {
			if i > 0 {
				s.lit(" ")
			}
			s.elem(m.unflat(leaves[i*n:(i+1)*n], el), el, verb, f, depth+1)
		}
		s.lit("]")
	case *types.Struct:
		a := v.(Agg)
		l := m.layout(t)
		s.lit("{")
		for i := 0; i < u.NumFields(); i++ {
			if i > 0 {
				s.lit(" ")
			}
			fld := u.Field(i)
			if f.plus {
				s.lit(fld.Name() + ":")
			}
			n := m.layout(fld.Type()).n
			s.elem(m.unflat(a[l.offs[i]:l.offs[i]+n], fld.Type()), fld.Type(), verb, f, depth+1)
		}
		s.lit("}")
	case *types.Interface:
		x := v.(Iface)
		if x.t == nil {
			s.lit("<nil>")
			return
		}
		s.arg(x, verb, f, depth)
	case *types.Pointer:
		p := v.(Ptr)
		if p.obj == nil {
			s.lit("<nil>")
			return
		}
		if depth == 0 && p.idx == nil {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Array:
				s.lit("&")
				s.val(m.load(p, u.Elem()), u.Elem(), verb, f, depth+1)
				return
			}
		}
		s.opaque(t)
	default:
		s.opaque(t)
	}
}

func verbFmt(v byte) byte {
	if v == 'v' {
		return 'g'
	}
	return v
}

// elem formats a nested value; exported access rules are ignored.
func (s *fmtState) elem(v Value, t types.Type, verb byte, f fmtFlags, depth int) {
	if types.IsInterface(t) {
		s.val(v, t, verb, f, depth)
		return
	}
	s.arg(Iface{t: t, v: v}, verb, f, depth)
}

func (m *Machine) unflat(leaves []Value, t types.Type) Value {
	if isAgg(t) {
		return Agg(leaves)
	}
	return leaves[0]
}

// ---- hex ----

func (m *Machine) hexDigit(nib *Term, upper bool) *Term {
	T := m.T
	n8 := T.ZExt(nib, 8)
	a := byte('a')
	if upper {
		a = 'A'
	}
	c := T.Ite(T.Ult(n8, T.Const(8, 10)), T.Add(n8, T.Const(8, '0')), T.Add(n8, T.Const(8, uint64(a-10))))
	if !c.IsConst() {
		if T.hexs == nil {
			T.hexs = map[*Term]*Term{}
		}
		T.hexs[c] = T.Extract(n8, 3, 0)
	}
	return c
}

func (m *Machine) hexText(b []*Term, upper bool) []*Term {
	out := make([]*Term, 0, 2*len(b))
	for _, x := range b {
		out = append(out, m.hexDigit(m.T.Extract(x, 7, 4), upper), m.hexDigit(m.T.Extract(x, 3, 0), upper))
	}
	return out
}

// unhex gives the nibble of a hex character (forking on validity).
func (m *Machine) unhex(c *Term) (*Term, bool) {
	T := m.T
	if n, ok := T.hexs[c]; ok {
		return n, true
	}
	in := func(lo, hi byte) *Term {
		return T.And(T.Ule(T.Const(8, uint64(lo)), c), T.Ule(c, T.Const(8, uint64(hi))))
	}
	d, l, u := in('0', '9'), in('a', 'f'), in('A', 'F')
	if !m.branch(T.Or(d, l, u), "hex digit") {
		return nil, false
	}
	k := func(x byte) *Term { return T.Const(8, uint64(x)) }
	v := T.Ite(d, T.Sub(c, k('0')), T.Ite(l, T.Sub(c, k('a'-10)), T.Sub(c, k('A'-10))))
	return T.Extract(v, 3, 0), true
}

// ---- floats ----

const ftoaLen = 6

// ftoa renders a float; a symbolic value becomes token bytes that are a
// function of the bits, format and width only.
func (m *Machine) ftoa(x Flt, fmtc byte, prec int, hasPrec bool, bitSize int) []*Term {
	T := m.T
	if !hasPrec {
		prec = -1
	}
	bitsT := x.t
	if bitSize == 32 && x.w == 64 {
		if x.w32 != nil {
			bitsT = x.w32
		}
	}
	if x.t.IsConst() {
		var f float64
		if x.w == 32 {
			f = float64(f32(x.t.val))
		} else {
			f = f64(x.t.val)
		}
		return m.constBytes(strconv.FormatFloat(f, fmtc, prec, bitSize))
	}
	if bitSize == 64 && x.w32 != nil {
		bitsT = x.w32
	}
	out := make([]*Term, ftoaLen)
	for i := range out {
		out[i] = T.UF(fmt.Sprintf("ftoa!%c!%d!%d!%d!%d", fmtc, prec, bitSize, bitsT.w, i), 8, '0', '9', bitsT)
	}
	return out
}

var hardFloats32 = []uint32{0, 1 << 31, 1, 0x7fffff, 0x800000, 0x7f7fffff, 0xff7fffff, 0x3f800000, 0x3f800001, 0x3eaaaaab, 0x3dcccccd,
	0x4b800001, 0x322bcc77, 0x100, 0x42f6e979, 0x501502f9, 0x5d5e0b6b, 0x358637bd, 0x2edbe6ff, 0x1e3ce508, 0x0da24260, 0x80000001}

// badFloats tells for which hard values the text, if it is that of x in some
// format, is not decimal text (plain: without an exponent) that parses back.
func (m *Machine) badFloats(b []*Term, x Flt, bitSize int, plain bool) ([]*Term, bool) {
	T := m.T
	if len(b) != ftoaLen {
		return nil, false
	}
	var c rune
	var prec, size, w, i int
	if n, err := fmt.Sscanf(b[0].name, "ftoa!%c!%d!%d!%d!%d", &c, &prec, &size, &w, &i); n != 5 || err != nil {
		return nil, false
	}
	same := m.ftoa(x, byte(c), prec, true, size)
	for i := range b {
		if b[i] != same[i] {
			return nil, false
		}
	}
	var vals []uint64
	for _, v := range hardFloats32 {
		if bitSize == 32 {
			vals = append(vals, uint64(v))
		} else {
			vals = append(vals, math.Float64bits(float64(math.Float32frombits(v))))
		}
	}
	if bitSize == 64 {
		for _, f := range []float64{math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1, 1.0 / 3, 1e22, 1e-7, 123456.789e3, 1<<53 - 1, 2.2250738585072014e-308, 1e300, -1e-300} {
			vals = append(vals, math.Float64bits(f))
		}
	}
	var bad []*Term
	for _, v := range vals {
		f := math.Float64frombits(v)
		if bitSize == 32 {
			f = float64(math.Float32frombits(uint32(v)))
		}
		s := strconv.FormatFloat(f, byte(c), prec, size)
		g, err := strconv.ParseFloat(s, bitSize)
		ok := err == nil && math.Float64bits(g) == math.Float64bits(f)
		if bitSize == 32 {
			ok = err == nil && math.Float32bits(float32(g)) == uint32(v)
		}
		if plain && strings.ContainsAny(s, "eEpP") {
			ok = false
		}
		if !ok {
			bad = append(bad, T.Eq(x.t, T.Const(x.w, v)))
		}
	}
	return bad, true
}

// ---- json ----

type jsonField struct {
	name string
	off  int
	t    types.Type
	omit bool
}

func (m *Machine) jsonFields(t types.Type, base, depth int) []jsonField {
	st := t.Underlying().(*types.Struct)
	l := m.layout(t)
	type cand struct {
		jsonField
		depth  int
		tagged bool
		ord    int
	}
	var all []cand
	var walk func(st *types.Struct, l *Layout, base, depth int)
	walk = func(st *types.Struct, l *Layout, base, depth int) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			parts := strings.Split(tag, ",")
			name := parts[0]
			omit := false
			for _, o := range parts[1:] {
				switch o {
				case "omitempty":
					omit = true
				default:
					m.unsupported("json tag option %s", o)
				}
			}
			if f.Anonymous() && name == "" {
				if es, ok := f.Type().Underlying().(*types.Struct); ok {
					walk(es, m.layout(f.Type()), base+l.offs[i], depth+1)
					continue
				}
			}
			if !f.Exported() {
				continue
			}
			tagged := name != ""
			if name == "" {
				name = f.Name()
			}
			all = append(all, cand{jsonField{name, base + l.offs[i], f.Type(), omit}, depth, tagged, len(all)})
		}
	}
	walk(st, l, base, depth)
	var out []jsonField
	for _, c := range all {
		win := true
		for _, d := range all {
			if d.ord == c.ord || d.name != c.name {
				continue
			}
			if d.depth < c.depth || d.depth == c.depth && (d.tagged && !c.tagged || d.tagged == c.tagged) {
				win = false
			}
		}
		if win {
			out = append(out, c.jsonField)
		}
	}
	return out
}

// jsonMarshal renders v; a failure of a nested marshaler is returned.
func (m *Machine) jsonMarshal(v Value, t types.Type, out *[]*Term) *Iface {
	lit := func(s string) { *out = append(*out, m.constBytes(s)...) }
	if p, ok := v.(Ptr); ok && p.obj == nil {
		lit("null")
		return nil
	}
	if fn := m.P.methodByName(t, "MarshalJSON"); fn != nil && !types.IsInterface(t) {
		r := m.callSync(&Closure{fn: fn}, []Value{v}).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			return &e
		}
		b := m.bytesOf(r[0].(Slice))
		if !m.jsonValid(r[0].(Slice), b) {
			e := m.newError(mkStr("json: error calling MarshalJSON: invalid JSON text"))
			return &e
		}
		*out = append(*out, b...)
		return nil
	}
	if fn := m.P.methodByName(t, "MarshalText"); fn != nil && !types.IsInterface(t) {
		m.unsupported("json: MarshalText of %s", t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case *Term:
			w, signed, _ := intWidth(u)
			if w == 0 {
				if m.branch(x, "json bool") {
					lit("true")
				} else {
					lit("false")
				}
				return nil
			}
			*out = append(*out, m.itoa(x, signed)...)
			return nil
		case *Str:
			m.jsonString(x, out)
			return nil
		}
	case *types.Struct:
		a := v.(Agg)
		lit("{")
		first := true
		for _, f := range m.jsonFields(t, 0, 0) {
			fv := m.unflat(a[f.off:f.off+m.layout(f.t).n], f.t)
			if f.omit && m.jsonEmpty(fv) {
				continue
			}
			if !first {
				lit(",")
			}
			first = false
			lit(strconv.Quote(f.name) + ":")
			if e := m.jsonMarshal(fv, f.t, out); e != nil {
				return e
			}
		}
		lit("}")
		return nil
	case *types.Slice, *types.Array:
		var el types.Type
		var leaves []Value
		if st, ok := u.(*types.Slice); ok {
			sl := v.(Slice)
			if sl.obj == nil {
				lit("null")
				return nil
			}
			el = st.Elem()
			if b, ok := el.Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
				m.jsonBase64(m.bytesOf(sl), out)
				return nil
			}
			leaves = m.leavesOf(sl)
		} else {
			el = u.(*types.Array).Elem()
			leaves = v.(Agg)
		}
		n := m.layout(el).n
		lit("[")
		for i := 0; i*n < len(leaves); i++ {
			if i > 0 {
				lit(",")
			}
			if e := m.jsonMarshal(m.unflat(leaves[i*n:(i+1)*n], el), el, out); e != nil {
				return e
			}
		}
		lit("]")
		return nil
	case *types.Interface:
		x := v.(Iface)
		if x.t == nil {
			lit("null")
			return nil
		}
		return m.jsonMarshal(x.v, x.t, out)
	case *types.Pointer:
		return m.jsonMarshal(m.load(v.(Ptr), u.Elem()), u.Elem(), out)
	case *types.Map:
		mo := v.(*MapObj)
		if mo == nil {
			lit("null")
			return nil
		}
		type kv struct {
			k string
			i int
		}
		var ks []kv
		for i := range mo.keys {
			if mo.live[i] {
				ks = append(ks, kv{m.mustConc(mo.keys[i]), i})
			}
		}
		for i := range ks {
			for j := i + 1; j < len(ks); j++ {
				if ks[j].k < ks[i].k {
					ks[i], ks[j] = ks[j], ks[i]
				}
			}
		}
		lit("{")
		for i, k := range ks {
			if i > 0 {
				lit(",")
			}
			m.jsonString(mkStr(k.k), out)
			lit(":")
			if e := m.jsonMarshal(mo.vals[k.i], u.Elem(), out); e != nil {
				return e
			}
		}
		lit("}")
		return nil
	}
	m.unsupported("json of %s", t)
	return nil
}

// jsonValid says whether the text, which a marshaler returned, is well-formed.
func (m *Machine) jsonValid(s Slice, b []*Term) bool {
	if s.obj != nil && m.side[jsonText{s.obj}] == len(b) {
		return true
	}
	fn := m.P.Func("verifh/sym", "JSONValid")
	if fn == nil {
		return len(b) > 0
	}
	return m.branch(m.callSync(&Closure{fn: fn}, []Value{m.newBytes(b)}).(*Term), "json text")
}

// jsonText marks the object of a text made by encoding/json itself.
type jsonText struct{ o *Object }

type jsonEnc struct{ w Iface }

func (m *Machine) jsonTextOf(out []*Term) Slice {
	s := m.newBytes(out)
	m.side[jsonText{s.obj}] = len(out)
	return s
}

func (m *Machine) jsonEmpty(v Value) bool {
	switch x := v.(type) {
	case *Term:
		return m.branch(m.T.Eq(x, m.T.Const(x.w, 0)), "json empty")
	case *Str:
		return m.branch(m.T.Eq(m.strLen(x), m.T.Const(64, 0)), "json empty")
	case Slice:
		_, n, _ := m.win(x)
		return m.branch(m.T.Eq(n, m.T.Const(64, 0)), "json empty")
	case Iface:
		return x.t == nil
	case Ptr:
		return x.obj == nil
	case *MapObj:
		return x == nil || x.n == 0
	}
	return false
}

func (m *Machine) jsonString(x *Str, out *[]*Term) {
	fn := m.P.Func("verifh/sym", "JSONString")
	if x.isConc() || fn == nil {
		var sb strings.Builder
		sb.WriteString(jsonQuote(m.mustConc(x)))
		*out = append(*out, m.constBytes(sb.String())...)
		return
	}
	r := m.callSync(&Closure{fn: fn}, []Value{m.newBytes(m.strBytes(x))})
	*out = append(*out, m.bytesOf(r.(Slice))...)
}

func (m *Machine) jsonBase64(b []*Term, out *[]*Term) {
	T := m.T
	enc := func(s *Term) *Term { // 6 bits
		x := T.ZExt(s, 8)
		k := func(v int) *Term { return T.Const(8, uint64(v)) }
		return T.Ite(T.Ult(x, k(26)), T.Add(x, k('A')), T.Ite(T.Ult(x, k(52)), T.Add(x, k('a'-26)),
			T.Ite(T.Ult(x, k(62)), T.Add(x, k(256+'0'-52)), T.Ite(T.Eq(x, k(62)), k('+'), k('/')))))
	}
	*out = append(*out, T.Const(8, '"'))
	for i := 0; i < len(b); i += 3 {
		z := T.Const(8, 0)
		g := []*Term{b[i], z, z}
		n := 1
		for ; n < 3 && i+n < len(b); n++ {
			g[n] = b[i+n]
		}
		w := T.Concat(g...)
		for k := 0; k < 4; k++ {
			if k > n {
				*out = append(*out, T.Const(8, '='))
			} else {
				*out = append(*out, enc(T.Extract(w, uint8(23-6*k), uint8(18-6*k))))
			}
		}
	}
	*out = append(*out, T.Const(8, '"'))
}
