// Package val draws column values of every type together with their storage
// and the text they must be delivered as. It is written from MySQL's
// documented formats and uses nothing of the code under test.
package val

import (
	"strconv"
	"time"

	"verifh/mk"
	"verifh/sym"
)

// Val is a value.
type Val struct {
	Col      mk.Col
	Unsigned bool
	Raw      []byte
	Text     []byte
	FloatW   int // 32 or 64: the text is any plain text of the float
	Bits     uint64
}

// Check reports whether got is the value's text.
func (v *Val) Check(got []byte) bool {
	if got == nil {
		return false
	}
	if v.FloatW != 0 {
		return sym.FloatText(got, v.Bits, v.FloatW, true)
	}
	return len(got) == len(v.Text) && sym.Eq(got, v.Text)
}

// Digits is the last n decimal digits of v.
func Digits(v, n int) []byte {
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte('0' + v%10)
		v /= 10
	}
	return b
}

func integer(typ byte, n int, unsigned bool) *Val {
	x := sym.U64("int")
	sh := uint(64 - 8*n)
	v := &Val{Col: mk.Col{Type: typ}, Unsigned: unsigned, Raw: mk.LE(x, n)}
	if unsigned {
		v.Text = strconv.AppendUint(nil, x<<sh>>sh, 10)
	} else {
		v.Text = strconv.AppendInt(nil, int64(x<<sh)>>sh, 10)
	}
	return v
}

// Int is an INT of five digits: its text has one length.
func Int() *Val {
	x := sym.Int("int", 10000, 99999)
	return &Val{Col: mk.Col{Type: 3}, Raw: mk.LE(uint64(x), 4), Text: Digits(x, 5)}
}

// Str is a VARCHAR of n arbitrary bytes declared with max bytes.
func Str(max, n int) *Val {
	b := sym.Bytes("string", n)
	p := 1
	if max > 255 {
		p = 2
	}
	return &Val{Col: mk.Col{Type: 15, Meta: uint16(max)}, Raw: mk.Cat(mk.LE(uint64(n), p), b), Text: b}
}

func char(max, n int) *Val {
	b := sym.Bytes("char", n)
	p := 1
	if max > 255 {
		p = 2
	}
	return &Val{Col: mk.Col{Type: 254, Meta: 254<<8 ^ uint16(max&0x300)<<4 | uint16(max&0xff)}, Raw: mk.Cat(mk.LE(uint64(n), p), b), Text: b}
}

func blob(typ byte, p, n int) *Val {
	b := sym.Bytes("blob", n)
	return &Val{Col: mk.Col{Type: typ, Meta: uint16(p)}, Raw: mk.Cat(mk.LE(uint64(n), p), b), Text: b}
}

func float(w int) *Val {
	if w == 32 {
		x := sym.U32("float")
		sym.Assume(x>>23&0xff != 0xff)
		return &Val{Col: mk.Col{Type: 4, Meta: 4}, Raw: mk.LE(uint64(x), 4), FloatW: 32, Bits: uint64(x)}
	}
	x := sym.U64("double")
	sym.Assume(x>>52&0x7ff != 0x7ff)
	return &Val{Col: mk.Col{Type: 5, Meta: 8}, Raw: mk.LE(x, 8), FloatW: 64, Bits: x}
}

func year() *Val {
	x := sym.Byte("year")
	y := sym.Ite(x == 0, 0, 1900+int(x))
	return &Val{Col: mk.Col{Type: 13}, Raw: []byte{x}, Text: Digits(y, 4)}
}

// dec52 is a DECIMAL(5,2): 2 bytes of integer digits, 1 byte of fraction.
func dec52(neg bool) *Val {
	i, f := sym.Int("integer part", 100, 999), sym.Int("fraction", 0, 99)
	raw := mk.Cat(mk.BE(uint64(i), 2), mk.BE(uint64(f), 1))
	text := mk.Cat(Digits(i, 3), []byte{'.'}, Digits(f, 2))
	if neg {
		for k := range raw {
			raw[k] ^= 0xff
		}
		text = mk.Cat([]byte{'-'}, text)
	}
	raw[0] ^= 0x80
	return &Val{Col: mk.Col{Type: 246, Meta: 5<<8 | 2}, Raw: raw, Text: text}
}

// dec2410 is a DECIMAL(24,10): 5+9 integer digits and 9+1 fraction digits.
func dec2410() *Val {
	a, b := sym.Int("group", 10000, 99999), sym.Int("group", 0, 999999999)
	c, d := sym.Int("group", 0, 999999999), sym.Int("group", 0, 9)
	raw := mk.Cat(mk.BE(uint64(a), 3), mk.BE(uint64(b), 4), mk.BE(uint64(c), 4), mk.BE(uint64(d), 1))
	raw[0] ^= 0x80
	return &Val{Col: mk.Col{Type: 246, Meta: 24<<8 | 10}, Raw: raw,
		Text: mk.Cat(Digits(a, 5), Digits(b, 9), []byte{'.'}, Digits(c, 9), Digits(d, 1))}
}

func date(y, m, d int) []byte {
	return mk.Cat(Digits(y, 4), []byte{'-'}, Digits(m, 2), []byte{'-'}, Digits(d, 2))
}

func clock(h, m, s, hn int) []byte {
	return mk.Cat(Digits(h, hn), []byte{':'}, Digits(m, 2), []byte{':'}, Digits(s, 2))
}

func dateV() *Val {
	y, m, d := sym.Int("year", 0, 9999), sym.Int("month", 0, 12), sym.Int("day", 0, 31)
	return &Val{Col: mk.Col{Type: 10}, Raw: mk.LE(uint64(y<<9|m<<5|d), 3), Text: date(y, m, d)}
}

// hms is a time; negative ones have a full hour so that they are not zero.
func hms(neg bool) (h, m, s, n int) {
	lo := 0
	if neg {
		lo = 1
	}
	h, m, s = sym.Int("hour", lo, 838), sym.Int("minute", 0, 59), sym.Int("second", 0, 59)
	n = 2
	if h >= 100 {
		n = 3
	}
	return
}

func timeOld(neg bool) *Val {
	h, m, s, n := hms(neg)
	v := int64(h*10000 + m*100 + s)
	text := clock(h, m, s, n)
	if neg {
		v = -v
		text = mk.Cat([]byte{'-'}, text)
	}
	return &Val{Col: mk.Col{Type: 11}, Raw: mk.LE(uint64(v), 3), Text: text}
}

func dateTimeOld() *Val {
	y, mo, d := sym.Int("year", 0, 9999), sym.Int("month", 0, 12), sym.Int("day", 0, 31)
	h, m, s := sym.Int("hour", 0, 23), sym.Int("minute", 0, 59), sym.Int("second", 0, 59)
	v := uint64(y*10000+mo*100+d)*1000000 + uint64(h*10000+m*100+s)
	return &Val{Col: mk.Col{Type: 12}, Raw: mk.LE(v, 8), Text: mk.Cat(date(y, mo, d), []byte{' '}, clock(h, m, s, 2))}
}

var tens = [7]int{1, 10, 100, 1000, 10000, 100000, 1000000}

func frac(fsp int) (f int, raw, text []byte) {
	if fsp == 0 {
		return 0, nil, nil
	}
	f = sym.Int("fraction", 0, tens[fsp]-1)
	st := f
	if fsp%2 == 1 {
		st *= 10
	}
	return f, mk.BE(uint64(st), (fsp+1)/2), mk.Cat([]byte{'.'}, Digits(f, fsp))
}

func dateTime2(fsp int) *Val {
	y, mo, d := sym.Int("year", 0, 9999), sym.Int("month", 0, 12), sym.Int("day", 0, 31)
	h, m, s := sym.Int("hour", 0, 23), sym.Int("minute", 0, 59), sym.Int("second", 0, 59)
	_, fr, ft := frac(fsp)
	v := uint64((y*13+mo)<<5|d)<<17 | uint64(h<<12|m<<6|s)
	return &Val{Col: mk.Col{Type: 18, Meta: uint16(fsp)}, Raw: mk.Cat(mk.BE(v+0x8000000000, 5), fr),
		Text: mk.Cat(date(y, mo, d), []byte{' '}, clock(h, m, s, 2), ft)}
}

func time2(fsp int, neg bool) *Val {
	h, m, s, n := hms(neg)
	v := int64(h<<12 | m<<6 | s)
	f, fr, ft := frac(fsp)
	text := mk.Cat(clock(h, m, s, n), ft)
	w := (fsp + 1) / 2
	raw := mk.Cat(mk.BE(uint64(v)+0x800000, 3), fr)
	if neg {
		text = mk.Cat([]byte{'-'}, text)
		if fsp%2 == 1 {
			f *= 10
		}
		packed := -(v<<(8*uint(w)) + int64(f))
		raw = mk.BE(uint64(packed)+uint64(0x800000)<<(8*uint(w)), 3+w)
	}
	return &Val{Col: mk.Col{Type: 19, Meta: uint16(fsp)}, Raw: raw, Text: text}
}

func stamp(x uint32) []byte {
	if x == 0 {
		return []byte("0000-00-00 00:00:00")
	}
	t := time.Unix(int64(x), 0).In(time.Local)
	y, mo, d := t.Date()
	h, m, s := t.Clock()
	return mk.Cat(date(y, int(mo), d), []byte{' '}, clock(h, m, s, 2))
}

func timestamp() *Val {
	x := sym.U32("instant")
	return &Val{Col: mk.Col{Type: 7}, Raw: mk.LE(uint64(x), 4), Text: stamp(x)}
}

// ZeroStamp is the zero TIMESTAMP.
func ZeroStamp() *Val {
	return &Val{Col: mk.Col{Type: 7}, Raw: []byte{0, 0, 0, 0}, Text: []byte("0000-00-00 00:00:00")}
}

// ZeroStamp2 is the zero TIMESTAMP(fsp).
func ZeroStamp2(fsp int) *Val {
	v := &Val{Col: mk.Col{Type: 17, Meta: uint16(fsp)}, Raw: make([]byte, 4+(fsp+1)/2), Text: []byte("0000-00-00 00:00:00")}
	if fsp > 0 {
		v.Text = mk.Cat(v.Text, []byte("."), []byte("000000"[:fsp]))
	}
	return v
}

func timestamp2(fsp int) *Val {
	x := sym.U32("instant")
	f, fr, ft := frac(fsp)
	sym.Assume(sym.Or(x != 0, f == 0))
	return &Val{Col: mk.Col{Type: 17, Meta: uint16(fsp)}, Raw: mk.Cat(mk.BE(uint64(x), 4), fr), Text: mk.Cat(stamp(x), ft)}
}

func bit(n int) *Val {
	raw := sym.Bytes("bits", (n+7)/8)
	return &Val{Col: mk.Col{Type: 16, Meta: uint16(n/8<<8 | n%8)}, Raw: raw, Text: raw}
}

func index(real byte, n int) *Val {
	x := sym.U64("index")
	sh := uint(64 - 8*n)
	return &Val{Col: mk.Col{Type: 254, Meta: uint16(real)<<8 | uint16(n)}, Raw: mk.LE(x, n), Text: strconv.AppendUint(nil, x<<sh>>sh, 10)}
}

// json is {"k": i} or "s" or [true, null].
func json(k int) *Val {
	var doc, text []byte
	switch k {
	case 0:
		x := sym.Int("member", 100, 999)
		doc = mk.Cat([]byte{0}, mk.LE(1, 2), mk.LE(12, 2), mk.LE(11, 2), mk.LE(1, 2), []byte{5}, mk.LE(uint64(x), 2), []byte("k"))
		text = mk.Cat([]byte("JSON_OBJECT('k',"), Digits(x, 3), []byte(")"))
	case 1:
		c := sym.Byte("char")
		sym.Assume(sym.And(c != '"', c != '\'', c != '\\'))
		doc = []byte{12, 2, 'a', c}
		text = []byte{'\'', '"', 'a', c, '"', '\''}
	default:
		doc = mk.Cat([]byte{2}, mk.LE(2, 2), mk.LE(10, 2), []byte{4, 1, 0}, []byte{4, 0, 0})
		text = []byte("JSON_ARRAY(true,null)")
	}
	return &Val{Col: mk.Col{Type: 245, Meta: 4}, Raw: mk.Cat(mk.LE(uint64(len(doc)), 4), doc), Text: text}
}

// Kinds are all kinds of values.
var Kinds = []func() *Val{
	func() *Val { return integer(1, 1, false) },
	func() *Val { return integer(1, 1, true) },
	func() *Val { return integer(2, 2, false) },
	func() *Val { return integer(2, 2, true) },
	func() *Val { return integer(9, 3, false) },
	func() *Val { return integer(9, 3, true) },
	func() *Val { return integer(3, 4, false) },
	func() *Val { return integer(3, 4, true) },
	func() *Val { return integer(8, 8, false) },
	func() *Val { return integer(8, 8, true) },
	func() *Val { return float(32) },
	func() *Val { return float(64) },
	year,
	func() *Val { return dec52(false) },
	func() *Val { return dec52(true) },
	dec2410,
	dateV,
	func() *Val { return timeOld(false) },
	func() *Val { return timeOld(true) },
	dateTimeOld,
	timestamp,
	func() *Val { return dateTime2(0) },
	func() *Val { return dateTime2(5) },
	func() *Val { return time2(0, false) },
	func() *Val { return time2(3, true) },
	func() *Val { return time2(6, false) },
	func() *Val { return timestamp2(0) },
	func() *Val { return timestamp2(4) },
	func() *Val { return bit(1) },
	func() *Val { return bit(19) },
	func() *Val { return bit(64) },
	func() *Val { return index(247, 1) },
	func() *Val { return index(247, 2) },
	func() *Val { return index(248, 1) },
	func() *Val { return index(248, 8) },
	func() *Val { return char(10, 3) },
	func() *Val { return char(1020, 300) },
	func() *Val { return char(255, 0) },
	func() *Val { return Str(255, 4) },
	func() *Val { return Str(256, 4) },
	func() *Val { return Str(65535, 700) },
	func() *Val { return Str(20, 0) },
	func() *Val { return blob(252, 1, 5) },
	func() *Val { return blob(252, 2, 300) },
	func() *Val { return blob(252, 3, 7) },
	func() *Val { return blob(252, 4, 1) },
	func() *Val { return blob(252, 2, 0) },
	func() *Val { return blob(255, 4, 25) },
	func() *Val { return json(0) },
	func() *Val { return json(1) },
	func() *Val { return json(2) },
	func() *Val { return ZeroStamp() },
}
