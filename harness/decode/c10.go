package decode

import (
	"strconv"

	r "github.com/Breeze0806/gobinlog/replication"

	"verifh/sym"
)

// intCell checks an integer column of n bytes: the text must be the decimal
// text of the two's complement (or unsigned) value of the n bytes.
func intCell(typ byte, n int) {
	sym.Expect("int signed", "int unsigned", "int negative")
	v := sym.U64("value")
	raw := le(v, n)
	unsigned := sym.Choice("unsigned", 2) == 1
	got := cell(raw, typ, 0, unsigned)
	sh := uint(64 - 8*n)
	var want []byte
	if unsigned {
		sym.Reach("int unsigned")
		want = strconv.AppendUint(nil, v<<sh>>sh, 10)
	} else {
		sym.Reach("int signed")
		s := int64(v<<sh) >> sh
		if s < 0 {
			sym.Reach("int negative")
		}
		want = strconv.AppendInt(nil, s, 10)
	}
	sym.Observe("text", got)
	same(got, want, "integer text is wrong")
}

func C10_Tiny()     { intCell(r.TypeTiny, 1) }
func C10_Short()    { intCell(r.TypeShort, 2) }
func C10_Int24()    { intCell(r.TypeInt24, 3) }
func C10_Long()     { intCell(r.TypeLong, 4) }
func C10_LongLong() { intCell(r.TypeLongLong, 8) }

// C10_Float: every finite FLOAT.
func C10_Float() {
	v := sym.U32("bits")
	sym.Assume(v>>23&0xff != 0xff)
	got := cell(le(uint64(v), 4), r.TypeFloat, 4, sym.Choice("unsigned", 2) == 1)
	sym.Assert(sym.FloatText(got, uint64(v), 32, true), "FLOAT text is not the plain decimal text of the value")
	sym.Reach("float")
	sym.Expect("float")
}

// C10_Double: every finite DOUBLE.
func C10_Double() {
	v := sym.U64("bits")
	sym.Assume(v>>52&0x7ff != 0x7ff)
	got := cell(le(v, 8), r.TypeDouble, 8, sym.Choice("unsigned", 2) == 1)
	sym.Assert(sym.FloatText(got, v, 64, true), "DOUBLE text is not the plain decimal text of the value")
	sym.Reach("double")
	sym.Expect("double")
}

// C10_Year: 0 is 0000, n is 1900+n; always four digits.
func C10_Year() {
	v := sym.Byte("year")
	got := cell([]byte{v}, r.TypeYear, 0, sym.Choice("unsigned", 2) == 1)
	sym.Observe("text", got)
	y := 1900 + int(v)
	if v == 0 {
		y = 0
		sym.Reach("year zero")
	}
	want := []byte{byte('0' + y/1000), byte('0' + y/100%10), byte('0' + y/10%10), byte('0' + y%10)}
	same(got, want, "YEAR text is wrong")
	sym.Expect("year zero")
}

// C10_Bit: BIT(n) is its big-endian bytes.
func C10_Bit() {
	n := sym.Int("bits", 1, 64)
	bytes, rest := n/8, n%8
	meta := uint16(bytes<<8 | rest)
	nb := sym.Concretize((n + 7) / 8)
	raw := sym.Bytes("value", nb)
	got := cell(raw, r.TypeBit, meta, sym.Choice("unsigned", 2) == 1)
	sym.Observe("bytes", got)
	same(got, raw, "BIT bytes are wrong")
	sym.Reach("bit")
	sym.Expect("bit")
}

// C10_Enum: the member index, whatever way the master announces the type.
func C10_Enum() {
	n := 1 + sym.Choice("bytes", 2)
	v := sym.U16("index")
	if n == 1 {
		v &= 0xff
	}
	typ, meta := byte(r.TypeString), uint16(r.TypeEnum)<<8|uint16(n)
	if sym.Choice("announced as ENUM", 2) == 1 {
		typ = r.TypeEnum
	}
	got := cell(le(uint64(v), n), typ, meta, sym.Choice("unsigned", 2) == 1)
	sym.Observe("text", got)
	same(got, strconv.AppendUint(nil, uint64(v), 10), "ENUM index is wrong")
	sym.Reach("enum")
	sym.Expect("enum")
}

// C10_Set: the member bitmask (as announced in real binlogs: STRING with the
// real type in the metadata).
func C10_Set() {
	n := 1 + sym.Choice("bytes", 8)
	v := sym.U64("mask")
	sh := uint(64 - 8*n)
	got := cell(le(v, n), r.TypeString, uint16(r.TypeSet)<<8|uint16(n), sym.Choice("unsigned", 2) == 1)
	sym.Observe("text", got)
	same(got, strconv.AppendUint(nil, v<<sh>>sh, 10), "SET mask is wrong")
	sym.Reach("set")
	sym.Expect("set")
}
