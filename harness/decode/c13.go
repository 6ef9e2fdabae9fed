package decode

import (
	r "github.com/Breeze0806/gobinlog/replication"

	"verifh/sym"
)

// text decodes a length-prefixed value of n bytes (n symbolic) and expects it
// verbatim.
func text(typ byte, meta uint16, prefix, n int) {
	content := sym.Big("content", n)
	raw := append(le(uint64(n), prefix), content...)
	got := cell(raw, typ, meta, sym.Bool("unsigned"))
	sym.Observe("length", len(got))
	sym.Assert(got != nil, "an empty value has no data")
	sym.Assert(len(got) == n, "the value has the wrong length")
	sym.Assert(sym.Eq(got, content), "the value is not verbatim")
	if n == 0 {
		sym.Reach("empty")
	} else {
		sym.Reach("non-empty")
	}
	sym.Expect("empty", "non-empty")
}

// C13_VarChar covers every VARCHAR/VARBINARY declaration and length.
func C13_VarChar() {
	max := sym.Int("declared bytes", 0, 65535)
	n := sym.Int("length", 0, 65535)
	sym.Assume(n <= max)
	typ := byte(r.TypeVarchar)
	if sym.Choice("type", 2) == 1 {
		typ = r.TypeVarString
	}
	prefix := 1
	if max > 255 {
		prefix = 2
		sym.Reach("two length bytes")
		if n > 255 {
			sym.Reach("long value")
		}
	}
	sym.Expect("two length bytes", "long value")
	text(typ, uint16(max), prefix, n)
}

// C13_Char covers every CHAR/BINARY declaration and length.
func C13_Char() {
	max := sym.Int("declared bytes", 0, 1023)
	n := sym.Int("length", 0, 1023)
	sym.Assume(n <= max)
	meta := uint16(r.TypeString)<<8 ^ uint16(max&0x300)<<4 | uint16(max&0xff)
	prefix := 1
	if max > 255 {
		prefix = 2
		sym.Reach("two length bytes")
		if n > 255 {
			sym.Reach("long value")
		}
	}
	sym.Expect("two length bytes", "long value")
	text(r.TypeString, meta, prefix, n)
}

var blobTypes = []byte{r.TypeBlob, r.TypeTinyBlob, r.TypeMediumBlob, r.TypeLongBlob, r.TypeGeometry}

// C13_Blob covers TEXT, BLOB and GEOMETRY with 1..4 length bytes.
func C13_Blob() {
	typ := blobTypes[sym.Choice("type", len(blobTypes))]
	prefix := 1 + sym.Choice("length bytes", 4)
	lim := 1<<24 + 1<<16
	if prefix < 3 {
		lim = 1<<(8*uint(prefix)) - 1
	} else if prefix == 3 {
		lim = 1<<24 - 1
	}
	n := sym.Int("length", 0, lim)
	text(typ, uint16(prefix), prefix, n)
}
