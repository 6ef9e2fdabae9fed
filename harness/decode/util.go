// Package decode holds the harnesses that drive the decoders of package
// replication directly.
package decode

import (
	r "github.com/Breeze0806/gobinlog/replication"

	"verifh/sym"
)

// le writes v little-endian in n bytes.
func le(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v >> (8 * uint(i)))
	}
	return b
}

// be writes v big-endian in n bytes.
func be(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[n-1-i] = byte(v >> (8 * uint(i)))
	}
	return b
}

// cell decodes raw as a cell in the middle of foreign bytes and checks that
// exactly raw was consumed.
func cell(raw []byte, typ byte, meta uint16, unsigned bool) []byte {
	pre, post := sym.Bytes("before", 2), sym.Bytes("after", 2)
	data := append(append(append([]byte{}, pre...), raw...), post...)
	got, n, err := r.CellBytes(data, len(pre), typ, meta, unsigned)
	if err != nil {
		sym.Fail("the value is not decoded: error")
	}
	sym.Assert(n == len(raw), "the cell length is wrong")
	return got
}

// same compares without branching and tells lengths apart concretely.
func same(got, want []byte, msg string) {
	if len(got) != len(want) {
		sym.Observe("got", got)
		sym.Observe("want", want)
		sym.Fail(msg)
	}
	sym.Assert(sym.Eq(got, want), msg)
}
