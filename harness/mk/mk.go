// Package mk is an independent writer of the MySQL replication formats: it
// plays the master in the harnesses. Nothing in it uses the code under test.
package mk

import (
	"bytes"

	"verifh/sym"
)

// Event type codes.
const (
	QueryEv     = 2
	StopEv      = 3
	RotateEv    = 4
	IntVarEv    = 5
	RandEv      = 13
	FormatEv    = 15
	XidEv       = 16
	TableMapEv  = 19
	WriteV1     = 23
	UpdateV1    = 24
	DeleteV1    = 25
	HeartbeatEv = 27
	RowsQueryEv = 29
	WriteV2     = 30
	UpdateV2    = 31
	DeleteV2    = 32
	GtidEv      = 33
	AnonGtidEv  = 34
	PrevGtidsEv = 35
)

// LE writes v little-endian in n bytes.
func LE(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v >> (8 * uint(i)))
	}
	return b
}

// BE writes v big-endian in n bytes.
func BE(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[n-1-i] = byte(v >> (8 * uint(i)))
	}
	return b
}

// Cat concatenates.
func Cat(ps ...[]byte) []byte {
	var out []byte
	for _, p := range ps {
		out = append(out, p...)
	}
	return out
}

// LenEnc is a length-encoded integer.
func LenEnc(n int) []byte {
	switch {
	case n < 251:
		return []byte{byte(n)}
	case n < 1<<16:
		return append([]byte{0xfc}, LE(uint64(n), 2)...)
	case n < 1<<24:
		return append([]byte{0xfd}, LE(uint64(n), 3)...)
	}
	return append([]byte{0xfe}, LE(uint64(n), 8)...)
}

// Format is the master's binlog format.
type Format struct {
	Version string // server version
	Created uint32
	Sizes   []byte // post-header lengths, by event type - 1
	Alg     byte   // checksum algorithm
	Maria   bool
}

// Sizes56 are MySQL 5.6's post-header lengths.
func Sizes56() []byte {
	return []byte{
		56, 13, 0, 8, 0, 18, 0, 4, 4, 4, 4, 18, 0, 0, 92, 0, 4, 26, 8, 0, 0, 0, 8, 8, 8, 2, 0, 0, 0, 10, 10, 10, 25, 25, 0}
}

// Mysql56 is the format of a MySQL 5.6 master.
func Mysql56(alg byte) *Format {
	return &Format{Version: "5.6.33-log", Sizes: Sizes56(), Alg: alg}
}

// IDLen is the width of a table id in events of type typ.
func (f *Format) IDLen(typ byte) int {
	if f.Sizes[typ-1] == 6 {
		return 4
	}
	return 6
}

// Header is the common header but the length.
type Header struct {
	Time   uint32
	Server uint32
	Next   uint32
	Flags  uint16
}

// Raw is an event without checksum handling.
func Raw(typ byte, h Header, body []byte) []byte {
	return Cat(LE(uint64(h.Time), 4), []byte{typ}, LE(uint64(h.Server), 4), LE(uint64(19+len(body)), 4),
		LE(uint64(h.Next), 4), LE(uint64(h.Flags), 2), body)
}

// Event is an event with the checksum the format asks for. The library does
// not verify checksums, so their bytes are arbitrary.
func (f *Format) Event(typ byte, h Header, body []byte) []byte {
	if f.Alg == 1 {
		body = Cat(body, Checksum())
	}
	return Raw(typ, h, body)
}

// Plain makes the writer fix what the library has no use for. Error messages
// spell out whole events, a way for every byte that is free.
var Plain bool

// Free is n arbitrary bytes.
func Free(name string, n int) []byte {
	if Plain {
		return bytes.Repeat([]byte{0x5c}, n)
	}
	return sym.Bytes(name, n)
}

// Checksum is four arbitrary bytes.
func Checksum() []byte { return Free("checksum", 4) }

// FDE is the format description event; it always has a checksum.
func (f *Format) FDE(h Header) []byte {
	v := make([]byte, 50)
	copy(v, f.Version)
	return Raw(FormatEv, h, Cat([]byte{4, 0}, v, LE(uint64(f.Created), 4), []byte{19}, f.Sizes, []byte{f.Alg}, Checksum()))
}

// Rotate names the next file.
func (f *Format) Rotate(h Header, file string, pos uint64) []byte {
	return f.Event(RotateEv, h, Cat(LE(pos, 8), []byte(file)))
}

// Query is a query event.
func (f *Format) Query(h Header, vars []byte, db string, sql []byte) []byte {
	return f.Event(QueryEv, h, QueryBody(vars, db, sql))
}

// QueryBody is the body of a query event.
func QueryBody(vars []byte, db string, sql []byte) []byte {
	return Cat(Free("thread and time", 8), []byte{byte(len(db))}, Free("error code", 2), LE(uint64(len(vars)), 2), vars, []byte(db), []byte{0}, sql)
}

// Xid is a commit.
func (f *Format) Xid(h Header, xid uint64) []byte { return f.Event(XidEv, h, LE(xid, 8)) }

// Col is a column definition.
type Col struct {
	Type byte
	Meta uint16
	Null bool // nullable
}

// MetaBytes is the table map's metadata of the column.
func (c Col) MetaBytes() []byte {
	switch c.Type {
	case 4, 5, 17, 18, 19, 245, 249, 250, 251, 252, 255:
		return []byte{byte(c.Meta)}
	case 246, 247, 248, 254:
		return BE(uint64(c.Meta), 2)
	case 15, 16, 253:
		return LE(uint64(c.Meta), 2)
	}
	return nil
}

// Bits packs a bitmap. The bits that stand for no column may be anything.
func Bits(b []bool) []byte {
	out := make([]byte, (len(b)+7)/8)
	for i, x := range b {
		out[i/8] |= byte(sym.Ite(x, 1, 0)) << uint(i%8)
	}
	if n := len(b) % 8; n != 0 {
		out[len(out)-1] |= Free("padding", 1)[0] << uint(n)
	}
	return out
}

// TableMapBody is the body of a table map event.
func (f *Format) TableMapBody(id uint64, flags uint16, db, name string, cols []Col) []byte {
	var types, meta []byte
	var null []bool
	for _, c := range cols {
		types = append(types, c.Type)
		meta = append(meta, c.MetaBytes()...)
		null = append(null, c.Null)
	}
	return Cat(LE(id, f.IDLen(TableMapEv)), LE(uint64(flags), 2), []byte{byte(len(db))}, []byte(db), []byte{0},
		[]byte{byte(len(name))}, []byte(name), []byte{0}, LenEnc(len(cols)), types, LenEnc(len(meta)), meta, Bits(null))
}

// TableMap announces a table.
func (f *Format) TableMap(h Header, id uint64, db, name string, cols []Col) []byte {
	return f.Event(TableMapEv, h, f.TableMapBody(id, 1, db, name, cols))
}

// Image is one row image.
type Image struct {
	Null  []bool   // of the present columns
	Cells [][]byte // encoded cells of the present columns (ignored when null)
}

// Bytes is the image's null bitmap and cells.
func (im Image) Bytes() []byte {
	return Cat(Bits(im.Null), im.Data())
}

// Data is the image's cells.
func (im Image) Data() []byte {
	var out []byte
	for i, c := range im.Cells {
		if !im.Null[i] {
			out = append(out, c...)
		}
	}
	return out
}

// IsV2 tells row event versions apart.
func IsV2(typ byte) bool { return typ >= WriteV2 }

// HasBefore reports whether events of the type have before images.
func HasBefore(typ byte) bool { return typ != WriteV1 && typ != WriteV2 }

// HasAfter reports whether events of the type have after images.
func HasAfter(typ byte) bool { return typ != DeleteV1 && typ != DeleteV2 }

// RowsBody is the body of a rows event.
func (f *Format) RowsBody(typ byte, id uint64, flags uint16, extra []byte, ncols int, before, after []bool, images []Image) []byte {
	b := Cat(LE(id, f.IDLen(typ)), LE(uint64(flags), 2))
	if IsV2(typ) {
		b = Cat(b, LE(uint64(2+len(extra)), 2), extra)
	}
	b = append(b, LenEnc(ncols)...)
	if HasBefore(typ) {
		b = append(b, Bits(before)...)
	}
	if HasAfter(typ) {
		b = append(b, Bits(after)...)
	}
	for _, im := range images {
		b = append(b, im.Bytes()...)
	}
	return b
}

// Rows is a rows event.
func (f *Format) Rows(typ byte, h Header, id uint64, ncols int, before, after []bool, images []Image) []byte {
	return f.Event(typ, h, f.RowsBody(typ, id, 1, nil, ncols, before, after, images))
}

// Gtid is a MySQL GTID event.
func (f *Format) Gtid(h Header, sid [16]byte, gno uint64) []byte {
	return f.Event(GtidEv, h, Cat([]byte{1}, sid[:], LE(gno, 8)))
}
