package decode

import (
	"verifh/mk"
	"verifh/sym"
)

// Every type a MySQL 5.6+ table map can announce (248 and 247 arrive as 254).
var mapTypes = []byte{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255}

// schema writes and decodes a table map and compares everything.
func schema(cols []mk.Col, db, name []byte, trailer []byte) {
	typ := byte(mk.TableMapEv)
	// flavor, algorithm and width of the table id; not all combinations
	k := sym.Choice("format", 4)
	maria := k%2 == 1
	f := mk.Mysql56(algs[k%3])
	if k >= 2 {
		f.Sizes = append([]byte{}, f.Sizes...)
		f.Sizes[typ-1] = 6
	}
	id := sym.U64("table id")
	if f.IDLen(typ) == 4 {
		id &= 1<<32 - 1
	} else {
		id &= 1<<48 - 1
	}
	flags := sym.U16("table flags")
	body := mk.Cat(f.TableMapBody(id, flags, string(db), string(name), cols), trailer)
	ev := wrap(maria, f.Event(typ, header(), body))
	rf := rformat(f, 19)
	ev, _, err := ev.StripChecksum(rf)
	if err != nil {
		sym.Fail("the checksum is not stripped: error")
	}
	sym.Assert(ev.TableID(rf) == id, "the table id is wrong")
	tm, err := ev.TableMap(rf)
	if err != nil {
		sym.Fail("the table map is not decoded: error")
	}
	sym.Assert(tm.Flags == flags, "the table flags are wrong")
	sym.Assert(len(tm.Database) == len(db) && len(tm.Name) == len(name), "a name has the wrong length")
	sym.Assert(sym.EqStr(tm.Database, string(db)), "the database name is wrong")
	sym.Assert(sym.EqStr(tm.Name, string(name)), "the table name is wrong")
	sym.Assert(len(tm.Types) == len(cols) && len(tm.Metadata) == len(cols) && tm.CanBeNull.Count() == len(cols), "the column count is wrong")
	for i, c := range cols {
		sym.Assert(tm.Types[i] == c.Type, "a column type is wrong")
		sym.Assert(tm.Metadata[i] == c.Meta, "the metadata of a column is wrong")
		sym.Assert(tm.CanBeNull.Bit(i) == c.Null, "the nullability of a column is wrong")
	}
	sym.Reach("table map")
	sym.Expect("table map")
}

// col is a column of the type with arbitrary metadata.
func col(typ byte) mk.Col {
	c := mk.Col{Type: typ, Null: sym.Bool("nullable")}
	switch len(c.MetaBytes()) {
	case 1:
		c.Meta = uint16(sym.Byte("metadata"))
	case 2:
		c.Meta = sym.U16("metadata")
	}
	return c
}

// C15_MapType covers a column of every type between columns of each metadata
// width and byte order.
func C15_MapType() {
	some := []byte{3, 252, 15, 246}
	cols := []mk.Col{
		col(some[sym.Choice("first", 4)]),
		col(mapTypes[sym.Choice("type", len(mapTypes))]),
		col(some[sym.Choice("last", 4)]),
	}
	schema(cols, []byte("db"), []byte("tab"), sym.Bytes("trailer", 5*sym.Choice("trailer", 2)))
}

// C15_MapNames covers names of 1..255 bytes and optional metadata of any
// length up to 1000 bytes.
func C15_MapNames() {
	db, name, trailer := []byte("dddd"), []byte("tttttt"), []byte(nil)
	switch sym.Choice("what", 3) {
	case 0:
		db = sym.Bytes("database", 1+sym.Choice("database length", 255))
	case 1:
		name = sym.Bytes("name", 1+sym.Choice("name length", 255))
	case 2:
		trailer = sym.Big("trailer", sym.Int("trailer length", 0, 1000))
	}
	schema([]mk.Col{col(3), col(15)}, db, name, trailer)
}

// C15_MapCount covers column counts to 600.
func C15_MapCount() {
	counts := []int{1, 2, 7, 8, 9, 16, 17, 63, 64, 65, 83, 84, 125, 126, 127, 128, 129, 250, 251, 252, 253, 254, 255, 256, 257, 300, 511, 512, 513, 600}
	n := 0
	if sym.Thorough() {
		n = 1 + sym.Choice("columns", 600)
	} else {
		n = counts[sym.Choice("columns", len(counts))]
	}
	var pattern []byte
	switch sym.Choice("pattern", 4) {
	case 0:
		pattern = []byte{3}
	case 1:
		pattern = []byte{252}
	case 2:
		pattern = []byte{15}
	case 3:
		pattern = []byte{254, 1, 17, 253, 246, 245, 12}
	}
	var cols []mk.Col
	for i := 0; i < n; i++ {
		cols = append(cols, col(pattern[i%len(pattern)]))
	}
	schema(cols, []byte("db"), []byte("tab"), sym.Bytes("trailer", 3))
}

// C15_TableID covers the table ids of rows events of every type, for every
// announced header size.
func C15_TableID() {
	typ := []byte{mk.TableMapEv, mk.WriteV1, mk.UpdateV1, mk.DeleteV1, mk.WriteV2, mk.UpdateV2, mk.DeleteV2}[sym.Choice("type", 7)]
	f := mk.Mysql56(0)
	f.Sizes = append([]byte{}, f.Sizes...)
	size := sym.Int("header size", 6, 12)
	f.Sizes[typ-1] = byte(size)
	n := 6
	if size == 6 {
		n = 4
		sym.Reach("four bytes")
	}
	id := sym.U64("table id") & (1<<(8*uint(n)) - 1)
	ev := wrap(sym.Choice("flavor", 2) == 1, f.Event(typ, header(), mk.Cat(mk.LE(id, n), sym.Bytes("rest", 8))))
	sym.Assert(ev.TableID(rformat(f, 19)) == id, "the table id is wrong")
	sym.Expect("four bytes")
}
