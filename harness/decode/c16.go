package decode

import (
	r "github.com/Breeze0806/gobinlog/replication"

	"verifh/mk"
	"verifh/sym"
)

// wrap makes the library's event of a flavor.
func wrap(maria bool, b []byte) r.BinlogEvent {
	if maria {
		return r.NewMariadbBinlogEvent(b)
	}
	return r.NewMysql56BinlogEvent(b)
}

func header() mk.Header {
	return mk.Header{Time: sym.U32("timestamp"), Server: sym.U32("server id"), Next: sym.U32("next position"), Flags: sym.U16("flags")}
}

// kinds says which predicate holds for which type codes.
func kinds(ev r.BinlogEvent, typ byte, maria bool) {
	gtid := byte(33)
	if maria {
		gtid = 162
	}
	is := func(got bool, msg string, codes ...byte) {
		want := false
		for _, c := range codes {
			want = sym.Or(want, typ == c)
		}
		sym.Assert(got == want, msg)
	}
	is(ev.IsFormatDescription(), "format description events are told apart wrongly", 15)
	is(ev.IsQuery(), "query events are told apart wrongly", 2)
	is(ev.IsXID(), "XID events are told apart wrongly", 16)
	is(ev.IsGTID(), "GTID events are told apart wrongly", gtid)
	is(ev.IsRotate(), "rotate events are told apart wrongly", 4)
	is(ev.IsIntVar(), "int-var events are told apart wrongly", 5)
	is(ev.IsRand(), "rand events are told apart wrongly", 13)
	is(ev.IsPreviousGTIDs(), "previous-GTIDs events are told apart wrongly", 35)
	is(ev.IsRowsQuery(), "rows-query events are told apart wrongly", 29)
	is(ev.IsTableMap(), "table map events are told apart wrongly", 19)
	is(ev.IsWriteRows(), "write rows events are told apart wrongly", 23, 30)
	is(ev.IsUpdateRows(), "update rows events are told apart wrongly", 24, 31)
	is(ev.IsDeleteRows(), "delete rows events are told apart wrongly", 25, 32)
	is(ev.IsPseudo(), "an event is pseudo")
}

// fields checks the header accessors.
func fields(ev r.BinlogEvent, h mk.Header, typ byte, length int) {
	sym.Assert(ev.Timestamp() == h.Time, "the timestamp is wrong")
	sym.Assert(ev.NextPosition() == int64(h.Next), "the next position is wrong")
	if x, ok := ev.(interface{ Type() byte }); ok {
		sym.Assert(x.Type() == typ, "the type is wrong")
	}
	if x, ok := ev.(interface{ ServerID() uint32 }); ok {
		sym.Assert(x.ServerID() == h.Server, "the server id is wrong")
	}
	if x, ok := ev.(interface{ Length() uint32 }); ok {
		sym.Assert(x.Length() == uint32(length), "the length is wrong")
	}
	if x, ok := ev.(interface{ Flags() uint16 }); ok {
		sym.Assert(x.Flags() == h.Flags, "the flags are wrong")
	}
}

// C16_Header covers every header of every type code.
func C16_Header() {
	maria := sym.Choice("flavor", 2) == 1
	typ, h := sym.Byte("type"), header()
	n := sym.Int("body length", 0, 1<<20)
	b := mk.Raw(typ, h, sym.Big("body", n))
	ev := wrap(maria, b)
	sym.Assert(ev.IsValid(), "a well-formed event is invalid")
	fields(ev, h, typ, 19+n)
	switch { // keep the type symbolic within a class
	case typ == 2:
		sym.Reach("query")
	case typ == 33:
		sym.Reach("gtid")
	}
	kinds(ev, typ, maria)
	sym.Expect("query", "gtid")
}

// algs are the checksum algorithms of the property.
var algs = []byte{0, 1, 255}

// C16_Strip covers the checksum of events of every type and length.
func C16_Strip() {
	maria := sym.Choice("flavor", 2) == 1
	f := mk.Mysql56(algs[sym.Choice("algorithm", 3)])
	typ, h := sym.Byte("type"), header()
	n := sym.Int("body length", 0, 1<<20)
	body := sym.Big("body", n)
	var sum []byte
	b := mk.Raw(typ, h, body)
	if f.Alg == 1 {
		sum = mk.Checksum()
		b = mk.Raw(typ, h, mk.Cat(body, sum))
		sym.Reach("CRC32")
	}
	ev := wrap(maria, b)
	sym.Assert(ev.IsValid(), "a well-formed event is invalid")
	got, crc, err := ev.StripChecksum(rformat(f, 19))
	if err != nil {
		sym.Fail("the checksum is not stripped: error")
	}
	sym.Assert(len(crc) == len(sum), "the checksum has the wrong length")
	sym.Assert(sym.Eq(crc, sum), "the checksum is wrong")
	sym.Assert(len(got.Bytes()) == 19+n, "the stripped event has the wrong length")
	sym.Assert(sym.Eq(got.Bytes()[19:], body), "the body changes when the checksum is stripped")
	sym.Assert(got.Timestamp() == h.Time && got.NextPosition() == int64(h.Next), "the header changes when the checksum is stripped")
	kinds(got, typ, maria)
	sym.Expect("CRC32")
}

// rformat is the library's view of the format (a decoded one, by C16_FDE).
func rformat(f *mk.Format, headerLength byte) r.BinlogFormat {
	return r.BinlogFormat{FormatVersion: 4, ServerVersion: f.Version, HeaderLength: headerLength, ChecksumAlgorithm: f.Alg, HeaderSizes: f.Sizes}
}

// C16_FDE covers format descriptions: every server version length, header-size
// tables of 27..255 entries, every algorithm byte.
func C16_FDE() {
	maria := sym.Choice("flavor", 2) == 1
	vl := sym.Choice("version length", 51)
	entries := 40
	if vl == 10 {
		entries = 27 + sym.Choice("table entries", 229)
	}
	version := sym.Bytes("version", vl)
	ok := true
	for _, c := range version {
		ok = sym.And(ok, c != 0)
	}
	sym.Assume(ok)
	padded := make([]byte, 50)
	copy(padded, version)
	h := header()
	created := sym.U32("created")
	hl := sym.Int("header length", 19, 255)
	sizes := sym.Bytes("sizes", entries)
	alg := sym.Byte("algorithm")
	b := mk.Raw(mk.FormatEv, h, mk.Cat([]byte{4, 0}, padded, mk.LE(uint64(created), 4), []byte{byte(hl)}, sizes, []byte{alg}, mk.Checksum()))
	ev := wrap(maria, b)
	sym.Assert(ev.IsFormatDescription(), "the format description is not recognised")
	f, err := ev.Format()
	if err != nil {
		sym.Fail("the format description is not decoded: error")
	}
	sym.Assert(f.FormatVersion == 4, "the format version is wrong")
	sym.Assert(len(f.ServerVersion) == vl, "the server version has the wrong length")
	sym.Assert(sym.EqStr(f.ServerVersion, string(version)), "the server version is wrong")
	sym.Assert(int(f.HeaderLength) == hl, "the header length is wrong")
	sym.Assert(f.ChecksumAlgorithm == alg, "the checksum algorithm is wrong")
	sym.Assert(len(f.HeaderSizes) == entries, "the header-size table has the wrong length")
	for i := 1; i <= entries; i++ {
		sym.Assert(f.HeaderSize(byte(i)) == sizes[i-1], "a header size is wrong")
	}
	sym.Assert(!f.IsZero(), "the format looks like the zero format")
}

// event wraps a body as an event of a drawn flavor, header length and checksum
// algorithm, with the checksum stripped as the streamer does.
func event(typ byte, body []byte) (r.BinlogEvent, r.BinlogFormat) {
	maria := sym.Choice("flavor", 2) == 1
	f := mk.Mysql56(algs[sym.Choice("algorithm", 3)])
	extra := []byte{}
	if sym.Choice("long header", 2) == 1 {
		extra = sym.Bytes("extra header", 3)
	}
	ev := wrap(maria, f.Event(typ, header(), mk.Cat(extra, body)))
	rf := rformat(f, byte(19+len(extra)))
	ev, _, err := ev.StripChecksum(rf)
	if err != nil {
		sym.Fail("the checksum is not stripped: error")
	}
	return ev, rf
}

// C16_Rotate covers rotate events with names of 0..1000 bytes.
func C16_Rotate() {
	pos := sym.U64("position")
	var name []byte
	if k := sym.Choice("short name", 5); k < 4 {
		name = sym.Bytes("name", []int{0, 1, 4, 17}[k])
	} else {
		name = sym.Big("name", sym.Int("name length", 0, 1000))
	}
	ev, f := event(mk.RotateEv, mk.Cat(mk.LE(pos, 8), name))
	file, got, err := ev.Rotate(f)
	if err != nil {
		sym.Fail("the rotate event is not decoded: error")
	}
	sym.Assert(uint64(got) == pos, "the rotate position is wrong")
	sym.Assert(len(file) == len(name), "the rotate file name has the wrong length")
	sym.Assert(sym.EqStr(file, string(name)), "the rotate file name is wrong")
}

// C16_IntVar covers int-var events.
func C16_IntVar() {
	id := byte(1 + sym.Choice("id", 2))
	v := sym.U64("value")
	ev, f := event(mk.IntVarEv, mk.Cat([]byte{id}, mk.LE(v, 8)))
	typ, got, err := ev.IntVar(f)
	if err != nil {
		sym.Fail("the int-var event is not decoded: error")
	}
	sym.Assert(typ == id, "the int-var id is wrong")
	sym.Assert(got == v, "the int-var value is wrong")
}

// C16_Rand covers rand events.
func C16_Rand() {
	a, b := sym.U64("seed 1"), sym.U64("seed 2")
	ev, f := event(mk.RandEv, mk.Cat(mk.LE(a, 8), mk.LE(b, 8)))
	x, y, err := ev.Rand(f)
	if err != nil {
		sym.Fail("the rand event is not decoded: error")
	}
	sym.Assert(x == a && y == b, "the rand seeds are wrong")
}

// C16_Xid covers XID events: only the header is delivered.
func C16_Xid() {
	ev, _ := event(mk.XidEv, mk.LE(sym.U64("xid"), 8))
	sym.Assert(ev.IsXID() && !ev.IsQuery(), "the XID event is not recognised")
}

// query decodes a query event and compares.
func query(vars []byte, charset []byte, db, sql []byte) {
	body := mk.Cat(mk.LE(uint64(sym.U32("thread")), 4), mk.LE(uint64(sym.U32("seconds")), 4), []byte{byte(len(db))},
		mk.LE(uint64(sym.U16("error code")), 2), mk.LE(uint64(len(vars)), 2), vars, db, []byte{0}, sql)
	ev, f := event(mk.QueryEv, body)
	q, err := ev.Query(f)
	if err != nil {
		sym.Fail("the query event is not decoded: error")
	}
	sym.Assert(len(q.Database) == len(db), "the database name has the wrong length")
	sym.Assert(sym.EqStr(q.Database, string(db)), "the database name is wrong")
	sym.Assert(len(q.SQL) == len(sql), "the SQL text has the wrong length")
	sym.Assert(sym.EqStr(q.SQL, string(sql)), "the SQL text is wrong")
	if charset == nil {
		sym.Assert(q.Charset == nil, "a charset appears from nowhere")
		return
	}
	if q.Charset == nil {
		sym.Fail("the session charset is lost")
	}
	u := func(i int) int32 { return int32(charset[i]) | int32(charset[i+1])<<8 }
	sym.Assert(q.Charset.Client == u(0) && q.Charset.Conn == u(2) && q.Charset.Server == u(4), "the session charset is wrong")
	sym.Reach("charset")
}

// C16_QueryDatabase covers databases of 0..255 bytes.
func C16_QueryDatabase() {
	cs := sym.Bytes("charset", 6)
	query(append([]byte{4}, cs...), cs, sym.Big("database", sym.Int("database length", 0, 255)), sym.Bytes("SQL", 4))
}

// C16_QueryText covers SQL of 0..64 KB.
func C16_QueryText() {
	db := sym.Bytes("database", []int{0, 3, 255}[sym.Choice("database length", 3)])
	query(nil, nil, db, sym.Big("SQL", sym.Int("SQL length", 0, 1<<16)))
}

// optional draws whether a status variable is present.
func optional(name string, v ...[]byte) []byte {
	if sym.Choice(name, 2) == 0 {
		return nil
	}
	return mk.Cat(v...)
}

// C16_QueryVars covers the status variables in the order MySQL emits them:
// flags2, sql_mode, catalog (old or new form), auto_increment, charset, then
// the rest with arbitrary payloads.
func C16_QueryVars() {
	vars := optional("flags2", []byte{0}, sym.Bytes("flags2", 4))
	vars = mk.Cat(vars, optional("sql mode", []byte{1}, sym.Bytes("sql mode", 8)))
	lens := []int{0, 3, 255}
	switch sym.Choice("catalog", 3) {
	case 1:
		n := lens[sym.Choice("catalog length", 3)]
		vars = mk.Cat(vars, []byte{6, byte(n)}, sym.Bytes("catalog", n))
	case 2:
		n := lens[sym.Choice("catalog length", 3)]
		vars = mk.Cat(vars, []byte{2, byte(n)}, sym.Bytes("catalog", n), []byte{0})
		sym.Reach("old catalog")
	}
	vars = mk.Cat(vars, optional("auto increment", []byte{3}, sym.Bytes("auto increment", 4)))
	var cs []byte
	if sym.Choice("charset", 2) == 1 {
		cs = sym.Bytes("charset", 6)
		vars = mk.Cat(vars, []byte{4}, cs)
	}
	if sym.Choice("rest", 2) == 1 {
		// time zone, locale, character set of the database, and so on: all
		// codes above the charset's
		code := sym.Int("rest code", 5, 20)
		sym.Assume(code != 6)
		vars = mk.Cat(vars, []byte{byte(code)}, sym.Bytes("rest", 9))
		sym.Reach("rest")
	}
	query(vars, cs, []byte("test"), sym.Bytes("SQL", 5))
	sym.Expect("rest", "old catalog", "charset")
}
