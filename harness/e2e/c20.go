package e2e

import (
	"context"
	"encoding/json"
	"strconv"

	gobinlog "github.com/Breeze0806/gobinlog"
	"github.com/Breeze0806/gobinlog/replication"

	"verifh/mk"
	"verifh/sym"
	"verifh/val"
)

// the names of the column types of a binlog
var typeNames = map[int]string{
	0: "Decimal", 1: "Tiny", 2: "Short", 3: "Long", 4: "Float", 5: "Double", 6: "Null", 7: "Timestamp", 8: "LongLong",
	9: "Int24", 10: "Date", 11: "Time", 12: "DateTime", 13: "Year", 14: "NewDate", 15: "Varchar", 16: "Bit",
	17: "Timestamp2", 18: "DateTime2", 19: "Time2", 245: "JSON", 246: "NewDecimal", 247: "Enum", 248: "Set",
	249: "TinyBlob", 250: "MediumBlob", 251: "LongBlob", 252: "Blob", 253: "VarString", 254: "String", 255: "Geometry",
}

// the names of the kinds of statements
var kindNames = map[gobinlog.StatementType]string{
	gobinlog.StatementBegin: "begin", gobinlog.StatementCommit: "commit", gobinlog.StatementRollback: "rollback",
	gobinlog.StatementInsert: "insert", gobinlog.StatementUpdate: "update", gobinlog.StatementDelete: "delete",
	gobinlog.StatementCreate: "create", gobinlog.StatementAlter: "alter", gobinlog.StatementDrop: "drop",
	gobinlog.StatementTruncate: "truncate", gobinlog.StatementRename: "rename", gobinlog.StatementSet: "set",
}

// hasText checks that the value is the text; of a text that is not valid UTF-8
// only that it is a string.
func hasText(j *sym.JSON, s string, what string) {
	if j == nil || j.Kind != '"' {
		sym.Fail(what + " is not a string in JSON")
	}
	if b := []byte(s); sym.UTF8(b) {
		sym.Assert(j.IsStr(b), what+" is not preserved in JSON")
	}
}

func hasPosition(j *sym.JSON, p gobinlog.Position) {
	hasText(j.Get("filename"), p.Filename, "the file of a position")
	o := j.Get("offset")
	t := []byte(strconv.FormatInt(p.Offset, 10))
	sym.Assert(o != nil && o.Kind == '0' && len(o.Str) == len(t) && sym.Eq(o.Str, t), "the offset of a position is not preserved in JSON")
}

func isList(j *sym.JSON, n int) bool {
	if n == 0 && (j == nil || j.Kind == 'n') {
		return true
	}
	return j != nil && j.Kind == '[' && len(j.Vals) == n
}

func hasRows(j *sym.JSON, rs []*gobinlog.RowData) {
	if !isList(j, len(rs)) {
		sym.Fail("the number of rows is not preserved in JSON")
	}
	for i, r := range rs {
		cs := j.Vals[i].Get("Columns")
		if !isList(cs, len(r.Columns)) {
			sym.Fail("the number of columns is not preserved in JSON")
		}
		for k, c := range r.Columns {
			x := cs.Vals[k]
			hasText(x.Get("filed"), c.Filed, "the name of a column")
			name, ok := typeNames[int(c.Type)]
			if !ok {
				name = "unknown"
			}
			hasText(x.Get("type"), name, "the type of a column")
			e := x.Get("isEmpty")
			if e == nil || e.Kind != 't' && e.Kind != 'f' {
				sym.Fail("the absent flag of a column is missing in JSON")
			}
			sym.Assert((e.Kind == 't') == c.IsEmpty, "the absent flag of a column is not preserved in JSON")
			d := x.Get("data")
			if c.Data == nil {
				sym.Assert(d != nil && d.Kind == 'n', "NULL is not null in JSON")
				continue
			}
			hasText(d, string(c.Data), "the data of a column")
		}
	}
}

// marshalled serialises the transaction and checks the result against it.
func marshalled(t *gobinlog.Transaction) {
	b, err := json.Marshal(t)
	sym.Assert(err == nil, "a transaction does not serialise")
	j := sym.ParseJSON(b)
	if j == nil {
		sym.Fail("a transaction serialises to text that is not JSON")
	}
	hasPosition(j.Get("nowPosition"), t.NowPosition)
	hasPosition(j.Get("nextPosition"), t.NextPosition)
	es := j.Get("events")
	if !isList(es, len(t.Events)) {
		sym.Fail("the number of changes is not preserved in JSON")
	}
	for i, e := range t.Events {
		x := es.Vals[i]
		hasText(x.Get("name").Get("db"), e.Table.DbName, "the database of a table")
		hasText(x.Get("name").Get("table"), e.Table.TableName, "the name of a table")
		name, ok := kindNames[e.Type]
		if !ok {
			name = "unknown"
		}
		hasText(x.Get("type"), name, "the kind of a change")
		if e.Query.SQL != "" {
			hasText(x.Get("sql"), e.Query.SQL, "the statement")
			continue
		}
		hasRows(x.Get("rowValues"), e.RowValues)
		hasRows(x.Get("rowIdentifies"), e.RowIdentifies)
	}
}

// example is a transaction of two changes.
func example() *gobinlog.Transaction {
	cols := func(d ...[]byte) *gobinlog.RowData {
		r := &gobinlog.RowData{}
		for i, b := range d {
			r.Columns = append(r.Columns, &gobinlog.ColumnData{Filed: "col" + string(rune('a'+i)), Type: 3 + gobinlog.ColumnType(i), Data: b})
		}
		return r
	}
	name := gobinlog.NewMysqlTableName("db", "tbl")
	return &gobinlog.Transaction{
		NowPosition:  gobinlog.Position{Filename: "bin.000001", Offset: 4},
		NextPosition: gobinlog.Position{Filename: "bin.000001", Offset: 1000},
		Timestamp:    1407805592,
		Events: []*gobinlog.StreamEvent{
			{Type: gobinlog.StatementCreate, Timestamp: 1407805592, Query: replication.Query{Database: "db", SQL: "create table tbl (a int)"}},
			{Type: gobinlog.StatementUpdate, Timestamp: 1407805593, Table: name,
				RowValues:     []*gobinlog.RowData{cols([]byte("1"), nil), cols([]byte(""), []byte("x"))},
				RowIdentifies: []*gobinlog.RowData{cols([]byte("2"), []byte("y")), cols(nil, nil)}},
		},
	}
}

// C20_Text covers arbitrary bytes in every text of a transaction.
func C20_Text() {
	t := example()
	place := sym.Choice("place", 8)
	var s []byte
	switch k := sym.Choice("length", 6); k {
	case 0, 1, 2:
		s = sym.Bytes("text", k)
	case 3, 4: // sequences of UTF-8, whole or not
		s = sym.Bytes("text", k)
		sym.Assume(s[0] >= []byte{0xe0, 0xf0}[k-3])
		for _, c := range s[1:] {
			sym.Assume(c >= 0x80)
		}
	default:
		if !sym.Thorough() {
			sym.Assume(false)
		}
		s = sym.Bytes("text", 3)
	}
	text := string(s)
	e := t.Events[1]
	switch place {
	case 0:
		t.NowPosition.Filename = text
	case 1:
		t.NextPosition.Filename = text
	case 2:
		e.Table.DbName = text
	case 3:
		e.Table.TableName = text
	case 4:
		t.Events[0].Query.SQL = "set " + text
	case 5:
		e.RowValues[0].Columns[1].Filed = text
	case 6:
		e.RowValues[0].Columns[1].Data = s
	default:
		e.RowIdentifies[1].Columns[0].Data = append([]byte("a"), s...)
	}
	marshalled(t)
	sym.Reach("text")
	sym.Expect("text")
}

// C20_Shape covers every number of changes, images and columns, every kind,
// every state of a column.
func C20_Shape() {
	t := example()
	events := sym.Choice("changes", 4)
	if events == 0 {
		t.Events = nil
		if sym.Choice("no changes", 2) == 1 {
			t.Events = []*gobinlog.StreamEvent{}
		}
	} else {
		t.Events = nil
		for i := 0; i < events; i++ {
			e := &gobinlog.StreamEvent{Type: gobinlog.StatementInsert, Table: gobinlog.NewMysqlTableName("db", "t"+string(rune('0'+i)))}
			if i != events-1 {
				t.Events = append(t.Events, e)
				continue
			}
			images := func(name string, max int) (out []*gobinlog.RowData) {
				switch k := sym.Choice(name, 2+max); k {
				case 0:
				case 1:
					out = []*gobinlog.RowData{}
				default:
					for j := 1; j < k; j++ {
						r := &gobinlog.RowData{}
						n := sym.Choice("columns", 3)
						if n == 0 && max == 2 && sym.Choice("no columns", 2) == 1 {
							r.Columns = []*gobinlog.ColumnData{}
						}
						for c := 0; c < n; c++ {
							x := &gobinlog.ColumnData{Filed: "c" + string(rune('0'+c)), Type: 15}
							if c == 0 && (max == 2 || j == 1) {
								x.IsEmpty = sym.Bool("absent")
								x.Data = [][]byte{nil, {}, []byte("null")}[sym.Choice("data", 3)]
							}
							r.Columns = append(r.Columns, x)
						}
						out = append(out, r)
					}
				}
				return
			}
			e.RowValues = images("values", 2)
			if events == 1 {
				e.RowIdentifies = images("identities", 1)
			}
			t.Events = append(t.Events, e)
		}
	}
	marshalled(t)
	sym.Reach("shape")
	sym.Expect("shape")
}

// C20_Names covers the name of every column type and kind of statement.
func C20_Names() {
	t := example()
	switch sym.Choice("what", 3) {
	case 0:
		k := gobinlog.StatementType(sym.Choice("kind", 15))
		t.Events[0].Type, t.Events[1].Type = k, k
	case 1:
		typ := gobinlog.ColumnType(sym.Choice("type", 257))
		t.Events[1].RowValues[0].Columns[0].Type = typ
		t.Events[1].RowIdentifies[1].Columns[1].Type = typ
	default:
		t.NowPosition.Offset = int64(sym.U64("start"))
		t.Timestamp = []int64{0, 1, 1407805592, 1 << 31, 1<<32 - 1}[sym.Choice("time", 5)]
		t.NextPosition.Offset = []int64{0, 4, 1 << 31, 1<<32 - 1, 1<<63 - 1, -1, -1 << 63}[sym.Choice("offset", 7)]
	}
	marshalled(t)
	sym.Reach("names")
	sym.Expect("names")
}

// C20_Delivered covers transactions as the streamer delivers them: values of
// every type, NULL, empty and absent columns, and statements.
func C20_Delivered() {
	kind := sym.Choice("type", len(val.Kinds))
	base := uint32(4000000000) // the digits of symbolic offsets are C20_Names' matter
	h := newHist(mk.Mysql56(1), "bin.000001", base)
	h.v2 = true
	v, s := val.Kinds[kind](), val.Str(20, 0)
	switch c := v.Col; {
	case (c.Type == 3 || c.Type == 8 || c.Type == 9 || c.Type == 254 && c.Meta&0xff == 8) && !sym.Thorough():
		// digits of wide integers are costly and like those of narrow ones
		v = &val.Val{Col: c, Unsigned: v.Unsigned, Raw: mk.LE(0xfedcba9876543210, len(v.Raw))}
	case c.Type == 15, c.Type == 16, c.Type == 252, c.Type == 255, c.Type == 254 && c.Meta>>8 != 0xf7 && c.Meta>>8 != 0xf8:
		// of values delivered as stored only the first byte is symbolic
		raw := append([]byte{}, v.Raw...)
		for i, p := 1, len(raw)-len(v.Text); p+i < len(raw); i++ {
			raw[p+i] = "\"<\\\xe2\x80\xa8\x00\xff/\x1f\x7f"[i%11]
		}
		v = &val.Val{Col: c, Raw: raw}
	}
	t, cols := h.tableFor("db", "tbl", v, s, v)
	h.begin()
	h.change(gobinlog.StatementInsert, t, cols, nil, []row{{{v: v}, {v: s}, {null: true}}})
	h.change(gobinlog.StatementUpdate, t, cols, []row{{{absent: true}, {null: true}, {absent: true}}}, []row{{{null: true}, {v: s}, {absent: true}}})
	h.change(gobinlog.StatementDelete, t, cols, []row{{{null: true}, {v: s}, {null: true}}}, nil)
	h.xid()
	h.statement(gobinlog.StatementCreate, "db", []byte("create table tbl (a varchar(10) default '\"\\<\u00e9\u2028\n')"))
	h.begin()
	h.rollback()
	ses := &session{serve: h.serve, end: endEOF}
	st := newStreamer(77, h.m, "bin.000001", base, ses)
	n := 0
	err := st.Stream(context.Background(), func(t *gobinlog.Transaction) error {
		n++
		marshalled(t)
		return nil
	})
	sym.Assert(err == nil, "streaming a well-formed binlog fails")
	sym.Assert(n == len(h.exp), "the number of transactions is wrong")
	sym.Reach("delivered")
	sym.Expect("delivered")
}

// C20_Long covers long texts with arbitrary bytes at the ends and in the
// middle, and transactions of many changes, rows and columns.
func C20_Long() {
	t := example()
	e := t.Events[1]
	what := sym.Choice("what", 6)
	if what < 3 {
		lengths := []int{63, 64, 65, 255, 256, 1025}
		if sym.Thorough() {
			lengths = append(lengths, 4096, 4097)
		}
		n := lengths[sym.Choice("length", len(lengths))]
		s := make([]byte, n)
		for i := range s {
			s[i] = "abcdefghij\u00e9klmnop\u20ac\n\"q"[i%24]
		}
		switch sym.Choice("at", 3) {
		case 0:
			s[0] = sym.Byte("byte")
		case 1:
			s[n/24*12] = sym.Byte("byte")
		default:
			s[n-1] = sym.Byte("byte")
		}
		switch what {
		case 0:
			t.Events[0].Query.SQL = string(s)
		case 1:
			e.RowValues[1].Columns[0].Data = s
		default:
			e.RowIdentifies[0].Columns[1].Data = s
			e.RowValues[0].Columns[1].Data = s[1:]
		}
	} else {
		n := []int{8, 11, 33, 65, 101}[sym.Choice("number", 5)]
		for i := 1; i < n; i++ {
			x := []byte{'a' + byte(i%26)}
			if i == n-1 {
				x = sym.Bytes("last", 1)
			}
			switch c := (&gobinlog.ColumnData{Filed: "more", Type: 15, Data: x, IsEmpty: i%7 == 3}); what {
			case 3:
				t.Events = append(t.Events, &gobinlog.StreamEvent{Type: gobinlog.StatementInsert, RowValues: []*gobinlog.RowData{{Columns: []*gobinlog.ColumnData{c}}}})
			case 4:
				e.RowIdentifies = append(e.RowIdentifies, &gobinlog.RowData{Columns: []*gobinlog.ColumnData{c}})
				e.RowValues = append(e.RowValues, &gobinlog.RowData{Columns: []*gobinlog.ColumnData{c}})
			default:
				e.RowValues[0].Columns = append(e.RowValues[0].Columns, c)
			}
		}
	}
	marshalled(t)
	sym.Reach("long")
	sym.Expect("long")
}
