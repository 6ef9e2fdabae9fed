package e2e

import (
	"context"

	gobinlog "github.com/Breeze0806/gobinlog"
	"github.com/Breeze0806/gobinlog/replication"

	"verifh/mk"
	"verifh/sym"
	"verifh/val"
)

// ---- snapshots ----

func copyOf(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append(make([]byte, 0, len(b)), b...)
}

// copyStr copies a string byte by byte.
func copyStr(s string) string { return string(copyOf([]byte(s))) }

func snapRows(rs []*gobinlog.RowData) (out []*gobinlog.RowData) {
	for _, r := range rs {
		c := &gobinlog.RowData{}
		for _, x := range r.Columns {
			c.Columns = append(c.Columns, &gobinlog.ColumnData{Filed: copyStr(x.Filed), Type: x.Type, IsEmpty: x.IsEmpty, Data: copyOf(x.Data)})
		}
		out = append(out, c)
	}
	return
}

// snap is a copy of the transaction that shares nothing with it.
func snap(t *gobinlog.Transaction) *gobinlog.Transaction {
	c := &gobinlog.Transaction{NowPosition: t.NowPosition, NextPosition: t.NextPosition, Timestamp: t.Timestamp}
	c.NowPosition.Filename = copyStr(t.NowPosition.Filename)
	c.NextPosition.Filename = copyStr(t.NextPosition.Filename)
	for _, e := range t.Events {
		d := &gobinlog.StreamEvent{Type: e.Type, Timestamp: e.Timestamp,
			Table:         gobinlog.MysqlTableName{DbName: copyStr(e.Table.DbName), TableName: copyStr(e.Table.TableName)},
			Query:         replication.Query{Database: copyStr(e.Query.Database), SQL: copyStr(e.Query.SQL)},
			RowValues:     snapRows(e.RowValues),
			RowIdentifies: snapRows(e.RowIdentifies)}
		if e.Query.Charset != nil {
			cs := *e.Query.Charset
			d.Query.Charset = &cs
		}
		c.Events = append(c.Events, d)
	}
	return c
}

func sameStr(a, b string) bool { return len(a) == len(b) && sym.EqStr(a, b) }

func rowsUnchanged(a, b []*gobinlog.RowData) {
	if len(a) != len(b) {
		sym.Fail("the row images of a delivered transaction changed")
	}
	for i, r := range a {
		if len(r.Columns) != len(b[i].Columns) {
			sym.Fail("a row image of a delivered transaction changed")
		}
		for j, x := range r.Columns {
			y := b[i].Columns[j]
			sym.Assert(sym.And(sameStr(x.Filed, y.Filed), x.Type == y.Type, x.IsEmpty == y.IsEmpty, (x.Data == nil) == (y.Data == nil)),
				"a column of a delivered transaction changed")
			sym.Assert(len(x.Data) == len(y.Data) && sym.Eq(x.Data, y.Data), "a value of a delivered transaction changed")
		}
	}
}

// unchanged compares a delivered transaction with its snapshot.
func unchanged(t, was *gobinlog.Transaction) {
	sym.Assert(sym.And(sameStr(t.NowPosition.Filename, was.NowPosition.Filename), t.NowPosition.Offset == was.NowPosition.Offset,
		sameStr(t.NextPosition.Filename, was.NextPosition.Filename), t.NextPosition.Offset == was.NextPosition.Offset,
		t.Timestamp == was.Timestamp), "the labels of a delivered transaction changed")
	if len(t.Events) != len(was.Events) {
		sym.Fail("the changes of a delivered transaction changed")
	}
	for i, e := range t.Events {
		w := was.Events[i]
		sym.Assert(sym.And(e.Type == w.Type, e.Timestamp == w.Timestamp, sameStr(e.Table.DbName, w.Table.DbName), sameStr(e.Table.TableName, w.Table.TableName)),
			"a change of a delivered transaction changed")
		sym.Assert(sym.And(sameStr(e.Query.Database, w.Query.Database), sameStr(e.Query.SQL, w.Query.SQL)),
			"the statement of a delivered transaction changed")
		if (e.Query.Charset == nil) != (w.Query.Charset == nil) || e.Query.Charset != nil && *e.Query.Charset != *w.Query.Charset {
			sym.Fail("the character set of a delivered statement changed")
		}
		rowsUnchanged(e.RowValues, w.RowValues)
		rowsUnchanged(e.RowIdentifies, w.RowIdentifies)
	}
}

// keeper is a handler that keeps what it is given.
type keeper struct {
	got, was []*gobinlog.Transaction
	at       func(n int) error
	mark     byte
}

func (k *keeper) handle(t *gobinlog.Transaction) error {
	k.check()
	k.got = append(k.got, t)
	k.was = append(k.was, snap(t))
	if k.at != nil {
		return k.at(len(k.got))
	}
	return nil
}

// check compares everything delivered so far with its snapshot.
func (k *keeper) check() {
	for i, t := range k.got {
		unchanged(t, k.was[i])
	}
}

// pace makes the master send packet by packet, as much as the driver takes, or
// a few bytes at a time.
func (ses *session) pace(n int) {
	switch n {
	case 0:
		ses.lockstep = true
	case 2:
		ses.chunk = 1000
	}
}

// typed logs transactions over a table with a column of the kind: changes of
// every kind, a statement in between, and a change of another file.
func (h *hist) typed(kind int, rows int) {
	// values delivered as stored are drawn anew each time, the others, whose
	// text has several shapes, once
	v := val.Kinds[kind]()
	mkv := func() *val.Val {
		switch v.Col.Type {
		case 15, 16, 252, 255:
			return val.Kinds[kind]()
		}
		return v
	}
	fresh := func(n int) row {
		return row{{v: val.Str(30, n)}, {v: mkv()}, {v: val.Str(30, n)}}
	}
	s := val.Str(30, 1)
	t, cols := h.tableFor("db", "tbl", s, v, s)
	many := func() (out []row) {
		for i := 0; i < rows; i++ {
			out = append(out, fresh(2+i))
		}
		return
	}
	h.change(gobinlog.StatementInsert, t, cols, nil, many())
	sql := mk.Cat([]byte("create /*"), sym.Bytes("comment", 6), []byte("*/ table x (a int)"))
	h.statement(gobinlog.StatementCreate, "db", sql)
	h.begin()
	h.change(gobinlog.StatementUpdate, t, cols, many(), many())
	h.change(gobinlog.StatementDelete, t, cols, many(), nil)
	h.xid()
	h.rotate("bin.000002")
	h.statement(gobinlog.StatementCreate, "db", sql)
	h.change(gobinlog.StatementInsert, t, cols, nil, many())
}

// C08_Stable covers values of every type read again after every later delivery
// and after the stream has ended.
func C08_Stable() {
	base := anyOffset()
	kind := sym.Choice("type", len(val.Kinds))
	h := newHist(mk.Mysql56(byte(kind%2)), "bin.000001", base)
	h.v2, h.times = kind%2 == 0, true
	h.typed(kind, 1)
	k := &keeper{}
	ses := &session{serve: h.serve, end: endEOF}
	ses.pace(sym.Choice("pace", 2))
	s := newStreamer(5, h.m, "bin.000001", base, ses)
	err := s.Stream(context.Background(), k.handle)
	sym.Assert(err == nil, "streaming a well-formed binlog fails")
	sym.Assert(len(k.got) == len(h.exp), "the number of transactions is wrong")
	k.check()
	sym.Reach("stable")
	sym.Expect("stable")
}

// scribble overwrites every value of the transaction, and its copy in the
// snapshot, with bytes of its own; everything kept is checked after each.
func (k *keeper) scribble(n int) {
	over := func(rs, ws []*gobinlog.RowData) {
		for i, r := range rs {
			for j, c := range r.Columns {
				w := ws[i].Columns[j]
				k.mark++
				for n := range c.Data {
					c.Data[n] = k.mark
					w.Data[n] = k.mark
				}
			}
		}
	}
	for i, e := range k.got[n].Events {
		over(e.RowIdentifies, k.was[n].Events[i].RowIdentifies)
		over(e.RowValues, k.was[n].Events[i].RowValues)
		if c := e.Query.Charset; c != nil {
			k.mark++
			*c = replication.Charset{Client: int32(k.mark), Conn: int32(k.mark) + 1, Server: int32(k.mark) + 2}
			*k.was[n].Events[i].Query.Charset = *c
		}
	}
	k.check()
	// the structure around the values
	for i, e := range k.got[n].Events {
		w := k.was[n].Events[i]
		for j, rs := range [][]*gobinlog.RowData{e.RowIdentifies, e.RowValues} {
			for m, r := range rs {
				x := [][]*gobinlog.RowData{w.RowIdentifies, w.RowValues}[j][m]
				for l, c := range r.Columns {
					c.Filed, c.IsEmpty, c.Type = "overwritten", !c.IsEmpty, 99
					x.Columns[l].Filed, x.Columns[l].IsEmpty, x.Columns[l].Type = c.Filed, c.IsEmpty, c.Type
				}
			}
		}
	}
	k.check()
}

// C08_Private covers handlers that overwrite the values they are given: what
// else was delivered and what is delivered later does not change.
func C08_Private() {
	base := anyOffset()
	kind := sym.Choice("type", len(val.Kinds))
	h := newHist(mk.Mysql56(byte(kind%2)), "bin.000001", base)
	h.v2, h.times = kind%2 == 0, true
	h.typed(kind, 2)
	k := &keeper{}
	ses := &session{serve: h.serve, end: endEOF}
	ses.pace(sym.Choice("pace", 2))
	s := newStreamer(5, h.m, "bin.000001", base, ses)
	err := s.Stream(context.Background(), func(t *gobinlog.Transaction) error {
		if len(k.got) >= len(h.exp) {
			sym.Fail("more transactions are delivered than the binlog holds")
		}
		h.exp[len(k.got)].same(t)
		k.handle(t)
		k.scribble(len(k.got) - 1)
		return nil
	})
	sym.Assert(err == nil, "streaming a well-formed binlog fails")
	sym.Assert(len(k.got) == len(h.exp), "the number of transactions is wrong")
	k.check()
	sym.Reach("private")
	sym.Expect("private")
}

// constant is a value of fixed bytes.
type constant struct {
	typ  byte
	meta uint16
	raw  []byte
}

// constants are values that an implementation may keep: the shortest, empty
// and zero ones.
var constants = []constant{
	{7, 0, make([]byte, 4)},
	{17, 0, make([]byte, 4)},
	{17, 3, make([]byte, 6)},
	{17, 6, make([]byte, 7)},
	{15, 20, []byte{0}},
	{15, 20, []byte{1, 'a'}},
	{15, 300, []byte{0, 0}},
	{254, 0xfe05, []byte{0}},
	{252, 2, []byte{0, 0}},
	{1, 0, []byte{0}},
	{1, 0, []byte{1}},
	{2, 0, []byte{0, 0}},
	{3, 0, make([]byte, 4)},
	{8, 0, make([]byte, 8)},
	{8, 0, []byte{255, 255, 255, 255, 255, 255, 255, 255}},
	{9, 0, make([]byte, 3)},
	{13, 0, []byte{0}},
	{13, 0, []byte{100}},
	{10, 0, make([]byte, 3)},
	{11, 0, make([]byte, 3)},
	{12, 0, make([]byte, 8)},
	{18, 0, []byte{0x80, 0, 0, 0, 0}},
	{18, 6, []byte{0x80, 0, 0, 0, 0, 0, 0, 0}},
	{19, 0, []byte{0x80, 0, 0}},
	{4, 4, make([]byte, 4)},
	{5, 8, make([]byte, 8)},
	{254, 0xf701, []byte{1}},
	{254, 0xf701, []byte{0}},
	{254, 0xf702, []byte{0, 0}},
	{254, 0xf801, []byte{0}},
	{246, 0x0500, []byte{0x80, 0, 0}},
	{246, 0x0502, []byte{0x80, 0, 0}},
	{16, 0x0001, []byte{1}},
	{245, 4, []byte{2, 0, 0, 0, 4, 0}},
	{245, 4, []byte{2, 0, 0, 0, 4, 1}},
	{245, 4, []byte{5, 0, 0, 0, 0, 0, 0, 4, 0}},
	{245, 4, []byte{5, 0, 0, 0, 2, 0, 0, 4, 0}},
	{245, 4, make([]byte, 4)},
}

// C08_Constants covers values that come out alike in one row, in rows of one
// event, in later transactions and in a later stream.
func C08_Constants() {
	base := anyOffset()
	c := constants[sym.Choice("value", len(constants))]
	mkv := func() *val.Val { return &val.Val{Col: mk.Col{Type: c.typ, Meta: c.meta}, Raw: c.raw} }
	h := newHist(mk.Mysql56(1), "bin.000001", base)
	h.v2 = true
	t, cols := h.tableFor("db", "tbl", mkv(), mkv())
	r := func() row { return row{{v: mkv()}, {v: mkv()}} }
	h.begin()
	h.change(gobinlog.StatementInsert, t, cols, nil, []row{r(), {{v: mkv()}, {null: true}}, r()})
	h.change(gobinlog.StatementUpdate, t, cols, []row{r()}, []row{r()})
	h.xid()
	h.change(gobinlog.StatementDelete, t, cols, []row{r()}, nil)
	k := &keeper{}
	s := newStreamer(5, h.m, "bin.000001", base)
	var first []byte
	for round := 1; round <= 2; round++ {
		s.SetBinlogPosition(gobinlog.Position{Filename: "bin.000001", Offset: int64(base)})
		current = &master{sessions: []*session{{serve: h.serve, end: endEOF}}}
		err := s.Stream(context.Background(), func(t *gobinlog.Transaction) error {
			for _, e := range t.Events {
				for _, rs := range [][]*gobinlog.RowData{e.RowIdentifies, e.RowValues} {
					for i, r := range rs {
						for j, c := range r.Columns {
							if i == 1 && j == 1 {
								sym.Assert(c.Data == nil, "a NULL column has data")
								continue
							}
							if first == nil {
								first = copyOf(c.Data)
							}
							sym.Assert(c.Data != nil && len(c.Data) == len(first) && sym.Eq(c.Data, first),
								"a value is delivered differently after another one was overwritten")
						}
					}
				}
			}
			k.handle(t)
			k.scribble(len(k.got) - 1)
			return nil
		})
		sym.Assert(err == nil, "streaming a well-formed binlog fails")
		sym.Assert(len(k.got) == round*len(h.exp), "the number of transactions is wrong")
	}
	k.check()
	sym.Reach("constants")
	sym.Expect("constants")
}

// filled is n bytes, the ends of them symbolic.
func filled(n int, b byte) []byte {
	f := make([]byte, n)
	for i := range f {
		f[i] = b
	}
	copy(f, sym.Bytes("head", 2))
	copy(f[n-2:], sym.Bytes("tail", 2))
	return f
}

// C08_Sizes covers packets around the size of the driver's buffer, of values
// and of statements, followed by small and by large ones.
func C08_Sizes() {
	base := anyOffset()
	h := newHist(mk.Mysql56(0), "bin.000001", base)
	h.v2 = true
	blob := func(n int, b byte) *val.Val {
		f := filled(n, b)
		return &val.Val{Col: mk.Col{Type: 252, Meta: 2}, Raw: mk.Cat(mk.LE(uint64(n), 2), f), Text: f}
	}
	t, cols := h.tableFor("db", "tbl", val.Str(20, 1), blob(4, 0))
	// payload: 1 + 19 header + 8 id and flags + 2 extra + 1 columns + 1 present
	// + 1 NULL + 4 + 2
	const around = 4096 - 39
	sizes := []int{around - 8, around - 5, around - 4, around - 3, around - 1, around, around + 1, around + 4, 2*4096 - 39, 3 * 4096}
	if sym.Thorough() {
		sizes = nil
		for d := -14; d <= 6; d++ {
			sizes = append(sizes, around+d)
		}
		sizes = append(sizes, 2*4096-43, 2*4096-39, 2*4096-38, 3*4096, 20000, 65000)
	}
	n1 := sizes[sym.Choice("size", len(sizes))]
	n2 := []int{40, around, 5000}[sym.Choice("next size", 3)]
	h.change(gobinlog.StatementInsert, t, cols, nil, []row{{{v: val.Str(20, 3)}, {v: blob(n1, 'x')}}})
	h.statement(gobinlog.StatementCreate, "db", mk.Cat([]byte("create /*"), filled(n2, 'y'), []byte("*/ table t (a int)")))
	h.change(gobinlog.StatementInsert, t, cols, nil, []row{{{v: val.Str(20, 3)}, {v: blob(n2, 'z')}}})
	h.statement(gobinlog.StatementCreate, "db", mk.Cat([]byte("create /*"), filled(n1, 'w'), []byte("*/ table t (a int)")))
	h.change(gobinlog.StatementDelete, t, cols, []row{{{v: val.Str(20, 3)}, {v: blob(40, 'v')}}}, nil)
	k := &keeper{}
	ses := &session{serve: h.serve, end: endEOF}
	ses.pace(sym.Choice("pace", 3))
	s := newStreamer(5, h.m, "bin.000001", base, ses)
	err := s.Stream(context.Background(), func(t *gobinlog.Transaction) error {
		if len(k.got) >= len(h.exp) {
			sym.Fail("more transactions are delivered than the binlog holds")
		}
		h.exp[len(k.got)].same(t)
		return k.handle(t)
	})
	sym.Assert(err == nil, "streaming a well-formed binlog fails")
	sym.Assert(len(k.got) == len(h.exp), "the number of transactions is wrong")
	k.check()
	sym.Reach("sizes")
	sym.Expect("sizes")
}

// C08_Schedules covers a consumer that reads and overwrites what was delivered
// while the stream goes on, under every schedule within the preemption bound.
func C08_Schedules() {
	sym.Races()
	base := anyOffset()
	h := newHist(mk.Mysql56(0), "bin.000001", base)
	str := func() *val.Val { return val.Str(20, 2) }
	kinds := []func() *val.Val{str, val.Int, func() *val.Val { return val.ZeroStamp() }}
	mkv := kinds[sym.Choice("type", len(kinds))]
	t, cols := h.tableFor("db", "tbl", mkv())
	h.change(gobinlog.StatementInsert, t, cols, nil, []row{{{v: mkv()}}})
	h.change(gobinlog.StatementInsert, t, cols, nil, []row{{{v: mkv()}}})
	ses := &session{serve: h.serve, end: endEOF, explore: 1, lockstep: sym.Choice("lock step", 2) == 1}
	if sym.Thorough() {
		ses.explore = 2
	}
	s := newStreamer(5, h.m, "bin.000001", base, ses)
	queue := make(chan *gobinlog.Transaction, 4)
	done := make(chan *keeper)
	go func() {
		k := &keeper{}
		for t := range queue {
			n := len(k.got)
			if n >= len(h.exp) {
				sym.Fail("more transactions are delivered than the binlog holds")
			}
			h.exp[n].same(t)
			k.handle(t)
			sym.Yield()
			k.check()
			k.scribble(n)
		}
		done <- k
	}()
	err := s.Stream(context.Background(), func(t *gobinlog.Transaction) error {
		queue <- t
		return nil
	})
	sym.Assert(err == nil, "streaming a well-formed binlog fails")
	close(queue)
	k := <-done
	sym.Assert(len(k.got) == len(h.exp), "the number of transactions is wrong")
	k.check()
	sym.Reach("concurrent")
	sym.Expect("concurrent")
}
