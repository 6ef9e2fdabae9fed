package e2e

import (
	"context"
	"errors"

	gobinlog "github.com/Breeze0806/gobinlog"

	"verifh/mk"
	"verifh/sym"
	"verifh/val"
)

// layout is a definition of a table.
type layout struct {
	t    *table
	cols []mk.Col
	mk   []func() *val.Val
}

// tiny is a TINYINT whose text tells whether it was taken as unsigned.
func tiny(unsigned bool) *val.Val {
	x := sym.Int("tiny", 200, 245)
	v := &val.Val{Col: mk.Col{Type: 1}, Unsigned: unsigned, Raw: mk.LE(uint64(x), 1)}
	if unsigned {
		v.Text = val.Digits(x, 3)
	} else {
		v.Text = mk.Cat([]byte("-"), val.Digits(256-x, 2))
	}
	return v
}

func short(unsigned bool) *val.Val {
	x := sym.Int("short", 40000, 55000)
	v := &val.Val{Col: mk.Col{Type: 2}, Unsigned: unsigned, Raw: mk.LE(uint64(x), 2)}
	if unsigned {
		v.Text = val.Digits(x, 5)
	} else {
		v.Text = mk.Cat([]byte("-"), val.Digits(65536-x, 5))
	}
	return v
}

// layouts are the definitions a table id can be announced with: two tables of
// two columns, one of them in three definitions that differ in the types and
// in the metadata, and one of three columns. The second table shares with the
// first its database or its name.
func layouts(h *hist, database bool) []*layout {
	d2, n2 := "db", "two"
	if database {
		d2, n2 = "other", "one"
	}
	one := h.m.add("db", "one", &column{name: "a", unsigned: true}, &column{name: "b", unsigned: true})
	two := h.m.add(d2, n2, &column{name: "c"}, &column{name: "b"})
	three := h.m.add("db", "three", &column{name: "a"}, &column{name: "b", unsigned: true}, &column{name: "c", unsigned: true})
	tn := func(u bool) func() *val.Val { return func() *val.Val { return tiny(u) } }
	st := func(max, n int) func() *val.Val { return func() *val.Val { return val.Str(max, n) } }
	ls := []*layout{
		{t: one, mk: []func() *val.Val{tn(true), st(20, 2)}},
		{t: one, mk: []func() *val.Val{st(20, 1), tn(true)}},
		{t: one, mk: []func() *val.Val{tn(true), st(300, 2)}},
		{t: two, mk: []func() *val.Val{tn(false), st(20, 2)}},
		{t: three, mk: []func() *val.Val{func() *val.Val { return short(false) }, st(300, 1), tn(true)}},
	}
	for _, l := range ls {
		for _, f := range l.mk {
			c := f().Col
			c.Null = true
			l.cols = append(l.cols, c)
		}
	}
	return ls
}

func (l *layout) row() row {
	var r row
	for _, f := range l.mk {
		r = append(r, cellv{v: f()})
	}
	return r
}

// log logs a change of one row.
func (l *layout) log(h *hist, kind gobinlog.StatementType, id uint64) {
	b, a := images3(kind)
	var before, after []row
	if b {
		before = []row{l.row()}
	}
	if a {
		after = []row{l.row()}
	}
	h.rows(kind, l.t, id, l.cols, before, after, nil)
}

// C15_Attribution covers every sequence of table maps and changes over two
// table ids, with re-announcements of other tables and definitions.
func C15_Attribution() {
	base := anyOffset()
	c := configOf(4*sym.Choice("short ids", 2) + 3)
	h := newHist(c.format(), "bin.000001", base)
	h.v2 = c.v2
	ls := layouts(h, c.short)
	mask := uint64(1)<<48 - 1
	if c.short {
		mask = 1<<32 - 1
	}
	ids := []uint64{sym.U64("id") & mask, sym.U64("id") & mask}
	sym.Assume(ids[0] != ids[1])
	cur := make([]*layout, 2)
	ops := 4
	if sym.Thorough() {
		ops = 5
	}
	h.begin()
	n := 0
	split := 1 + sym.Choice("commit", 2)*2
	for i := 0; i < ops; i++ {
		// the ids are alike: the first announced is the first one
		k := 5
		if i > 0 {
			k = 2*5 + 2
		}
		op := sym.Choice("op", k)
		switch {
		case op < 10:
			j := op / 5
			cur[j] = ls[op%5]
			if i == 0 && j != 0 {
				sym.Fail("harness: first id")
			}
			var extra []byte
			if m := (i + op) % 3; m > 0 {
				extra = sym.Bytes("optional metadata", []int{0, 5, 30}[m])
			}
			h.tableMap(cur[j].t, ids[j], cur[j].cols, extra)
		default:
			j := op - 10
			if cur[j] == nil {
				sym.Assume(false)
			}
			cur[j].log(h, kinds3[n%3], ids[j])
			n++
		}
		if i == split {
			h.xid()
			h.begin()
		}
	}
	for j, l := range cur {
		if l != nil {
			l.log(h, kinds3[(n+j)%3], ids[j])
		}
	}
	h.xid()
	h.run(base)
	sym.Reach("all")
	sym.Expect("all")
}

// C15_Files covers ids that are given to other tables in a later file, after
// a rotation or a restart of the master.
func C15_Files() {
	base := anyOffset()
	c := configOf(4*sym.Choice("short ids", 2) + 3)
	h := newHist(c.format(), "bin.000001", base)
	h.v2 = c.v2
	ls := layouts(h, c.short)
	id := uint64(sym.U32("id"))
	a, b := ls[sym.Choice("first", 5)], ls[sym.Choice("second", 5)]
	for i, l := range []*layout{a, b} {
		h.begin()
		h.tableMap(l.t, id, l.cols, nil)
		l.log(h, kinds3[i], id)
		h.xid()
		if i == 0 {
			if sym.Choice("restart", 2) == 1 {
				h.restart("bin.000002", true)
			} else {
				h.rotate("bin.000002")
			}
		}
	}
	h.run(base)
	sym.Reach("all")
	sym.Expect("all")
}

// tinies is a table map of n TINYINT columns.
func tinies(n int) []mk.Col {
	cols := make([]mk.Col, n)
	for i := range cols {
		cols[i] = mk.Col{Type: 1, Null: true}
	}
	return cols
}

func named(n int, unsigned func(i int) bool) []*column {
	var cs []*column
	for i := 0; i < n; i++ {
		cs = append(cs, &column{name: string([]rune{'c', rune('0' + i/100), rune('0' + i/10%10), rune('0' + i%10)}), unsigned: unsigned(i)})
	}
	return cs
}

// fixed is a TINYINT with a fixed value.
func fixed(i int, unsigned bool) *val.Val {
	x := 200 + i%46
	v := &val.Val{Col: mk.Col{Type: 1}, Unsigned: unsigned, Raw: []byte{byte(x)}}
	if unsigned {
		v.Text = val.Digits(x, 3)
	} else {
		v.Text = mk.Cat([]byte("-"), val.Digits(256-x, 2))
	}
	return v
}

// C15_Wide covers names and signedness by ordinal position in wide tables.
func C15_Wide() {
	n := []int{1, 8, 9, 64, 250, 251, 252, 253, 300, 600}[sym.Choice("columns", 10)]
	op := sym.Choice("change", 3)
	m := sym.Choice("pattern", 3)
	base := anyOffset()
	h := newHist(mk.Mysql56(byte(n&1)), "bin.000001", base)
	uns := func(i int) bool { return (i*7+i/8+m)%3 == 0 }
	t := h.m.add("db", "wide", named(n, uns)...)
	cols := tinies(n)
	line := func(k int) row {
		var r row
		for i := 0; i < n; i++ {
			c := cellv{}
			switch {
			case m == 1 && i%(5+k) == 2:
				c.null = true
			case m == 2 && i%3 == 1:
				c.absent = true
			case i == n-1 || i == 0:
				c.v = tiny(uns(i))
			default:
				c.v = fixed(i+k, uns(i))
			}
			r = append(r, c)
		}
		return r
	}
	b, a := images3(kinds3[op])
	var before, after []row
	if b {
		before = []row{line(0)}
	}
	if a {
		after = []row{line(1)}
	}
	h.begin()
	h.tableMap(t, 5, cols, sym.Bytes("optional metadata", 10*m))
	h.rows(kinds3[op], t, 5, cols, before, after, nil)
	h.xid()
	h.run(base)
	sym.Reach("wide")
	sym.Expect("wide")
}

// C15_Columns covers a mapper that knows another number of columns than the
// table map announces: for a new id, for an id announced before for another
// table, and for the table whose id was announced with the right number.
func C15_Columns() {
	base := anyOffset()
	h := newHist(mk.Mysql56(byte(sym.Choice("checksum", 2))), "bin.000001", base)
	n := []int{1, 2, 3, 4, 250, 251, 252, 300}[sym.Choice("columns", 8)]
	k := []int{0, 1, 2, 3, 4, 249, 250, 251, 252, 253, 299, 301, n - 1, n + 1}[sym.Choice("mapper columns", 14)]
	if k == n || n > 4 && k < 4 && k > 0 || n < 200 && k > 200 {
		sym.Assume(false)
	}
	no := func(int) bool { return false }
	bad := h.m.add("db", "bad", named(k, no)...)
	good := h.m.add("db", "good", named(2, no)...)
	line := func(n int) row {
		var r row
		for i := 0; i < n; i++ {
			r = append(r, cellv{v: fixed(i, false)})
		}
		return r
	}
	h.begin()
	h.tableMap(good, 5, tinies(2), nil)
	h.rows(gobinlog.StatementInsert, good, 5, tinies(2), nil, []row{line(2)}, nil)
	h.xid()
	want := len(h.exp)
	id := uint64(5 + sym.Choice("other id", 2))
	h.begin()
	if k > 0 && sym.Choice("announced before", 2) == 1 {
		h.tableMap(bad, id, tinies(k), nil)
		h.rows(gobinlog.StatementInsert, bad, id, tinies(k), nil, []row{line(k)}, nil)
	}
	op := sym.Choice("change", 3)
	b, a := images3(kinds3[op])
	var before, after []row
	if b {
		before = []row{line(n)}
	}
	if a {
		after = []row{line(n)}
	}
	h.tableMap(bad, id, tinies(n), nil)
	h.rows(kinds3[op], bad, id, tinies(n), before, after, nil)
	h.xid()
	got := &collect{}
	ses := &session{serve: h.serve, end: endEOF}
	s := newStreamer(77, h.m, "bin.000001", base, ses)
	err := s.Stream(context.Background(), got.handle)
	sym.Assert(err != nil, "a mapper table with another number of columns than the table map is not rejected")
	exactly(got.trans, h.exp[:want])
	sym.Reach("rejected")
	sym.Expect("rejected")
}

// asker is a mapper that knows two tables and notes what it is asked.
type asker struct {
	ts    []*table
	asked []gobinlog.MysqlTableName
}

func (a *asker) MysqlTable(name gobinlog.MysqlTableName) (gobinlog.MysqlTable, error) {
	a.asked = append(a.asked, name)
	for _, t := range a.ts {
		if t.name == name {
			return t, nil
		}
	}
	return nil, errors.New("unknown table")
}

// C15_Asked covers arbitrary names: the mapper is asked for exactly the tables
// announced, and changes carry the name of the table.
func C15_Asked() {
	base := anyOffset()
	h := newHist(mk.Mysql56(byte(sym.Choice("checksum", 2))), "bin.000001", base)
	lens := []int{1, 2, 64, 255}
	nd, nt := lens[sym.Choice("database length", 4)], lens[sym.Choice("table length", 4)]
	m := &asker{}
	mkName := func(nd, nt int) gobinlog.MysqlTableName {
		return gobinlog.MysqlTableName{DbName: string(sym.Bytes("database", nd)), TableName: string(sym.Bytes("table", nt))}
	}
	m.ts = []*table{
		{name: mkName(nd, nt), cols: []gobinlog.MysqlColumn{&column{name: "a"}}},
		{name: mkName(nt, nd), cols: []gobinlog.MysqlColumn{&column{name: "b", unsigned: true}}},
	}
	if nd == nt {
		sym.Assume(m.ts[0].name != m.ts[1].name)
	}
	cols := tinies(1)
	h.begin()
	for i, t := range m.ts {
		h.tableMap(t, uint64(20+i), cols, nil)
	}
	for i, t := range m.ts {
		h.rows(gobinlog.StatementInsert, t, uint64(20+i), cols, nil, []row{{{v: tiny(i == 1)}}}, nil)
	}
	h.xid()
	got := &collect{}
	current = &master{sessions: []*session{{serve: h.serve, end: endEOF}}}
	s, err := gobinlog.NewStreamer(dsn, 77, m)
	if err != nil {
		sym.Fail("NewStreamer fails")
	}
	s.SetBinlogPosition(gobinlog.Position{Filename: "bin.000001", Offset: int64(base)})
	err = s.Stream(context.Background(), got.handle)
	sym.Assert(err == nil, "streaming a well-formed binlog fails")
	exactly(got.trans, h.exp)
	for i, t := range m.ts {
		n := 0
		for _, a := range m.asked {
			if a == t.name {
				n++
			}
		}
		if n == 0 {
			sym.Fail("the mapper is not asked for a table")
		}
		if i == 0 {
			sym.Assert(n < len(m.asked), "the mapper is asked for one table only")
		}
	}
	sym.Reach("asked")
	sym.Expect("asked")
}

// C15_Altered covers tables whose definition changes, so that the mapper
// answers differently from then on: the table map that follows counts, under
// the same id and under another one.
func C15_Altered() {
	base := anyOffset()
	c := configOf(4*sym.Choice("short ids", 2) + 3)
	h := newHist(c.format(), "bin.000001", base)
	h.v2 = c.v2
	id := uint64(sym.U32("id"))
	name := gobinlog.MysqlTableName{DbName: "db", TableName: "tbl"}
	def := func(k int) *layout {
		u := k%2 == 1
		l := &layout{t: &table{name: name}}
		add := func(n string, f func() *val.Val) {
			l.t.cols = append(l.t.cols, &column{name: n, unsigned: u})
			l.mk = append(l.mk, f)
			c := f().Col
			c.Null = true
			l.cols = append(l.cols, c)
		}
		tn := func() *val.Val { return tiny(u) }
		st := func() *val.Val { return val.Str(20, 2) }
		switch k {
		case 0:
			add("a", tn)
		case 1:
			add("a", tn)
			add("b", st)
		case 2:
			add("b", st)
			add("a", tn)
		case 3:
			add("c", tn)
			add("a", tn)
			add("b", st)
		default:
			add("z", func() *val.Val { return short(u) })
		}
		return l
	}
	k := []int{sym.Choice("definition", 5), sym.Choice("definition", 5), sym.Choice("definition", 5)}
	sym.Assume(sym.And(k[0] != k[1], k[1] != k[2]))
	other := sym.Choice("other id", 2) == 1
	var defs []*layout
	var from []int
	for i := range k {
		l := def(k[i])
		defs = append(defs, l)
		if other && i == 1 {
			id++
		}
		h.begin()
		from = append(from, h.packets(base))
		h.tableMap(l.t, id, l.cols, nil)
		l.log(h, kinds3[i], id)
		h.xid()
	}
	h.m.tables = []*table{defs[0].t}
	got := &collect{}
	ses := &session{serve: h.serve, end: endEOF, lockstep: true}
	ses.onPacket = func(i int) {
		for j := range from {
			if i == from[j] {
				sym.Quiesce()
				h.m.tables[0] = defs[j].t
			}
		}
	}
	s := newStreamer(77, h.m, "bin.000001", base, ses)
	err := s.Stream(context.Background(), got.handle)
	sym.Assert(err == nil, "streaming a well-formed binlog fails")
	exactly(got.trans, h.exp)
	sym.Reach("altered")
	sym.Expect("altered")
}
