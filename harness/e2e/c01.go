package e2e

import (
	"context"

	gobinlog "github.com/Breeze0806/gobinlog"

	"verifh/mk"
	"verifh/sym"
	"verifh/val"
)

// config is how the master writes its binlog.
type config struct {
	alg   byte
	v2    bool
	short bool // 4-byte table ids
	gtid  int  // 0: none, 1: GTID events, 2: anonymous GTID events
}

func configOf(n int) config {
	return config{alg: byte(n & 1), v2: n&2 != 0, short: n&4 != 0, gtid: n >> 3 % 3}
}

const configs = 24

func (c config) format() *mk.Format {
	f := mk.Mysql56(c.alg)
	if c.short {
		f.Sizes = append([]byte{}, f.Sizes...)
		for _, t := range []byte{mk.TableMapEv, mk.WriteV1, mk.UpdateV1, mk.DeleteV1, mk.WriteV2, mk.UpdateV2, mk.DeleteV2} {
			f.Sizes[t-1] = 6
		}
	}
	return f
}

// anyOffset is a start offset that leaves room for the history.
func anyOffset() uint32 {
	base := sym.U32("offset")
	sym.Assume(sym.And(base >= 4, base < 1<<32-200000))
	return base
}

// gtid logs what precedes a transaction.
func (h *hist) gtid(c config) {
	switch c.gtid {
	case 1:
		h.ev(mk.GtidEv, mk.Cat([]byte{1}, sym.Bytes("sid", 16), mk.LE(sym.U64("gno"), 8)))
	case 2:
		h.ev(mk.AnonGtidEv, mk.Cat([]byte{1}, make([]byte, 16), make([]byte, 8)))
	}
}

// run streams the whole binlog from its first boundary.
func (h *hist) run(base uint32) *collect {
	return h.runFrom("bin.000001", base, h.exp)
}

func (h *hist) runFrom(file string, off uint32, want []*tx) *collect {
	got := &collect{}
	ses := &session{serve: h.serve, end: endEOF}
	s := newStreamer(77, h.m, file, off, ses)
	err := s.Stream(context.Background(), got.handle)
	sym.Assert(err == nil, "streaming a well-formed binlog fails")
	exactly(got.trans, want)
	return got
}

var kinds3 = []gobinlog.StatementType{gobinlog.StatementInsert, gobinlog.StatementUpdate, gobinlog.StatementDelete}

// images3 says which images a kind of change has.
func images3(k gobinlog.StatementType) (before, after bool) {
	return k != gobinlog.StatementInsert, k != gobinlog.StatementDelete
}

// cols makes a table with the columns of the row.
func (h *hist) tableFor(db, name string, vs ...*val.Val) (*table, []mk.Col) {
	var cs []*column
	var mc []mk.Col
	for i, v := range vs {
		cs = append(cs, &column{name: "col" + string(rune('a'+i)), unsigned: v.Unsigned})
		c := v.Col
		c.Null = true
		mc = append(mc, c)
	}
	return h.m.add(db, name, cs...), mc
}

func rowOf(vs ...*val.Val) row {
	var r row
	for _, v := range vs {
		r = append(r, cellv{v: v})
	}
	return r
}

// C01_Types streams a change of a column of every type: one insert, update or
// delete of two rows with the column between two others.
func C01_Types() {
	kind := sym.Choice("type", len(val.Kinds))
	op := sym.Choice("change", 3)
	c := configOf((kind*3 + op*7) % configs)
	if sym.Thorough() {
		c = configOf(sym.Choice("configuration", configs))
	}
	base := anyOffset()
	h := newHist(c.format(), "bin.000001", base)
	h.v2, h.times, h.short = c.v2, true, c.short
	v1 := val.Kinds[kind]()
	i, s := val.Int(), val.Str(20, 2)
	t, cols := h.tableFor("db", "tbl", i, v1, s)
	r1 := rowOf(i, v1, s)
	r2 := row{{v: s2i()}, {null: true}, {v: val.Str(20, 1)}}
	k := kinds3[op]
	var before, after []row
	switch k {
	case gobinlog.StatementInsert:
		after = []row{r1, r2}
	case gobinlog.StatementDelete:
		before = []row{r2, r1}
	default:
		before, after = []row{r1, r2}, []row{r2, r1}
	}
	h.gtid(c)
	h.begin()
	h.change(k, t, cols, before, after)
	h.xid()
	h.run(base)
	sym.Reach([]string{"insert", "update", "delete"}[op])
	sym.Expect("insert", "update", "delete")
}

func s2i() *val.Val { return val.Int() }

// C01_Config streams two transactions over two tables in every configuration.
func C01_Config() {
	c := configOf(sym.Choice("configuration", configs))
	base := anyOffset()
	h := newHist(c.format(), "bin.000001", base)
	h.v2, h.times, h.short = c.v2, true, c.short
	h.extra = [][]byte{nil, sym.Bytes("extra data", 9), sym.Bytes("extra data", 300)}[sym.Choice("extra data length", 3)]
	var ts []*table
	var cs [][]mk.Col
	for i := 0; i < 2; i++ {
		a, b := val.Int(), val.Str(300, 3)
		t, cols := h.tableFor("db", []string{"one", "two"}[i], a, b)
		ts, cs = append(ts, t), append(cs, cols)
	}
	line := func() row { return rowOf(val.Int(), val.Str(300, 3)) }
	for n := 0; n < 2; n++ {
		h.gtid(c)
		h.begin()
		for i := range ts {
			k := kinds3[(sym.Choice("change", 3)+i)%3]
			b, a := images3(k)
			var before, after []row
			if b {
				before = []row{line(), line()}
			}
			if a {
				after = []row{line(), line()}
			}
			h.change(k, ts[i], cs[i], before, after)
		}
		if n == 0 {
			h.xid()
		} else {
			h.commit()
		}
	}
	h.run(base)
	sym.Reach("all")
	sym.Expect("all")
}

// cells draws the state of every column of a row: absent as the event says,
// else NULL or a value.
func cells(absent []bool) row {
	var r row
	for i, a := range absent {
		c := cellv{absent: a}
		if !a {
			c.null = sym.Choice("null", 2) == 1
		}
		if !a && !c.null {
			if i%2 == 0 {
				c.v = val.Int()
			} else {
				c.v = val.Str(20, 2)
			}
		}
		r = append(r, c)
	}
	return r
}

func absence(n int) []bool {
	a := make([]bool, n)
	for i := range a {
		a[i] = sym.Choice("absent", 2) == 1
	}
	return a
}

func isPresent(a []bool) bool {
	for _, x := range a {
		if !x {
			return true
		}
	}
	return false
}

// intStr is a table of alternating INT and VARCHAR columns.
func (h *hist) intStr(n int, db, name string) (*table, []mk.Col) {
	var cs []*column
	var mc []mk.Col
	for i := 0; i < n; i++ {
		cs = append(cs, &column{name: "col" + string(rune('a'+i))})
		c := mk.Col{Type: 3, Null: true}
		if i%2 == 1 {
			c = mk.Col{Type: 15, Meta: 20, Null: i%4 == 1}
		}
		mc = append(mc, c)
	}
	return h.m.add(db, name, cs...), mc
}

// C01_Images covers every NULL and absent-column pattern of a change of one
// row (two rows for inserts and deletes) of three columns.
func C01_Images() {
	op := sym.Choice("change", 3)
	k := kinds3[op]
	c := configOf(op * 5)
	base := anyOffset()
	h := newHist(c.format(), "bin.000001", base)
	h.v2, h.short = op == 1, c.short
	n := 3
	t, cols := h.intStr(n, "db", "tbl")
	rows := 2
	if op == 1 && !sym.Thorough() {
		rows = 1
	}
	var before, after []row
	ba, aa := absence(n), []bool(nil)
	sym.Assume(isPresent(ba))
	if op == 1 {
		aa = absence(n)
		sym.Assume(isPresent(aa))
	}
	for i := 0; i < rows; i++ {
		r := cells(ba)
		switch k {
		case gobinlog.StatementInsert:
			after = append(after, r)
		case gobinlog.StatementDelete:
			before = append(before, r)
		default:
			before = append(before, r)
			after = append(after, cells(aa))
		}
	}
	h.begin()
	h.change(k, t, cols, before, after)
	h.xid()
	h.run(base)
	sym.Reach([]string{"insert", "update", "delete"}[op])
	sym.Expect("insert", "update", "delete")
}

// C01_Wide covers tables wider than a bitmap byte with an absent and a NULL
// column at every pair of places.
func C01_Wide() {
	widths := []int{9, 17}
	n := widths[sym.Choice("width", len(widths))]
	k := kinds3[sym.Choice("change", 3)]
	i, j := sym.Choice("absent", n), sym.Choice("null", n)
	if !sym.Thorough() && n > 9 {
		sym.Assume(i%4 == 0 && j%3 == 1)
	}
	h := newHist(mk.Mysql56(1), "bin.000001", 4)
	t, cols := h.intStr(n, "db", "tbl")
	mkRow := func(i, j int) row {
		var r row
		for x := 0; x < n; x++ {
			switch {
			case x == i:
				r = append(r, cellv{absent: true})
			case x == j:
				r = append(r, cellv{null: true})
			case x%2 == 0:
				r = append(r, cellv{v: val.Int()})
			default:
				r = append(r, cellv{v: val.Str(20, 1)})
			}
		}
		return r
	}
	b, a := images3(k)
	var before, after []row
	if b {
		before = []row{mkRow(i, j)}
	}
	if a {
		after = []row{mkRow(j, i)}
	}
	h.begin()
	h.change(k, t, cols, before, after)
	h.xid()
	h.run(4)
	sym.Reach("wide")
	sym.Expect("wide")
}

// C01_History covers transactions of several changes of several tables.
func C01_History() {
	tn, sn := 2, 2
	if sym.Thorough() {
		tn = 3
	}
	base := anyOffset()
	h := newHist(mk.Mysql56(1), "bin.000001", base)
	h.times = true
	var ts []*table
	var cs [][]mk.Col
	for i := 0; i < 2; i++ {
		t, cols := h.intStr(2+i, "db", []string{"one", "two"}[i])
		ts, cs = append(ts, t), append(cs, cols)
	}
	line := func(n int) row { return cells0(n) }
	maps := sym.Choice("table maps", 2) == 1 // all maps first, as for multi-table statements
	for n := 0; n < tn; n++ {
		h.begin()
		if maps {
			h.tableMap(ts[1], 9, cs[1], nil)
			h.tableMap(ts[0], 8, cs[0], nil)
		}
		for s := 0; s < sn; s++ {
			if n == 2 && s == 1 {
				continue
			}
			x := sym.Choice("change", 6)
			k, i := kinds3[x%3], x/3
			b, a := images3(k)
			var before, after []row
			for r := 0; r <= s; r++ {
				if b {
					before = append(before, line(2+i))
				}
				if a {
					after = append(after, line(2+i))
				}
			}
			if maps {
				h.rows(k, ts[i], uint64(8+i), cs[i], before, after, nil)
			} else {
				h.change(k, ts[i], cs[i], before, after)
			}
		}
		h.xid()
	}
	h.run(base)
	sym.Reach("all")
	sym.Expect("all")
}

func cells0(n int) row {
	var r row
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			r = append(r, cellv{v: val.Int()})
		} else {
			r = append(r, cellv{v: val.Str(20, 1)})
		}
	}
	return r
}

// statements are the SQL statements the library delivers.
var statements = []struct {
	word string
	kind gobinlog.StatementType
}{
	{"create", gobinlog.StatementCreate},
	{"ALTER", gobinlog.StatementAlter},
	{"Drop", gobinlog.StatementDrop},
	{"renamE", gobinlog.StatementRename},
	{"TRUNCATE", gobinlog.StatementTruncate},
	{"set", gobinlog.StatementSet},
	{"Insert", gobinlog.StatementInsert},
	{"UPDATE", gobinlog.StatementUpdate},
	{"delete", gobinlog.StatementDelete},
}

// C01_Statements covers SQL statements with arbitrary text and database, in
// and outside a transaction, with status variables.
func C01_Statements() {
	base := anyOffset()
	alg := byte(sym.Choice("checksum", 2))
	h := newHist(mk.Mysql56(alg), "bin.000001", base)
	h.times = true
	inside := sym.Choice("inside a transaction", 2) == 1
	if inside {
		h.begin()
	}
	st := statements[sym.Choice("statement", len(statements))]
	sep := []string{" ", "\t", "\n", "\r", ""}[sym.Choice("separator", 5)]
	sql := mk.Cat([]byte(st.word), []byte(sep))
	if sep != "" {
		sql = append(sql, sym.Bytes("tail", []int{0, 1, 30, 300}[sym.Choice("tail length", 4)])...)
	}
	db := string(sym.Bytes("database", []int{0, 1, 64}[sym.Choice("database length", 3)]))
	h.statement(st.kind, db, sql)
	if inside {
		h.xid()
	}
	h.statement(gobinlog.StatementDrop, "db", []byte("drop table x"))
	h.run(base)
	sym.Reach("all")
	sym.Expect("all")
}

// C01_Formats covers binlogs whose files are written in different formats: the
// checksum or the version of the master was changed in between.
func C01_Formats() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	base := anyOffset()
	h := formats(n, base)
	h.run(base)
	sym.Reach("all")
	sym.Expect("all")
}

// formats logs a transaction and a change in each of n files of any formats.
func formats(n int, base uint32) *hist {
	var h *hist
	var w *writer
	for i := 0; i < n; i++ {
		c := configOf(sym.Choice("configuration", 8))
		if i == 0 {
			h = newHist(c.format(), "bin.000001", base)
			h.short = true // in some file
			w = newWriter(h)
		} else {
			next := c.format()
			name := "bin.00000" + string(rune('1'+i))
			if sym.Choice("switch", 2) == 0 {
				h.rotateTo(name, next)
			} else {
				h.ev(mk.StopEv, nil)
				h.f = next
				h.restart(name, false)
			}
		}
		h.v2 = c.v2
		w.unit(unitXid)
		w.unit(unitRows)
	}
	return h
}

// C01_Long covers large histories: many changes in a transaction, many rows in
// a change, many tables, many transactions.
func C01_Long() {
	what := sym.Choice("what", 4)
	n := []int{9, 10, 11, 64, 129, 300, 1025, 2050}[sym.Choice("number", 8)]
	if what == 2 && n > 300 {
		n = 700
	}
	base := anyOffset()
	h := newHist(mk.Mysql56(1), "bin.000001", base)
	t, cols := h.intStr(2, "db", "tbl")
	line := func() row { return rowOf(fixedInt(), val.Str(20, 1)) }
	switch what {
	case 0: // changes of one transaction
		h.begin()
		h.tableMap(t, 9, cols, nil)
		for i := 0; i < n; i++ {
			h.rows(gobinlog.StatementInsert, t, 9, cols, nil, []row{line()}, nil)
		}
		h.xid()
	case 1: // rows of one change
		h.begin()
		for _, k := range kinds3 {
			b, a := images3(k)
			var before, after []row
			for i := 0; i < n; i++ {
				if b {
					before = append(before, line())
				}
				if a {
					after = append(after, line())
				}
			}
			h.change(k, t, cols, before, after)
		}
		h.xid()
	case 2: // tables
		h.begin()
		var ts []*table
		for i := 0; i < n; i++ {
			t, _ := h.intStr(2, "db", "t"+string(rune('a'+i/676))+string(rune('a'+i/26%26))+string(rune('a'+i%26)))
			ts = append(ts, t)
			h.tableMap(t, uint64(100+i), cols, nil)
		}
		for i := range ts {
			h.rows(gobinlog.StatementDelete, ts[n-1-i], uint64(100+n-1-i), cols, []row{line()}, nil, nil)
		}
		h.xid()
	default: // transactions
		for i := 0; i < n; i++ {
			if i%3 == 2 {
				h.statement(gobinlog.StatementCreate, "db", []byte("create table x (a int)"))
				continue
			}
			h.begin()
			h.change(gobinlog.StatementInsert, t, cols, nil, []row{line()})
			h.xid()
		}
	}
	h.run(base)
	sym.Reach("long")
	sym.Expect("long")
}

// fixedInt is an INT with a fixed value.
func fixedInt() *val.Val {
	return &val.Val{Col: mk.Col{Type: 3}, Raw: mk.LE(12345, 4), Text: []byte("12345")}
}

// C01_Names covers names of tables and columns of any bytes.
func C01_Names() {
	n := []int{1, 2, 64, 127, 128, 255}[sym.Choice("length", 6)]
	k := kinds3[sym.Choice("change", 3)]
	base := anyOffset()
	h := newHist(mk.Mysql56(1), "bin.000001", base)
	d := 64
	if n == 64 {
		d = 255
	}
	cols := []mk.Col{{Type: 3}, {Type: 15, Meta: 20}}
	t := h.m.add(string(sym.Bytes("database", d)), string(sym.Bytes("table", n)),
		&column{name: string(sym.Bytes("column", n))}, &column{name: string(sym.Bytes("column", 3))})
	line := func() row { return rowOf(fixedInt(), val.Str(20, 1)) }
	b, a := images3(k)
	var before, after []row
	if b {
		before = []row{line()}
	}
	if a {
		after = []row{line()}
	}
	h.begin()
	h.change(k, t, cols, before, after)
	h.xid()
	h.run(base)
	sym.Reach("names")
	sym.Expect("names")
}

// C01_Empty covers committed transactions without changes.
func C01_Empty() {
	base := anyOffset()
	h := newHist(mk.Mysql56(1), "bin.000001", base)
	h.times = true
	w := newWriter(h)
	for i := 0; i < 2; i++ {
		h.gtid(configOf(sym.Choice("gtid", 3) * 8))
		h.empty(sym.Choice("empty", empties))
		w.unit([]int{unitXid, unitRows, unitDDL}[sym.Choice("next", 3)])
	}
	h.run(base)
	sym.Reach("all")
	sym.Expect("all")
}
