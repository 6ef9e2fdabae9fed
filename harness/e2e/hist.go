package e2e

import (
	"sync/atomic"

	gobinlog "github.com/Breeze0806/gobinlog"

	"verifh/mk"
	"verifh/sym"
	"verifh/val"
)

// cellv is one column of a row image.
type cellv struct {
	absent, null bool
	v            *val.Val
}

type row []cellv

// change is an expected stream event.
type change struct {
	kind    gobinlog.StatementType
	t       *table
	cols    []mk.Col
	time    uint32
	sql     []byte
	db      string
	charset []byte
	before  []row
	after   []row
}

// tx is an expected transaction.
type tx struct {
	nowFile, nextFile string
	now, next         uint32
	time              uint32
	changes           []*change
}

type entry struct {
	start, end uint32
	raw        []byte
	// after the event: the commit boundary and the number of transactions
	posF string
	pos  uint32
	ntx  int
}

type file struct {
	name    string
	f       *mk.Format
	entries []entry
	fde     []byte // as sent when the dump starts inside the file
	first   uint32 // offset of the first event after the format description
	whole   bool   // starts with its format description
	end     uint32
}

// hist is a binlog under construction together with what the handler must
// see of it.
type hist struct {
	f       *mk.Format
	m       *mapper
	files   []*file
	cur     *file
	v2      bool
	id      uint64
	times   bool   // symbolic timestamps
	charset []byte // of the last statement
	short   bool   // table ids of 4 bytes occur
	extra   []byte // extra data of the rows events of version 2 and optional data of the table maps

	pos    uint32 // current commit boundary
	posF   string
	exp    []*tx
	opened []*change
	inTx   bool
	ids    map[string]uint64
	sent   []int // indices of the entries served, for fault injection
}

// newHist starts a history whose first event lies at the offset base.
func newHist(f *mk.Format, name string, base uint32) *hist {
	mk.Plain = false
	h := &hist{f: f, m: &mapper{}, v2: true, id: 70, ids: map[string]uint64{}}
	h.newFile(name, base)
	h.pos, h.posF = base, name
	return h
}

func (h *hist) newFile(name string, base uint32) {
	fl := &file{name: name, f: h.f}
	fl.fde = h.f.FDE(mk.Header{Time: 1500000000, Server: 1})
	fl.first, fl.end = base, base
	if base == 0 {
		fl.whole = true
		raw := h.f.FDE(mk.Header{Time: 1500000000, Server: 1, Next: 4 + uint32(len(fl.fde))})
		fl.end = 4 + uint32(len(raw))
		fl.first = fl.end
		fl.entries = append(fl.entries, entry{start: 4, end: fl.end, raw: raw, posF: name, pos: 4, ntx: len(h.exp)})
	}
	h.files = append(h.files, fl)
	h.cur = fl
}

func (h *hist) now() uint32 {
	if h.times {
		return sym.U32("timestamp")
	}
	return 1500000000 + uint32(len(h.cur.entries))
}

// ev appends an event; it returns its timestamp.
func (h *hist) ev(typ byte, body []byte) uint32 {
	t := h.now()
	n := uint32(19 + len(body))
	if h.f.Alg == 1 {
		n += 4
	}
	start := h.cur.end
	h.cur.end += n
	hd := mk.Header{Time: t, Server: 1, Next: h.cur.end}
	if h.times {
		// the server the change comes from, which may be the client's id, and
		// the flags a master sets on events of its log
		hd.Server = sym.U32("origin")
		hd.Flags = sym.U16("flags") & 0x030d
	}
	raw := h.f.Event(typ, hd, body)
	h.cur.entries = append(h.cur.entries, entry{start: start, end: h.cur.end, raw: raw, posF: h.posF, pos: h.pos, ntx: len(h.exp)})
	return t
}

// flags are the flags of a table map or rows event.
func (h *hist) flags() uint16 {
	if h.times {
		return sym.U16("flags")
	}
	return 1
}

// artificial appends an event that is not part of the file.
func (h *hist) artificial(typ byte, body []byte) {
	raw := h.f.Event(typ, mk.Header{Server: 1, Next: h.cur.end, Flags: 0}, body)
	h.cur.entries = append(h.cur.entries, entry{start: h.cur.end, end: h.cur.end, raw: raw, posF: h.posF, pos: h.pos, ntx: len(h.exp)})
}

// commitAt records that the last event commits what is open.
func (h *hist) commitAt(t uint32) {
	h.exp = append(h.exp, &tx{nowFile: h.posF, now: h.pos, nextFile: h.cur.name, next: h.cur.end, time: t, changes: h.opened})
	h.opened, h.inTx = nil, false
	h.posF, h.pos = h.cur.name, h.cur.end
	h.mark()
}

// mark notes the boundary that follows the last event.
func (h *hist) mark() {
	e := &h.cur.entries[len(h.cur.entries)-1]
	e.posF, e.pos, e.ntx = h.posF, h.pos, len(h.exp)
}

func (h *hist) query(db string, sql []byte) uint32 {
	h.charset = nil
	var vars []byte
	if h.times {
		// what MySQL 5.6 sends with every statement
		h.charset = sym.Bytes("charset", 6)
		vars = mk.Cat([]byte{0}, sym.Bytes("flags2", 4), []byte{1}, sym.Bytes("sql mode", 8), []byte{6, 3}, []byte("std"),
			[]byte{3}, sym.Bytes("auto increment", 4), []byte{4}, h.charset, []byte{5, 6}, []byte("SYSTEM"),
			[]byte{12, 1}, []byte("db\x00"), []byte{13}, sym.Bytes("microseconds", 3))
	}
	return h.ev(mk.QueryEv, mk.QueryBody(vars, db, sql))
}

func (h *hist) begin()             { h.beginText([]byte("BEGIN")) }
func (h *hist) beginText(s []byte) { h.query("db", s); h.inTx = true; h.opened = nil }
func (h *hist) xid()               { h.commitAt(h.ev(mk.XidEv, mk.Free("xid", 8))) }
func (h *hist) commit()            { h.commitText([]byte("COMMIT")) }
func (h *hist) commitText(s []byte) {
	h.commitAt(h.query("db", s))
}
func (h *hist) rollback() { h.rollbackText([]byte("ROLLBACK")) }
func (h *hist) rollbackText(s []byte) {
	h.opened = nil
	h.commitAt(h.query("db", s))
}

// statement is a statement: of its own transaction outside BEGIN...COMMIT.
func (h *hist) statement(kind gobinlog.StatementType, db string, sql []byte) {
	t := h.query(db, sql)
	h.opened = append(h.opened, &change{kind: kind, sql: sql, db: db, time: t, charset: h.charset})
	if !h.inTx {
		h.commitAt(t)
	}
}

// ignored is a statement the library does not deliver.
func (h *hist) ignored(sql []byte) { h.query("db", sql) }

// tableMap announces t under the id.
func (h *hist) tableMap(t *table, id uint64, cols []mk.Col, extra []byte) {
	body := mk.Cat(h.f.TableMapBody(id, h.flags(), t.name.DbName, t.name.TableName, cols), extra)
	h.ev(mk.TableMapEv, body)
}

func images(rows []row) (present []bool, ims []mk.Image) {
	for i, r := range rows {
		var im mk.Image
		for _, c := range r {
			if i == 0 {
				present = append(present, !c.absent)
			}
			if c.absent {
				continue
			}
			im.Null = append(im.Null, c.null)
			var raw []byte
			if c.v != nil {
				raw = c.v.Raw
			}
			im.Cells = append(im.Cells, raw)
		}
		ims = append(ims, im)
	}
	return
}

// rows logs one rows event of the kind for the table announced under id.
func (h *hist) rows(kind gobinlog.StatementType, t *table, id uint64, cols []mk.Col, before, after []row, extra []byte) {
	var typ byte
	switch kind {
	case gobinlog.StatementInsert:
		typ = mk.WriteV1
	case gobinlog.StatementUpdate:
		typ = mk.UpdateV1
	default:
		typ = mk.DeleteV1
	}
	if h.v2 {
		typ += mk.WriteV2 - mk.WriteV1
	} else {
		extra = nil
	}
	bp, bi := images(before)
	ap, ai := images(after)
	var all []mk.Image
	switch kind {
	case gobinlog.StatementInsert:
		all = ai
	case gobinlog.StatementDelete:
		all = bi
	default:
		for i := range bi {
			all = append(all, bi[i], ai[i])
		}
	}
	tm := h.ev(typ, h.f.RowsBody(typ, id, h.flags(), extra, len(cols), bp, ap, all))
	h.opened = append(h.opened, &change{kind: kind, t: t, cols: cols, time: tm, before: before, after: after})
	if !h.inTx {
		h.commitAt(tm)
	}
}

// change logs a table map and one rows event.
func (h *hist) change(kind gobinlog.StatementType, t *table, cols []mk.Col, before, after []row) {
	key := t.name.DbName + "." + t.name.TableName
	id, ok := h.ids[key]
	if !ok {
		// ids that differ only above the low bytes
		if h.short {
			h.id += 1 << 24
		} else {
			h.id += 1 << 32
		}
		id = h.id
		h.ids[key] = id
	}
	h.tableMap(t, id, cols, h.extra)
	h.rows(kind, t, id, cols, before, after, h.extra)
}

// rotate ends the file and opens the next one.
func (h *hist) rotate(name string) { h.rotateTo(name, h.f) }

// rotateTo ends the file and opens the next one in another format.
func (h *hist) rotateTo(name string, f *mk.Format) {
	h.rotateAt(name, f, 0)
}

// rotateAt ends the file and goes on at an offset of the next one, 0: at its
// beginning.
func (h *hist) rotateAt(name string, f *mk.Format, base uint32) {
	to := uint32(4)
	if base != 0 {
		to = base
	}
	h.ev(mk.RotateEv, mk.Cat(mk.LE(uint64(to), 8), []byte(name)))
	h.posF, h.pos = name, to
	h.mark()
	h.f = f
	h.newFile(name, base)
}

// empty logs a transaction that changes nothing.
func (h *hist) empty(how int) {
	h.begin()
	switch how {
	case 0:
		h.xid()
	case 1:
		h.commit()
	case 2:
		h.rollback()
	case 3:
		h.ignored([]byte("savepoint x"))
		h.xid()
	default:
		h.ev(mk.PrevGtidsEv, mk.LE(0, 8))
		h.commit()
	}
}

const empties = 5

// restart ends the file as a master that stops does and opens the next one.
func (h *hist) restart(name string, stop bool) {
	if stop {
		h.ev(mk.StopEv, nil)
	}
	h.newFile(name, 0)
	h.posF, h.pos = name, 4
	h.mark()
}

// fakeRotate names the file the master reads, as the master does first.
func (h *hist) fakeRotate(f *mk.Format, name string, off uint32) []byte {
	return f.Rotate(mk.Header{Server: 1, Flags: 0x20}, name, uint64(off))
}

// serve is what the master sends for a dump request.
func (h *hist) serve(d dump) [][]byte {
	fi, k := h.locate(d.file, d.offset)
	if k < 0 {
		sym.Fail("the dump request does not name an event boundary of the binlog")
	}
	var out [][]byte
	h.sent = nil
	add := func(b []byte, idx int) {
		out = append(out, mk.Cat([]byte{0}, b))
		h.sent = append(h.sent, idx)
	}
	n := 0
	for i := 0; i < fi; i++ {
		n += len(h.files[i].entries)
	}
	for i := fi; i < len(h.files); i++ {
		fl := h.files[i]
		off := uint32(4)
		if i == fi {
			off = d.offset
		} else if !fl.whole {
			off = fl.first
		}
		f := fl.f
		if i > fi {
			// still in the format of the file before
			f = h.files[i-1].f
		}
		add(h.fakeRotate(f, fl.name, off), -1)
		if i > fi {
			k = 0
		}
		if k > 0 || !fl.whole {
			add(fl.fde, -1)
		}
		for j := k; j < len(fl.entries); j++ {
			add(fl.entries[j].raw, n+j)
		}
		n += len(fl.entries)
	}
	return out
}

// entry is the entry of the index used in sent.
func (h *hist) entry(i int) *entry {
	for _, fl := range h.files {
		if i < len(fl.entries) {
			return &fl.entries[i]
		}
		i -= len(fl.entries)
	}
	sym.Fail("harness: no such entry")
	return nil
}

// locate finds the event that starts at the offset.
func (h *hist) locate(name string, off uint32) (int, int) {
	for i, fl := range h.files {
		if len(fl.name) != len(name) || fl.name != name {
			continue
		}
		for j, e := range fl.entries {
			if e.start == off {
				return i, j
			}
		}
		if fl.end == off {
			return i, len(fl.entries)
		}
	}
	return -1, -1
}

// ---- comparison ----

// collect is a handler that records what it is given.
type collect struct {
	trans []*gobinlog.Transaction
	n     int32
}

// count may be called while the stream runs.
func (c *collect) count() int { return int(atomic.LoadInt32(&c.n)) }

func (c *collect) handle(t *gobinlog.Transaction) error {
	c.trans = append(c.trans, t)
	atomic.AddInt32(&c.n, 1)
	return nil
}

// same compares a delivered transaction with the expected one.
func (x *tx) same(t *gobinlog.Transaction) {
	x.labels(t)
	x.contents(t)
}

func (x *tx) labels(t *gobinlog.Transaction) {
	sym.Assert(sym.And(len(t.NowPosition.Filename) == len(x.nowFile), t.NowPosition.Filename == x.nowFile,
		t.NowPosition.Offset == int64(x.now)), "the start label of a transaction is wrong")
	sym.Assert(sym.And(len(t.NextPosition.Filename) == len(x.nextFile), t.NextPosition.Filename == x.nextFile,
		t.NextPosition.Offset == int64(x.next)), "the end label of a transaction is wrong")
}

func (x *tx) contents(t *gobinlog.Transaction) {
	sym.Assert(t.Timestamp == int64(x.time), "the timestamp of a transaction is wrong")
	if len(t.Events) != len(x.changes) {
		sym.Fail("a transaction has the wrong number of changes")
	}
	for i, c := range x.changes {
		c.same(t.Events[i])
	}
}

func (c *change) same(e *gobinlog.StreamEvent) {
	if e == nil || e.Type != c.kind {
		sym.Fail("the kind of a change is wrong")
	}
	sym.Assert(e.Timestamp == int64(c.time), "the timestamp of a change is wrong")
	if c.t == nil {
		sym.Assert(sym.And(len(e.Query.SQL) == len(c.sql), sym.EqStr(e.Query.SQL, string(c.sql))), "the text of a statement is wrong")
		sym.Assert(e.Query.Database == c.db, "the database of a statement is wrong")
		if c.charset == nil {
			sym.Assert(e.Query.Charset == nil, "a statement has a character set")
		} else {
			le := func(i int) int32 { return int32(c.charset[i]) | int32(c.charset[i+1])<<8 }
			got := e.Query.Charset
			sym.Assert(got != nil, "a statement has no character set")
			sym.Assert(sym.And(got.Client == le(0), got.Conn == le(2), got.Server == le(4)), "the character set of a statement is wrong")
		}
		sym.Assert(len(e.RowValues) == 0 && len(e.RowIdentifies) == 0, "a statement has rows")
		return
	}
	sym.Assert(e.Table == c.t.name, "the table of a change is wrong")
	sym.Assert(e.Query.SQL == "", "a row change has a statement")
	sameRows(e.RowIdentifies, c.before, c)
	sameRows(e.RowValues, c.after, c)
}

func sameRows(got []*gobinlog.RowData, want []row, c *change) {
	if len(got) != len(want) {
		sym.Fail("the number of row images is wrong")
	}
	for i, r := range want {
		if got[i] == nil || len(got[i].Columns) != len(r) {
			sym.Fail("a row image has the wrong number of columns")
		}
		for j, w := range r {
			g := got[i].Columns[j]
			sym.Assert(g.Filed == c.t.cols[j].Field(), "the name of a column is wrong")
			sym.Assert(g.Type == gobinlog.ColumnType(c.cols[j].Type), "the type of a column is wrong")
			sym.Assert(g.IsEmpty == w.absent, "the absent marker of a column is wrong")
			switch {
			case w.absent:
				sym.Assert(g.Data == nil, "an absent column has data")
			case w.null:
				sym.Assert(g.Data == nil, "a NULL column has data")
			default:
				if g.Data == nil {
					sym.Fail("a column that is not NULL has no data")
				}
				sym.Assert(w.v.Check(g.Data), "the value of a column is wrong")
			}
		}
	}
}

// exactly compares everything delivered with what is expected.
func exactly(got []*gobinlog.Transaction, want []*tx) {
	if len(got) < len(want) {
		sym.Fail("a transaction is missing")
	}
	if len(got) > len(want) {
		sym.Fail("more transactions are delivered than the binlog holds")
	}
	for i, x := range want {
		x.same(got[i])
	}
}
