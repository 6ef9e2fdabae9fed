package e2e

import (
	"context"

	gobinlog "github.com/Breeze0806/gobinlog"

	"verifh/mk"
	"verifh/sym"
)

// the kinds of units of a binlog
const (
	unitXid = iota
	unitCommit
	unitRollback
	unitDDL
	unitRows
	unitDML
	unitRotate
	unitGtid
	unitAnonGtid
	unitPrevGtids
	unitHeartbeat
	unitUnknownEvent
	unitUnknownStatement
	units

	unitEmpty = iota - 1
)

// writer logs units over two tables.
type writer struct {
	h   *hist
	t   [2]*table
	c   [2][]mk.Col
	n   int
	nev int
}

func newWriter(h *hist) *writer {
	w := &writer{h: h}
	for i := range w.t {
		w.t[i], w.c[i] = h.intStr(1+i, "Db-1", []string{"one", "Tw o\u00e9"}[i])
	}
	return w
}

// row logs a change of one row.
func (w *writer) row() {
	i, k := w.n%2, kinds3[w.n%3]
	w.n++
	b, a := images3(k)
	var before, after []row
	if b {
		before = []row{cells0(1 + i)}
	}
	if a {
		after = []row{cells0(1 + i)}
	}
	w.h.change(k, w.t[i], w.c[i], before, after)
}

// unknownType is a type of event the library does not know.
func unknownType() byte {
	t := sym.Byte("unknown event type")
	sym.Assume(sym.Or(t == 0, t == 28, sym.And(t >= 36, t <= 38), sym.And(t >= 41, t <= 158), sym.And(t >= 160, t <= 163), t >= 171))
	return t
}

// ignorable logs an event that means nothing to the grouping.
func (w *writer) ignorable(k int) {
	h := w.h
	switch k {
	case unitGtid:
		h.ev(mk.GtidEv, mk.Cat([]byte{1}, sym.Bytes("sid", 16), mk.LE(sym.U64("gno"), 8)))
	case unitAnonGtid:
		h.ev(mk.AnonGtidEv, mk.Cat([]byte{0}, make([]byte, 24)))
	case unitPrevGtids:
		h.ev(mk.PrevGtidsEv, mk.Cat(mk.LE(1, 8), sym.Bytes("sid", 16), mk.LE(1, 8), mk.LE(1, 8), mk.LE(sym.U64("end"), 8)))
	case unitHeartbeat:
		h.artificial(mk.HeartbeatEv, []byte(h.cur.name))
	case unitUnknownEvent:
		h.ev(unknownType(), sym.Bytes("body", []int{0, 13, 40}[w.n%3]))
	case unitUnknownStatement:
		h.ignored([]byte([]string{"FLUSH TABLES", "savepoint x", "XA START 'a'", "analyze table t"}[w.n%4]))
	default:
		sym.Fail("harness: not an ignorable unit")
	}
}

// unit logs one unit.
func (w *writer) unit(k int) {
	h := w.h
	switch k {
	case unitXid:
		h.begin()
		w.row()
		w.row()
		h.xid()
	case unitCommit:
		h.begin()
		w.row()
		h.commit()
	case unitRollback:
		h.begin()
		w.row()
		h.rollback()
	case unitDDL:
		h.statement(gobinlog.StatementCreate, "db", []byte("create table x (a int)"))
	case unitRows:
		w.row()
	case unitDML:
		h.statement(gobinlog.StatementUpdate, "db", []byte("update one set cola = 1"))
	case unitRotate:
		// in no order
		w.nev++
		h.rotate([]string{"bin.000003", "bin-b.000001", "BIN.000009", "bin.1000000"}[w.nev%4] + string(rune('0'+w.nev/4)))
	case unitEmpty:
		w.n++
		h.empty(w.n % empties)
	default:
		w.ignorable(k)
	}
}

// timely makes the session check that no transaction is delivered before its
// commit event is available to the stream.
func (h *hist) timely(ses *session, got *collect) {
	ses.lockstep = true
	ses.onPacket = func(i int) {
		n := 0
		for k := i - 1; k >= 0; k-- {
			if h.sent[k] >= 0 {
				n = h.entry(h.sent[k]).ntx
				break
			}
		}
		sym.Assert(got.count() <= n, "a transaction is delivered before its commit event")
	}
}

// C02_Units covers every sequence of units.
func C02_Units() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	base := anyOffset()
	h := newHist(mk.Mysql56(1), "bin.000001", base)
	h.times = true
	w := newWriter(h)
	for i := 0; i < n; i++ {
		k := sym.Choice("unit", units+1)
		if k == units {
			k = unitEmpty
		}
		w.unit(k)
	}
	w.unit(unitXid)
	h.stream(base)
	sym.Reach("all")
	sym.Expect("all")
}

// stream streams the binlog in lock step.
func (h *hist) stream(base uint32) {
	got := &collect{}
	ses := &session{serve: h.serve, end: endEOF}
	h.timely(ses, got)
	s := newStreamer(77, h.m, "bin.000001", base, ses)
	err := s.Stream(context.Background(), got.handle)
	sym.Assert(err == nil, "streaming a well-formed binlog fails")
	exactly(got.trans, h.exp)
}

// C02_Inside covers ignorable events at every place of a transaction, of
// every outcome, between others.
func C02_Inside() {
	base := anyOffset()
	h := newHist(mk.Mysql56(0), "bin.000001", base)
	w := newWriter(h)
	end := sym.Choice("end", 3)
	what := unitGtid + sym.Choice("ignorable", units-unitGtid)
	place := sym.Choice("place", 4)
	at := func(i int) {
		if place == i {
			w.ignorable(what)
		}
	}
	first := []int{unitXid, unitRollback, unitDDL, unitRows}[sym.Choice("before", 4)]
	w.unit(first)
	h.begin()
	at(0)
	w.row()
	at(1)
	h.statement(gobinlog.StatementInsert, "db", []byte("insert into one values (1)"))
	at(2)
	w.row()
	at(3)
	switch end {
	case 0:
		h.xid()
	case 1:
		h.commit()
	default:
		h.rollback()
	}
	w.unit([]int{unitRows, unitDDL, unitCommit}[sym.Choice("after", 3)])
	h.stream(base)
	sym.Reach("all")
	sym.Expect("all")
}

// anyCase is the word with every letter in either case.
func anyCase(word string) []byte {
	b := []byte(word)
	for i := range b {
		b[i] |= byte(sym.Ite(sym.Bool("lower"), 0x20, 0))
	}
	return b
}

// C02_Casing covers every casing of the boundary statements.
func C02_Casing() {
	base := anyOffset()
	h := newHist(mk.Mysql56(1), "bin.000001", base)
	w := newWriter(h)
	w.row()
	for i := 0; i < 2; i++ {
		h.beginText(anyCase("BEGIN"))
		w.row()
		w.row()
		if sym.Choice("end", 2) == 0 {
			h.commitText(anyCase("COMMIT"))
		} else {
			h.rollbackText(anyCase("ROLLBACK"))
		}
	}
	w.row()
	h.stream(base)
	sym.Reach("all")
	sym.Expect("all")
}

// C02_Words covers every first word of up to 9 letters: exactly the boundary
// words and the delivered statements are recognised, in any case.
func C02_Words() {
	n := 1 + sym.Choice("letters", 9)
	w := sym.Bytes("word", n)
	for _, c := range w {
		l := c | 0x20
		sym.Assume(sym.And(l >= 'a', l <= 'z'))
	}
	sep := []string{"", " ", "\t", "\n", "\r\n"}[sym.Choice("separator", 5)]
	text := mk.Cat(w, []byte(sep))
	if sep != "" {
		text = append(text, sym.Bytes("tail", 3)...)
	}
	got := gobinlog.GetStatementCategory(string(text))
	is := func(word string) bool {
		if len(word) != n {
			return false
		}
		ok := true
		for i := range word {
			ok = sym.And(ok, w[i]|0x20 == word[i]|0x20)
		}
		return ok
	}
	known := false
	for _, s := range statements {
		x := is(s.word)
		known = sym.Or(known, x)
		sym.Assert((got == s.kind) == x, "a statement is taken for another")
	}
	for _, s := range boundaries {
		x := is(s.word)
		known = sym.Or(known, x)
		sym.Assert((got == s.kind) == x, "a boundary statement is taken for another statement")
	}
	sym.Assert((got == gobinlog.StatementUnknown) == !known, "an unknown statement is taken for a known one")
	sym.Reach("word")
	sym.Expect("word")
}

var boundaries = []struct {
	word string
	kind gobinlog.StatementType
}{
	{"begin", gobinlog.StatementBegin},
	{"commit", gobinlog.StatementCommit},
	{"rollback", gobinlog.StatementRollback},
}

// C02_Mix covers longer sequences over the units that move boundaries.
func C02_Mix() {
	kinds := []int{unitXid, unitRollback, unitDDL, unitRows, unitRotate, unitUnknownStatement}
	n := 5
	if sym.Thorough() {
		n = 6
	}
	base := anyOffset()
	h := newHist(mk.Mysql56(0), "bin.000001", base)
	h.v2 = false
	w := newWriter(h)
	for i := 0; i < n; i++ {
		w.unit(kinds[sym.Choice("unit", len(kinds))])
	}
	h.stream(base)
	sym.Reach("all")
	sym.Expect("all")
}

// C02_Statements covers every statement that is delivered and every ignored
// one inside a transaction of every outcome and outside of one.
func C02_Statements() {
	base := anyOffset()
	h := newHist(mk.Mysql56(1), "bin.000001", base)
	w := newWriter(h)
	st := statements[sym.Choice("statement", len(statements))]
	text := mk.Cat(anyCase(st.word), []byte(" x"))
	place := sym.Choice("place", 4)
	at := func(i int) {
		if place == i {
			h.statement(st.kind, []string{"", "db"}[i%2], text)
		}
	}
	w.row()
	h.begin()
	at(0)
	w.row()
	at(1)
	w.row()
	at(2)
	switch sym.Choice("end", 3) {
	case 0:
		h.xid()
	case 1:
		h.commit()
	default:
		h.rollback()
	}
	at(3)
	w.unit([]int{unitRows, unitXid}[sym.Choice("after", 2)])
	h.stream(base)
	sym.Reach("all")
	sym.Expect("all")
}

// C02_Long covers transactions of many changes and long sequences of units.
func C02_Long() {
	base := anyOffset()
	h := newHist(mk.Mysql56(0), "bin.000001", base)
	h.v2 = false
	w := newWriter(h)
	lengths := []int{9, 10, 11, 16, 17, 33, 70}
	if sym.Thorough() {
		lengths = append(lengths, 128, 257, 600)
	}
	n := lengths[sym.Choice("length", len(lengths))]
	end := func(k int) {
		switch k {
		case 0:
			h.xid()
		case 1:
			h.commit()
		default:
			h.rollback()
		}
	}
	switch sym.Choice("what", 3) {
	case 0: // two long transactions in a row
		for i := 0; i < 2; i++ {
			h.begin()
			for j := 0; j < n-i; j++ {
				w.row()
			}
			end(sym.Choice("end", 3))
		}
	case 1: // a long transaction of statements and changes
		h.begin()
		for j := 0; j < n; j++ {
			if j%3 == 1 {
				st := statements[j%len(statements)]
				h.statement(st.kind, "db", []byte(st.word+" x"))
			} else {
				w.row()
			}
			if j%5 == 2 {
				w.ignorable([]int{unitHeartbeat, unitUnknownStatement, unitAnonGtid}[j%3])
			}
		}
		end(sym.Choice("end", 3))
	default: // many units
		for j := 0; j < n; j++ {
			w.unit([]int{unitXid, unitRollback, unitRows, unitDDL, unitHeartbeat, unitCommit, unitDML}[j%7])
		}
		w.unit([]int{unitXid, unitRollback}[sym.Choice("unit", 2)])
	}
	w.unit(unitRows)
	h.stream(base)
	sym.Reach("all")
	sym.Expect("all")
}

// C02_Empty covers transactions that change nothing, of every kind, between
// and next to others.
func C02_Empty() {
	base := anyOffset()
	h := newHist(mk.Mysql56(byte(sym.Choice("checksum", 2))), "bin.000001", base)
	h.times = true
	w := newWriter(h)
	w.unit([]int{unitRows, unitXid, unitDDL}[sym.Choice("before", 3)])
	h.empty(sym.Choice("empty", empties))
	if sym.Choice("more", 2) == 1 {
		h.empty(sym.Choice("empty", empties))
	}
	w.unit([]int{unitRows, unitXid, unitRollback}[sym.Choice("after", 3)])
	h.stream(base)
	sym.Reach("all")
	sym.Expect("all")
}

// C02_Savepoint covers partial rollbacks: what follows a savepoint and is rolled
// back to it is not delivered, everything else of the transaction still arrives
// together at its commit.
func C02_Savepoint() {
	base := anyOffset()
	h := newHist(mk.Mysql56(0), "bin.000001", base)
	w := newWriter(h)
	names := []string{"a", "work", "to"}
	type mark struct {
		name string
		n    int
	}
	var marks []mark
	steps := 4
	if sym.Thorough() {
		steps = 5
	}
	last := sym.Choice("end", 3)
	w.row()
	h.begin()
	for i := 0; i < steps; i++ {
		k := sym.Choice("step", 6)
		if k == 0 {
			w.row()
			continue
		}
		name := names[(k-1)%2]
		if k == 5 {
			name = names[2]
		}
		quoted := "`" + name + "`"
		if k < 3 {
			h.ignored([]byte([]string{"SAVEPOINT " + quoted, "savepoint  " + name, "SavePoint\t" + quoted}[i%3]))
			kept := marks[:0]
			for _, m := range marks {
				if m.name != name {
					kept = append(kept, m)
				}
			}
			marks = append(kept, mark{name, len(h.opened)})
			continue
		}
		// the third name is of a savepoint set before anything was logged
		n := 0
		if k < 5 {
			at := -1
			for j, m := range marks {
				if m.name == name {
					at = j
				}
			}
			if at < 0 {
				sym.Assume(false)
				return
			}
			n = marks[at].n
			marks = marks[:at+1]
		} else {
			marks = nil
		}
		h.ignored([]byte([]string{"ROLLBACK TO " + quoted, "rollback to savepoint " + quoted, "Rollback Work To\n" + quoted, "ROLLBACK TO" + quoted}[i%4]))
		h.opened = h.opened[:n]
	}
	switch last {
	case 0:
		h.xid()
	case 1:
		h.commit()
	default:
		h.rollback()
	}
	w.row()
	h.stream(base)
	sym.Reach("all")
	sym.Expect("all")
}
