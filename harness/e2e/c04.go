package e2e

import (
	"context"
	"errors"
	"io"

	gobinlog "github.com/Breeze0806/gobinlog"

	"verifh/mk"
	"verifh/sym"
)

// the kinds of faults
const (
	faultClose = iota
	faultReset
	faultPartial
	faultPartialHeader
	faultSeq
	faultZero
	faultErr
	faultEOF
	faultCancel
	faultRowsQuery
	faultIntVar
	faultRand
	faultShort   // shorter than a header
	faultLength  // length field disagrees
	faultUnknown // rows of an id never announced
	faultQuery   // an undecodable query event
	packetFaults // all above strike at a packet

	faultHandler = iota - 1
	faultHandlerCancel
	faultHandlerBoth
	faultMapper
	faultColumns
	faultDial
	faultSet
	faults
)

var errPlanned = errors.New("planned failure")

// failures are the errors handlers and mappers fail with.
var failures = []error{errPlanned, context.Canceled, context.DeadlineExceeded, io.EOF, io.ErrUnexpectedEOF}

// fault is what goes wrong in an attempt.
type fault struct {
	kind, at int
}

func (f fault) bad(fm *mk.Format) []byte {
	hd := mk.Header{Time: 1, Server: 1, Next: sym.U32("end of the bad event")}
	switch f.kind {
	case faultRowsQuery:
		return fm.Event(mk.RowsQueryEv, hd, []byte("\x08select 1"))
	case faultIntVar:
		return fm.Event(mk.IntVarEv, hd, mk.Cat([]byte{2}, mk.LE(5, 8)))
	case faultRand:
		return fm.Event(mk.RandEv, hd, make([]byte, 16))
	case faultShort:
		return fm.Event(mk.XidEv, hd, mk.LE(1, 8))[:11]
	case faultLength:
		b := fm.Event(mk.XidEv, hd, mk.LE(1, 8))
		b[9]++
		return b
	case faultUnknown:
		return fm.Event(mk.WriteV2, hd, fm.RowsBody(mk.WriteV2, 999, 1, nil, 1, nil, []bool{true}, []mk.Image{{Null: []bool{true}, Cells: [][]byte{nil}}}))
	default:
		b := mk.QueryBody(nil, "db", []byte("commit"))
		b[11] = 200 // length of the status variables
		return fm.Event(mk.QueryEv, hd, b)
	}
}

// trial is a streamer under failures.
type trial struct {
	h        *hist
	s        *gobinlog.Streamer
	accepted []*gobinlog.Transaction
	base     uint32
	lockstep bool
	last     *session
	explore  int
	failure  error // of the handler or the mapper
}

func newTrial(h *hist, base uint32) *trial {
	s := newStreamer(5, h.m, "bin.000001", base)
	return &trial{h: h, s: s, base: base, failure: errPlanned}
}

// wants checks the position an attempt asked for: a boundary right after the
// last accepted transaction.
func (t *trial) wants(ses *session) {
	if len(ses.dumps) == 0 {
		return
	}
	d, n := ses.dumps[0], len(t.accepted)
	ok := n == 0 && d.file == "bin.000001" && d.offset == t.base
	for _, fl := range t.h.files {
		for _, e := range fl.entries {
			if e.ntx == n && len(d.file) == len(e.posF) && d.file == e.posF {
				ok = sym.Or(ok, d.offset == e.pos)
			}
		}
	}
	sym.Assert(ok, "an attempt does not start at the boundary after the last accepted transaction")
}

// attempt is one Stream call under a fault; nil: none.
func (t *trial) attempt(f *fault) error {
	h := t.h
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ses := &session{end: endEOF, lockstep: t.lockstep, explore: t.explore}
	h.m.calls, h.m.hook = 0, nil
	ses.serve = func(d dump) [][]byte {
		ps := h.serve(d)
		if f != nil && f.kind < packetFaults {
			i := f.at
			if i >= len(ps) {
				sym.Assume(false) // beyond what this attempt is sent
			}
			switch {
			case f.kind < faultCancel:
				ps = ps[:i]
			case f.kind > faultCancel:
				bad := mk.Cat([]byte{0}, f.bad(h.f))
				ps = append(append(append([][]byte{}, ps[:i]...), bad), ps[i:]...)
			}
		}
		return ps
	}
	calls := 0
	if f != nil {
		switch f.kind {
		case faultClose:
			ses.end = endClose
		case faultReset:
			ses.end = endReset
		case faultPartial:
			ses.end, ses.endBytes = endPartial, []byte{50, 0, 0, byte(0), 0, 1, 2}
		case faultPartialHeader:
			ses.end, ses.endBytes = endPartial, []byte{50, 0}
		case faultSeq:
			ses.end, ses.endBytes = endSeq, []byte{0, 1, 2, 3}
		case faultZero:
			ses.end = endZero
		case faultErr:
			ses.end, ses.endBytes = endErr, []byte("\xff\xd4\x04#HY000log is gone")
		case faultCancel:
			ses.end = endHang
			at := f.at
			ses.onPacket = func(i int) {
				if i == at {
					cancel()
				}
			}
		case faultMapper:
			h.m.hook = func(n int) error {
				if n == f.at+1 {
					return t.failure
				}
				return nil
			}
		case faultColumns:
			h.m.wrong = f.at + 1
		case faultDial:
			ses.dialErr = errPlanned
		case faultSet:
			ses.setReply = []byte("\xff\x48\x04#HY000no such variable")
		}
	}
	current = &master{sessions: []*session{ses}}
	err := t.s.Stream(ctx, func(tr *gobinlog.Transaction) error {
		calls++
		if f != nil && calls == f.at+1 {
			switch f.kind {
			case faultHandler:
				return t.failure
			case faultHandlerCancel:
				cancel()
			case faultHandlerBoth:
				cancel()
				return t.failure
			}
		}
		t.accepted = append(t.accepted, tr)
		return nil
	})
	h.m.wrong, h.m.hook = 0, nil
	if f != nil {
		// a fault that never struck is another attempt's business
		switch f.kind {
		case faultHandler, faultHandlerCancel, faultHandlerBoth:
			sym.Assume(calls > f.at)
		case faultMapper, faultColumns:
			sym.Assume(h.m.calls > f.at)
		}
	}
	t.last = ses
	return err
}

// run makes the attempts and then one without fault.
func (t *trial) run(fs ...fault) {
	for i := range fs {
		n := len(t.accepted)
		t.attempt(&fs[i])
		t.check(n)
		switch {
		case fs[i].kind < packetFaults:
			sym.Reach("packet fault")
		case fs[i].kind < faultMapper:
			sym.Reach("handler fault")
		case fs[i].kind < faultDial:
			sym.Reach("mapper fault")
		default:
			sym.Reach("failed start")
		}
	}
	n := len(t.accepted)
	err := t.attempt(nil)
	sym.Assert(err == nil, "the attempt without a fault fails")
	t.check(n)
	exactly(t.accepted, t.h.exp)
	sym.Expect("packet fault", "handler fault", "mapper fault", "failed start")
}

// check checks an attempt that began with n accepted transactions.
func (t *trial) check(n int) {
	acc := t.accepted
	t.accepted = acc[:n]
	t.wants(t.last)
	t.accepted = acc
	if len(acc) > len(t.h.exp) {
		sym.Fail("a transaction is accepted twice")
	}
	for i := n; i < len(acc); i++ {
		t.h.exp[i].same(acc[i])
	}
}

// anyFault is a fault of one of the kinds (nil: of any) at any place within
// the history.
func anyFault(kinds []int, packets, txs, maps int) fault {
	if kinds == nil {
		for k := 0; k < faults; k++ {
			kinds = append(kinds, k)
		}
	}
	k := kinds[sym.Choice("fault", len(kinds))]
	n := packets
	switch {
	case k >= faultDial:
		n = 1
	case k >= faultMapper:
		n = maps
	case k >= packetFaults:
		n = txs
	}
	return fault{kind: k, at: sym.Choice("point", n)}
}

// packets is the number of packets a dump from the start is sent.
func (h *hist) packets(base uint32) int { return len(h.serve(dump{file: "bin.000001", offset: base})) }

// C04_One covers every fault at every place of a history with rotations and
// every kind of unit.
func C04_One() {
	base := anyOffset()
	alg := byte(1)
	h := newHist(mk.Mysql56(alg), "bin.000001", base)
	w := newWriter(h)
	w.unit(unitXid)
	w.unit(unitDDL)
	w.unit(unitRollback)
	w.unit(unitRotate)
	w.unit(unitRows)
	w.unit(unitGtid)
	w.unit(unitCommit)
	w.nev++
	h.restart("bin.000003", true)
	w.unit(unitXid)
	t := newTrial(h, base)
	t.lockstep = sym.Choice("lock step", 2) == 1
	f := anyFault(nil, h.packets(base), len(h.exp), 6)
	switch f.kind {
	case faultHandler, faultHandlerBoth, faultMapper:
		t.failure = failures[sym.Choice("failure", len(failures))]
	}
	t.run(f)
}

// C04_Two covers pairs of faults of two attempts.
func C04_Two() {
	base := anyOffset()
	h := newHist(mk.Mysql56(0), "bin.000001", base)
	w := newWriter(h)
	w.unit(unitRows)
	w.unit(unitRotate)
	w.unit(unitXid)
	t := newTrial(h, base)
	n := h.packets(base)
	t.lockstep = true
	second := []int{faultClose, faultErr, faultCancel, faultUnknown, faultHandler, faultHandlerCancel, faultColumns, faultDial}
	if sym.Thorough() {
		second = nil
	}
	t.run(anyFault(nil, n, 2, 2), anyFault(second, n, 2, 2))
}

// C04_Three covers triples of faults of three attempts.
func C04_Three() {
	base := anyOffset()
	h := newHist(mk.Mysql56(1), "bin.000001", base)
	w := newWriter(h)
	w.unit(unitDDL)
	w.unit(unitRows)
	w.unit(unitCommit)
	t := newTrial(h, base)
	n := h.packets(base)
	kinds := []int{faultReset, faultHandler, faultMapper, faultSet}
	if sym.Thorough() {
		kinds = []int{faultReset, faultEOF, faultCancel, faultRand, faultHandler, faultHandlerBoth, faultMapper, faultSet}
	}
	t.run(anyFault(kinds, n, 3, 2), anyFault(kinds, n, 3, 2), anyFault(kinds, n, 3, 2))
}

// C04_Schedules covers the interleavings of the reader, the parser and a
// cancellation or a failing handler.
func C04_Schedules() {
	base := anyOffset()
	h := newHist(mk.Mysql56(0), "bin.000001", base)
	w := newWriter(h)
	w.unit(unitDDL)
	w.unit(unitRotate)
	w.unit(unitDDL)
	t := newTrial(h, base)
	t.explore = 1
	if sym.Thorough() {
		t.explore = 2
	}
	kinds := []int{faultCancel, faultHandler, faultHandlerCancel, faultReset, faultErr}
	f := anyFault(kinds, h.packets(base), 2, 0)
	t.attempt(&f)
	t.check(0)
	sym.Explore(-1)
	t.explore = 0
	n := len(t.accepted)
	err := t.attempt(nil)
	sym.Assert(err == nil, "the attempt without a fault fails")
	t.check(n)
	exactly(t.accepted, t.h.exp)
	sym.Reach("all")
	sym.Expect("all")
}
