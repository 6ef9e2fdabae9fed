package e2e

import (
	"context"
	"errors"
	"io"

	gobinlog "github.com/Breeze0806/gobinlog"

	"verifh/mk"
	"verifh/sym"
)

// the ends of a stream, as the master, the transport or the caller make them
const (
	byEOF = iota
	byCancel
	byErr
	byErrOld // without SQL state
	byErrEmpty
	byErrShort
	byClose
	byReset
	byPartial
	byPartialHeader
	bySeq
	bySeqBack
	byZero
	ends
)

// ended sets the end of the session; text is what the reason has to carry.
func (ses *session) ended(by int) (text []byte) {
	ses.end = endEOF
	text = []byte("log is gone")
	switch by {
	case byCancel:
		ses.end = endHang
	case byErr:
		ses.end, ses.endBytes = endErr, mk.Cat([]byte("\xff\xd4\x04#HY000"), text)
	case byErrOld:
		ses.end, ses.endBytes = endErr, mk.Cat([]byte("\xff\xd4\x04"), text)
	case byErrEmpty:
		ses.end, ses.endBytes = endErr, []byte("\xff\xd4\x04#HY000")
	case byErrShort:
		ses.end, ses.endBytes = endErr, []byte("\xff\xd4\x04#HY00"[:1+sym.Choice("short ERR packet", 8)])
	case byClose:
		ses.end = endClose
	case byReset:
		ses.end = endReset
	case byPartial:
		ses.end, ses.endBytes = endPartial, []byte{50, 0, 0, 1, 0, 1, 2}
	case byPartialHeader:
		ses.end, ses.endBytes = endPartial, []byte{50, 0}
	case bySeq:
		ses.end, ses.endBytes = endSeq, []byte{0xfe, 0, 0, 2, 0}
	case bySeqBack:
		ses.end, ses.endBytes = endSeqBack, []byte{0xfe, 0, 0, 2, 0}
	case byZero:
		ses.end = endZero
	}
	if by != byErr && by != byErrOld {
		text = nil
	}
	return
}

// carries says whether the text holds the part.
func carries(text string, part []byte) bool {
	ok := len(part) == 0
	for i := 0; i+len(part) <= len(text); i++ {
		ok = sym.Or(ok, sym.EqStr(text[i:i+len(part)], string(part)))
	}
	return ok
}

// reported checks the reason of a stream that Stream itself did not report.
func reported(s *gobinlog.Streamer, clean, failed bool, text []byte) {
	for i := 0; i < 3; i++ {
		err := s.Error()
		if err == nil {
			sym.Assert(!failed, "a failed stream is reported as a clean end")
			continue
		}
		sym.Assert(!clean, "a clean end is reported as a failure")
		sym.Assert(carries(err.Error(), text), "the reason does not carry the message of the master")
	}
}

// C06_Ends covers every end at every packet, reported at once or after a late
// cancellation.
func C06_Ends() {
	base := anyOffset()
	h := newHist(mk.Mysql56(1), "bin.000001", base)
	w := newWriter(h)
	w.unit(unitXid)
	w.unit(unitRotate)
	w.unit(unitDDL)
	n := h.packets(base)
	by := sym.Choice("end", ends)
	at := sym.Choice("point", n+1)
	ses := &session{lockstep: sym.Choice("lock step", 2) == 1}
	ses.serve = func(d dump) [][]byte { return h.serve(d)[:at] }
	text := ses.ended(by)
	ctx, cancel := context.WithCancel(context.Background())
	if by == byCancel {
		ses.onPacket = func(i int) {
			if i == at {
				cancel()
			}
		}
	}
	s := newStreamer(5, h.m, "bin.000001", base, ses)
	got := &collect{}
	err := s.Stream(ctx, got.handle)
	clean := by == byEOF || by == byCancel
	if err != nil {
		sym.Assert(!clean, "Stream fails although the stream ended cleanly")
		sym.Assert(carries(err.Error(), text), "the error of Stream does not carry the message of the master")
		sym.Assert(s.Error() != nil, "Error() is nil although Stream failed")
	} else {
		if sym.Choice("late cancellation", 2) == 1 {
			cancel()
			sym.Quiesce()
		}
		reported(s, clean, !clean, text)
	}
	cancel()
	sym.Reach("ended")
	sym.Expect("ended")
}

// C06_Master covers master errors of any code, state and message.
func C06_Master() {
	base := anyOffset()
	h := small(base)
	lens := []int{1, 2, 5, 9, 30}
	if sym.Thorough() {
		lens = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 20, 40, 80, 200, 511}
	}
	msg := sym.Bytes("message", lens[sym.Choice("length", len(lens))])
	ses := &session{serve: h.serve, end: endErr, endBytes: mk.Cat([]byte{0xff}, mk.LE(uint64(sym.U16("code")), 2))}
	if sym.Choice("state", 2) == 1 {
		ses.endBytes = mk.Cat(ses.endBytes, []byte{'#'}, sym.Bytes("SQL state", 5), msg)
	} else {
		// a message that begins with # is a state
		sym.Assume(msg[0] != '#')
		ses.endBytes = mk.Cat(ses.endBytes, msg)
	}
	s := newStreamer(5, h.m, "bin.000001", base, ses)
	got := &collect{}
	err := s.Stream(context.Background(), got.handle)
	if err == nil {
		err = s.Error()
	}
	sym.Assert(err != nil, "a master error is reported as a clean end")
	if err != nil {
		sym.Assert(carries(err.Error(), msg), "the reason does not carry the message of the master")
	}
	sym.Assert(s.Error() != nil, "the reason is reported once only")
	sym.Reach("master error")
	sym.Expect("master error")
}

// failures of the caller's side and of decoding
var planned = []error{errPlanned, context.Canceled, io.EOF, context.DeadlineExceeded, errors.New("stream reached EOF")}

// C06_Failures covers failures of the handler, of decoding and of the table
// mapper at every place, with every end behind them.
func C06_Failures() {
	base := anyOffset()
	h := newHist(mk.Mysql56(byte(sym.Choice("checksum", 2))), "bin.000001", base)
	w := newWriter(h)
	w.unit(unitDDL)
	w.unit(unitXid)
	w.unit(unitRows)
	n := h.packets(base)
	ses := &session{lockstep: sym.Choice("lock step", 2) == 1}
	ses.ended([]int{byEOF, byClose, byErr, byCancel}[sym.Choice("end", 4)])
	ctx, cancel := context.WithCancel(context.Background())
	kind := faultRowsQuery + sym.Choice("failure", faultColumns-faultRowsQuery+1)
	at := 0
	ses.serve = h.serve
	calls := 0
	var cause error
	handle := func(t *gobinlog.Transaction) error {
		calls++
		if calls != at+1 {
			return nil
		}
		switch kind {
		case faultHandlerBoth:
			cancel()
			return cause
		case faultHandler:
			return cause
		}
		return nil
	}
	switch {
	case kind < packetFaults:
		at = sym.Choice("point", n+1)
		ses.serve = func(d dump) [][]byte {
			ps := h.serve(d)
			sym.Assume(at > 1 || kind >= faultShort) // before the format is known
			bad := mk.Cat([]byte{0}, fault{kind: kind}.bad(h.f))
			return append(append(append([][]byte{}, ps[:at]...), bad), ps[at:]...)
		}
	case kind == faultHandler || kind == faultHandlerBoth:
		cause = planned[sym.Choice("cause", len(planned))]
		at = sym.Choice("point", 3)
	case kind == faultHandlerCancel:
		sym.Assume(false)
	case kind == faultMapper:
		cause = planned[sym.Choice("cause", len(planned))]
		at = sym.Choice("point", 2)
		h.m.hook = func(n int) error {
			if n == at+1 {
				return cause
			}
			return nil
		}
	case kind == faultColumns:
		at = sym.Choice("point", 2)
		h.m.wrong = at + 1
	}
	s := newStreamer(5, h.m, "bin.000001", base, ses)
	err := s.Stream(ctx, handle)
	if kind >= faultMapper {
		sym.Assume(h.m.calls > at)
	}
	sym.Assert(err != nil, "Stream returns nil although the handler, decoding or a table lookup failed")
	if sym.Choice("late cancellation", 2) == 1 {
		cancel()
	}
	sym.Assert(s.Error() != nil, "Error() is nil although Stream failed")
	cancel()
	sym.Reach("failed")
	sym.Expect("failed")
}

// C06_Schedules covers every end under every schedule within the preemption
// bound.
func C06_Schedules() {
	base := anyOffset()
	h := newHist(mk.Mysql56(0), "bin.000001", base)
	newWriter(h).unit(unitDDL)
	n := h.packets(base)
	by := []int{byEOF, byErr, byClose, byReset, bySeq, byErrShort}[sym.Choice("end", 6)]
	at := n
	if sym.Thorough() {
		at = sym.Choice("point", n+1)
	}
	ses := &session{lockstep: sym.Choice("lock step", 2) == 1, explore: 2}
	ses.serve = func(d dump) [][]byte { return h.serve(d)[:at] }
	text := ses.ended(by)
	ctx, cancel := context.WithCancel(context.Background())
	s := newStreamer(5, h.m, "bin.000001", base, ses)
	err := s.Stream(ctx, func(*gobinlog.Transaction) error {
		sym.Yield()
		return nil
	})
	sym.Assert(err == nil || by != byEOF, "Stream fails although the stream ended cleanly")
	if err == nil {
		if sym.Choice("late cancellation", 2) == 1 {
			cancel()
		}
		reported(s, by == byEOF, by != byEOF, text)
	}
	cancel()
	sym.Reach("ended")
	sym.Expect("ended")
}

// C06_Cancelled covers a cancellation that meets another end: while it may
// win, it is never reported as a failure of its own, and what has happened
// before it is not hidden by it.
func C06_Cancelled() {
	base := anyOffset()
	h := newHist(mk.Mysql56(0), "bin.000001", base)
	newWriter(h).unit(unitDDL)
	by := []int{byEOF, byErr, byClose, byReset, byPartial}[sym.Choice("end", 5)]
	ses := &session{lockstep: true, explore: 1}
	if sym.Thorough() {
		ses.explore = 2
	}
	ses.serve = h.serve
	text := ses.ended(by)
	ctx, cancel := context.WithCancel(context.Background())
	when := sym.Choice("cancelled", 3)
	at := 0
	if when == 0 {
		at = sym.Choice("point", 4)
		ses.onPacket = func(i int) {
			if i == at {
				go cancel()
			}
		}
	}
	s := newStreamer(5, h.m, "bin.000001", base, ses)
	err := s.Stream(ctx, func(*gobinlog.Transaction) error {
		switch when {
		case 1:
			cancel()
		case 2: // the end has come before
			sym.Quiesce()
			cancel()
		}
		return nil
	})
	sym.Assert(err == nil || by != byEOF, "Stream fails although the stream ended cleanly")
	if err == nil {
		reported(s, by == byEOF, when == 2 && by != byEOF, text)
	}
	cancel()
	sym.Reach("ended")
	sym.Expect("ended")
}

// C06_Again covers streams one after the other: the reason of each is its own.
func C06_Again() {
	base := anyOffset()
	h := newHist(mk.Mysql56(0), "bin.000001", base)
	newWriter(h).unit(unitDDL)
	n := h.packets(base)
	s := newStreamer(5, h.m, "bin.000001", base)
	rounds := 3
	for r := 0; r < rounds; r++ {
		by := []int{byEOF, byErr, byClose, byCancel, ends}[sym.Choice("end", 5)]
		ses := &session{lockstep: true, serve: h.serve}
		text := ses.ended(by)
		ctx, cancel := context.WithCancel(context.Background())
		if by == byCancel {
			ses.onPacket = func(i int) {
				if i == n {
					cancel()
				}
			}
		}
		current = &master{sessions: []*session{ses}}
		s.SetBinlogPosition(gobinlog.Position{Filename: "bin.000001", Offset: int64(base)})
		err := s.Stream(ctx, func(*gobinlog.Transaction) error {
			if by == ends {
				return errPlanned
			}
			return nil
		})
		clean := by == byEOF || by == byCancel
		if by == ends {
			sym.Assert(err != nil, "Stream returns nil although the handler failed")
			sym.Assert(s.Error() != nil, "Error() is nil although Stream failed")
		} else if sym.Choice("Error() called", 2) == 1 {
			sym.Assert(err == nil || !clean, "Stream fails although the stream ended cleanly")
			if err == nil {
				reported(s, clean, !clean, text)
			}
		}
		cancel()
	}
	sym.Reach("again")
	sym.Expect("again")
}
