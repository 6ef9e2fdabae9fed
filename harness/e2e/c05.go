package e2e

import (
	"context"
	"sync/atomic"

	gobinlog "github.com/Breeze0806/gobinlog"

	"verifh/mk"
	"verifh/sym"
)

// how a handler behaves
const (
	handlerFast    = iota
	handlerSlow    // lets others run
	handlerBlocked // does not return before the caller cancels
	handlers
)

// watch is a Stream call under observation.
type watch struct {
	h       *hist
	s       *gobinlog.Streamer
	ses     *session
	ctx     context.Context
	cancel  context.CancelFunc
	handler int
	inside  int32
	ended   int32
	calls   int
	at      func(call int) error // what the handler does
}

func (w *watch) handle(t *gobinlog.Transaction) error {
	if atomic.AddInt32(&w.inside, 1) != 1 {
		sym.Fail("the handler is called concurrently")
	}
	if atomic.LoadInt32(&w.ended) != 0 {
		sym.Fail("the handler is called after Stream returned")
	}
	w.calls++
	n := w.calls
	switch w.handler {
	case handlerSlow:
		sym.Yield()
	case handlerBlocked:
		if n == 2 {
			<-w.ctx.Done()
		}
	}
	var err error
	if w.at != nil {
		err = w.at(n)
	}
	atomic.AddInt32(&w.inside, -1)
	return err
}

// stream runs Stream and checks what it leaves behind.
func (w *watch) stream() (err, reason error) {
	err = w.s.Stream(w.ctx, w.handle)
	if atomic.LoadInt32(&w.inside) != 0 {
		sym.Fail("Stream returned while the handler runs")
	}
	atomic.StoreInt32(&w.ended, 1)
	reason = w.s.Error()
	w.s.Error()
	sym.Quiesce()
	if n := sym.LibGoroutines(); n != 0 {
		sym.Fail("a goroutine started by the library remains after Stream returned")
	}
	if c := w.ses.conn; c != nil {
		sym.Assert(c.isClosed(), "the connection to the master remains open")
	}
	w.cancel()
	sym.Quiesce()
	w.s.Error()
	return
}

// watched is a stream of the history under observation.
func watched(h *hist, base uint32, ses *session) *watch {
	ctx, cancel := context.WithCancel(context.Background())
	return &watch{h: h, s: newStreamer(5, h.m, "bin.000001", base, ses), ses: ses, ctx: ctx, cancel: cancel}
}

// stop causes of a running stream
const (
	stopEOF = iota
	stopErr
	stopClose
	stopReset
	stopPartial
	stopSeq
	stopCancel     // by another goroutine, at any time
	stopCancelHung // the same, while the master is silent
	stopHandler
	stopMapper
	stopInvalid
	stops
)

var stopEnds = map[int]int{stopEOF: endEOF, stopErr: endErr, stopClose: endClose, stopReset: endReset, stopPartial: endPartial, stopSeq: endSeq}

// small is a history of few packets: two transactions.
func small(base uint32) *hist {
	h := newHist(mk.Mysql56(0), "bin.000001", base)
	w := newWriter(h)
	w.unit(unitDDL)
	w.unit(unitDDL)
	return h
}

// stopped arranges for the stop cause at the packet.
func (h *hist) stopped(cause, at int) (*session, func(w *watch)) {
	ses := &session{end: endHang}
	ses.serve = func(d dump) [][]byte {
		ps := h.serve(d)
		switch cause {
		case stopEOF, stopErr, stopClose, stopReset, stopPartial, stopSeq:
			ses.end = stopEnds[cause]
			ses.endBytes = map[int][]byte{stopErr: []byte("\xff\xd4\x04#HY000log is gone"),
				stopPartial: {9, 0, 0, 9, 0}, stopSeq: {0, 1}}[cause]
			ps = ps[:at]
		case stopCancelHung:
			ps = ps[:at]
		case stopInvalid:
			ps = append(append(append([][]byte{}, ps[:at]...), []byte{0, 1, 2, 3}), ps[at:]...)
		}
		return ps
	}
	return ses, func(w *watch) {
		switch cause {
		case stopCancel, stopCancelHung:
			n := at
			ses.onPacket = func(i int) {
				if i == n {
					go w.cancel()
				}
			}
		case stopHandler:
			w.at = func(n int) error {
				if n == 1+at%2 {
					return errPlanned
				}
				return nil
			}
		case stopMapper:
			h.m.hook = func(int) error { return errPlanned }
		}
	}
}

// C05_Stops covers every stop cause at every packet under every interleaving
// within the preemption bound.
func C05_Stops() {
	sym.Races()
	base := anyOffset()
	cause := sym.Choice("stop", stops)
	h := small(base)
	if cause == stopMapper {
		h = newHist(mk.Mysql56(0), "bin.000001", base)
		newWriter(h).unit(unitXid)
	}
	n := h.packets(base)
	at := 0
	switch cause {
	case stopHandler:
		at = sym.Choice("point", 2)
	case stopMapper:
	default:
		at = sym.Choice("point", n+1)
	}
	ses, arm := h.stopped(cause, at)
	ses.explore = 1
	if sym.Thorough() {
		ses.explore = 2
	}
	ses.lockstep = sym.Choice("lock step", 2) == 1
	w := watched(h, base, ses)
	arm(w)
	w.handler = sym.Choice("handler", 2)
	w.stream()
	sym.Reach("stopped")
	sym.Expect("stopped")
}

// C05_Blocked covers a handler that does not return before the caller
// cancels, with the master in every state.
func C05_Blocked() {
	sym.Races()
	base := anyOffset()
	h := small(base)
	n := h.packets(base)
	cause := []int{stopEOF, stopErr, stopClose, stopCancelHung, stopInvalid}[sym.Choice("master", 5)]
	ses, arm := h.stopped(cause, n)
	ses.explore = 1
	if sym.Thorough() {
		ses.explore = 2
	}
	ses.lockstep = sym.Choice("lock step", 2) == 1
	w := watched(h, base, ses)
	if cause != stopCancelHung {
		arm(w)
	}
	// the handler does not return from its second call before the cancellation,
	// which comes once everything else is at rest
	w.handler = handlerBlocked
	go func() {
		sym.Quiesce()
		w.cancel()
	}()
	if sym.Choice("handler fails", 2) == 1 {
		w.at = func(n int) error {
			if n == 2 {
				return errPlanned
			}
			return nil
		}
	}
	w.stream()
	sym.Reach("blocked")
	sym.Expect("blocked")
}

// C05_Start covers attempts that end before or during the handshake.
func C05_Start() {
	sym.Races()
	base := anyOffset()
	h := small(base)
	ses := &session{serve: h.serve, end: endHang, explore: 0}
	w := watched(h, base, ses)
	late := false
	switch sym.Choice("failure", 9) {
	case 0:
		ses.dialErr = errPlanned
	case 1:
		ses.noAuth = []byte("\xff\x15\x04#28000Access denied")
	case 2:
		ses.setReply = []byte("\xff\x48\x04#HY000no such variable")
	case 3:
		ses.failWrite = 1
	case 4:
		ses.failWrite = 2
	case 5:
		w.cancel()
	case 6: // the master never answers SET
		ses.noReply = true
		late = true
	case 7: // nor the login
		ses.mute = true
		late = true
	case 8: // cancelled while the login is answered
		ses.onAuth = w.cancel
	}
	if late {
		go func() {
			sym.Quiesce()
			w.cancel()
		}()
	}
	sym.Explore(1)
	err, reason := w.stream()
	sym.Assert(err != nil, "a failed attempt is not reported")
	sym.Assert(reason != nil, "Error() is nil although Stream failed")
	sym.Assert(w.calls == 0, "the handler is called without a stream")
	sym.Reach("failed start")
	sym.Expect("failed start")
}

// C05_Dialled is a cancellation between the dial and the driver's first look
// at the context.
func C05_Dialled() {
	base := anyOffset()
	h := small(base)
	ses := &session{serve: h.serve, end: endHang}
	w := watched(h, base, ses)
	ses.onDial = w.cancel
	w.stream()
	sym.Reach("dialled")
	sym.Expect("dialled")
}

// C05_Again covers streams one after the other on one streamer: nothing of an
// earlier one disturbs a later one.
func C05_Again() {
	sym.Races()
	base := anyOffset()
	h := small(base)
	n := h.packets(base)
	first := []int{stopErr, stopCancel, stopHandler, stopClose}[sym.Choice("first", 4)]
	ses, arm := h.stopped(first, sym.Choice("point", n))
	w := watched(h, base, ses)
	arm(w)
	sym.Explore(0)
	w.stream()
	h.m.hook = nil
	second := &session{serve: h.serve, end: endEOF}
	current = &master{sessions: []*session{second}}
	w2 := &watch{h: h, s: w.s, ses: second}
	w2.ctx, w2.cancel = context.WithCancel(context.Background())
	if sym.Choice("dial fails", 2) == 1 {
		second.dialErr = errPlanned
		err, reason := w2.stream()
		sym.Assert(err != nil && reason != nil, "a failed attempt is not reported")
	} else {
		err, reason := w2.stream()
		sym.Assert(err == nil, "the second stream fails")
		sym.Assert(reason == nil, "the second stream reports the end of the first one")
	}
	sym.Reach("again")
	sym.Expect("again")
}
