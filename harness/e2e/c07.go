package e2e

import (
	"context"
	"errors"
	"strings"

	gobinlog "github.com/Breeze0806/gobinlog"

	"verifh/mk"
	"verifh/sym"
)

// newStreamer is a streamer whose master plays the sessions in turn.
func newStreamer(id uint32, m *mapper, file string, off uint32, sessions ...*session) *gobinlog.Streamer {
	current = &master{sessions: sessions}
	s, err := gobinlog.NewStreamer(dsn, id, m)
	if err != nil {
		sym.Fail("NewStreamer fails")
	}
	s.SetBinlogPosition(gobinlog.Position{Filename: file, Offset: int64(off)})
	return s
}

// handshake checks what one session was asked.
func handshake(s *session, id uint32, file string, off uint32) {
	sym.Assert(len(s.dumps) == 1, "not exactly one dump was requested")
	sym.Assert(s.other == 0, "an unexpected command was sent")
	aware := false
	for i, o := range s.order {
		if o == "dump" {
			break
		}
		if o == "query" {
			q := strings.ToLower(string(s.queries[i]))
			if strings.HasPrefix(q, "set ") && strings.Contains(q, "@master_binlog_checksum") {
				aware = true
			}
		}
	}
	sym.Assert(aware, "@master_binlog_checksum is not set before the dump request")
	d := s.dumps[0]
	sym.Assert(d.server == id, "the dump request carries a wrong server id")
	sym.Assert(d.offset == off, "the dump request carries a wrong offset")
	sym.Assert(len(d.file) == len(file), "the dump request carries a wrong file name")
	sym.Assert(sym.EqStr(d.file, file), "the dump request carries a wrong file name")
	sym.Assert(d.flags&1 == 0, "the dump request is not blocking")
	sym.Reach("handshake")
	sym.Expect("handshake")
}

// C07_First covers every server id, offset and file name of a first attempt.
func C07_First() {
	id, off := sym.U32("server id"), sym.U32("offset")
	sym.Assume(off >= 4)
	n := []int{1, 16, 255}[sym.Choice("name length", 3)]
	file := string(sym.Bytes("file", n))
	ses := &session{end: endEOF}
	s := newStreamer(id, &mapper{}, file, off, ses)
	err := s.Stream(context.Background(), func(t *gobinlog.Transaction) error { return nil })
	sym.Assert(err == nil, "an empty stream fails")
	handshake(ses, id, file, off)
}

// the ways an attempt can fail before a dump request is answered
const (
	failDial = iota
	failAuth
	failSet
	failSetWrite
	failDumpWrite
	failNone
)

// C07_Attempts covers sequences of attempts on one streamer: attempts that
// fail before the dump, streams that end after some transactions, and
// positions set in between.
func C07_Attempts() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	id := sym.U32("server id")
	base := sym.U32("offset")
	sym.Assume(sym.And(base >= 4, base < 1<<32-100000))
	alg := byte(sym.Choice("checksum", 2))
	h := newHist(mk.Mysql56(alg), "bin.000001", base)
	for i := 0; i < n; i++ {
		h.statement(gobinlog.StatementDrop, "db", []byte("drop table t"))
	}
	h.rotate(string(sym.Bytes("name", 2)) + "-bin.0000002")
	for i := 0; i < n; i++ {
		h.statement(gobinlog.StatementDrop, "db", []byte("drop table t"))
	}

	type attempt struct {
		ses   *session
		ok    bool
		wantF string // position the attempt must ask for
		want  uint32
	}
	var as []*attempt
	var ss []*session
	file, off := "bin.000001", base
	for a := 0; a <= n; a++ {
		at := &attempt{ses: &session{end: endEOF}, wantF: file, want: off}
		k := failNone
		if a < n {
			k = sym.Choice("failure", failNone+1)
		}
		switch k {
		case failDial:
			at.ses.dialErr = errors.New("no route to host")
		case failAuth:
			at.ses.noAuth = []byte("\xff\x15\x04#28000Access denied")
		case failSet:
			at.ses.setReply = []byte("\xff\x48\x04#HY000no such variable")
		case failSetWrite:
			at.ses.failWrite = 1
		case failDumpWrite:
			at.ses.failWrite = 2
		default:
			at.ok = true
			cut := -1
			if a < n {
				cut = sym.Choice("events", n+2)
			}
			at.ses.serve = func(d dump) [][]byte {
				all := h.serve(d)
				c := 0
				for i, e := range h.sent {
					if e >= 0 {
						if c == cut {
							return all[:i]
						}
						c++
					}
				}
				return all
			}
			// the boundary that follows the events
			fi, j := h.locate(file, off)
			if fi == 1 {
				j += len(h.files[0].entries)
			}
			if cut > 0 {
				last := j + cut - 1
				if last >= 2*n+2 {
					last = 2*n + 1
				}
				e := h.entry(last)
				file, off = e.posF, e.pos
			}
		}
		as, ss = append(as, at), append(ss, at.ses)
	}
	s := newStreamer(id, h.m, "bin.000001", base, ss...)
	for _, at := range as {
		err := s.Stream(context.Background(), func(t *gobinlog.Transaction) error { return nil })
		if at.ok {
			sym.Assert(err == nil, "an attempt fails")
			handshake(at.ses, id, at.wantF, at.want)
			continue
		}
		sym.Assert(err != nil, "a failed attempt is not reported")
		sym.Assert(len(at.ses.dumps) == 0, "a dump is requested although the handshake failed")
		sym.Reach("failed attempt")
	}
	sym.Expect("failed attempt")
	// a position set by the caller is what the next attempt asks for
	id2 := sym.U32("set offset")
	last := &session{end: endEOF}
	current = &master{sessions: []*session{last}}
	s.SetBinlogPosition(gobinlog.Position{Filename: "set", Offset: int64(id2)})
	err := s.Stream(context.Background(), func(t *gobinlog.Transaction) error { return nil })
	sym.Assert(err == nil, "an attempt fails")
	handshake(last, id, "set", id2)
}
