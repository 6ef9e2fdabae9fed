package e2e

import (
	"context"

	gobinlog "github.com/Breeze0806/gobinlog"

	"verifh/mk"
	"verifh/sym"
)

// garbled runs a history with the packet at the index spoilt, checks what the
// streamer makes of it, and lets a second attempt complete it.
func garbled(h *hist, base uint32, at int, lockstep bool, spoil func(ps [][]byte) [][]byte) {
	ses := &session{end: endEOF, lockstep: lockstep}
	ntx := 0
	ses.serve = func(d dump) [][]byte {
		ps := h.serve(d)
		for i := 0; i < at; i++ {
			if h.sent[i] >= 0 {
				ntx = h.entry(h.sent[i]).ntx
			}
		}
		return spoil(ps)
	}
	t := newTrial(h, base)
	current = &master{sessions: []*session{ses}}
	handle := func(tr *gobinlog.Transaction) error {
		t.accepted = append(t.accepted, tr)
		return nil
	}
	err := t.s.Stream(context.Background(), handle)
	sym.Assert(err != nil, "a malformed packet does not end the stream with an error")
	sym.Assert(len(t.accepted) == ntx, "after a malformed packet the transactions delivered are not those before it")
	for i, tr := range t.accepted {
		h.exp[i].same(tr)
	}
	// the resume position
	ses = &session{serve: h.serve, end: endEOF}
	t.last = ses
	current = &master{sessions: []*session{ses}}
	n := len(t.accepted)
	err = t.s.Stream(context.Background(), handle)
	sym.Assert(err == nil, "streaming after a malformed packet fails")
	t.check(n)
	exactly(t.accepted, h.exp)
}

// mixed is a history with a transaction of several events, a statement, a
// rotation and changes without transaction.
func mixed(alg byte, base uint32) *hist {
	h := newHist(mk.Mysql56(alg), "bin.000001", base)
	mk.Plain = true
	w := newWriter(h)
	w.unit(unitDDL)
	w.unit(unitCommit)
	w.unit(unitRotate)
	w.unit(unitGtid)
	w.unit(unitXid)
	return h
}

// insert puts the packet before the index.
func insert(at int, p []byte) func(ps [][]byte) [][]byte {
	return func(ps [][]byte) [][]byte {
		return append(append(append([][]byte{}, ps[:at]...), p), ps[at:]...)
	}
}

// C17_Cut covers every event of a history cut at every length.
func C17_Cut() {
	alg, base := byte(sym.Choice("checksum", 2)), uint32(4)
	if alg == 0 {
		base = anyOffset()
	}
	h := mixed(alg, base)
	ps := h.serve(dump{file: "bin.000001", offset: base})
	at := sym.Choice("packet", len(ps))
	n := 1 + sym.Choice("length", len(ps[at])-1)
	garbled(h, base, at, true, func(ps [][]byte) [][]byte {
		ps = append([][]byte{}, ps...)
		ps[at] = ps[at][:n]
		return ps
	})
	sym.Reach("cut")
	sym.Expect("cut")
}

// C17_Extended covers every event of a history extended by arbitrary bytes.
func C17_Extended() {
	base := anyOffset()
	h := mixed(byte(sym.Choice("checksum", 2)), base)
	at := sym.Choice("packet", h.packets(base))
	n := []int{1, 2, 3, 4, 5, 19, 256, 5000}[sym.Choice("length", 8)]
	b := make([]byte, n)
	copy(b, sym.Bytes("extension", n%256%20))
	garbled(h, base, at, sym.Choice("lock step", 2) == 1, func(ps [][]byte) [][]byte {
		ps = append([][]byte{}, ps...)
		ps[at] = mk.Cat(ps[at], b)
		return ps
	})
	sym.Reach("extended")
	sym.Expect("extended")
}

// C17_Garbage covers packets of every length up to 64 at every place: too
// short ones and such whose length field disagrees. The type and the low bytes
// of the length field are symbolic; the error message spells out every byte in
// decimal, so the others are fixed, in three ways.
func C17_Garbage() {
	base := uint32(4)
	h := mixed(1, base)
	at := sym.Choice("packet", h.packets(base)+1)
	n := sym.Choice("length", 65)
	fill := []byte{0, 0xff, 0x13}[(n+at)%3]
	p := make([]byte, n)
	for i := range p {
		p[i] = fill
	}
	if n > 4 {
		p[4] = sym.Byte("type")
	}
	if n >= 13 {
		p[9] = sym.Byte("length field 0")
		if sym.Choice("high bytes zero", 2) == 1 {
			p[10], p[11], p[12] = 0, 0, 0
		}
	}
	if n >= 19 {
		sym.Assume(sym.Or(int(p[9]) != n, p[10] != 0, p[11] != 0, p[12] != 0))
	}
	garbled(h, base, at, at%2 == n%2, insert(at, mk.Cat([]byte{0}, p)))
	sym.Reach("garbage")
	sym.Expect("garbage")
}

// C17_Length covers well-formed events whose length field is anything else.
func C17_Length() {
	base := anyOffset()
	h := mixed(byte(sym.Choice("checksum", 2)), base)
	ps := h.serve(dump{file: "bin.000001", offset: base})
	at := sym.Choice("packet", len(ps))
	l := sym.U32("length field")
	sym.Assume(l != uint32(len(ps[at])-1))
	garbled(h, base, at, sym.Choice("lock step", 2) == 1, func(ps [][]byte) [][]byte {
		ps = append([][]byte{}, ps...)
		b := append([]byte{}, ps[at]...)
		copy(b[10:], mk.LE(uint64(l), 4))
		ps[at] = b
		return ps
	})
	sym.Reach("length")
	sym.Expect("length")
}
