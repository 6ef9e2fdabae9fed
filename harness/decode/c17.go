package decode

import (
	"verifh/mk"
	"verifh/sym"
)

// C17_Gate covers every packet of every length up to 16 MB: the gate accepts
// exactly the well-formed ones, whose header can then be read.
func C17_Gate() {
	maria := sym.Choice("flavor", 2) == 1
	lim := 1 << 24
	if sym.Thorough() {
		lim = 1 << 33
	}
	n := sym.Int("length", 0, lim)
	p := sym.Big("packet", n)
	ev := wrap(maria, p)
	got := ev.IsValid()
	if n < 19 {
		sym.Assert(!got, "a packet without a full header is accepted")
		sym.Reach("short")
		return
	}
	length := uint32(p[9]) | uint32(p[10])<<8 | uint32(p[11])<<16 | uint32(p[12])<<24
	sym.Assert(got == (uint64(length) == uint64(n)), "the gate does not compare the length field with the length")
	if !got {
		sym.Reach("wrong length")
		return
	}
	at := func(i, k int) uint64 {
		v := uint64(0)
		for j := 0; j < k; j++ {
			v |= uint64(p[i+j]) << (8 * uint(j))
		}
		return v
	}
	h := mk.Header{Time: uint32(at(0, 4)), Server: uint32(at(5, 4)), Next: uint32(at(13, 4)), Flags: uint16(at(17, 2))}
	fields(ev, h, p[4], n)
	kinds(ev, p[4], maria)
	sym.Assert(len(ev.Bytes()) == n, "the packet changes its length")
	sym.Reach("accepted")
	sym.Expect("short", "wrong length", "accepted")
}

// C17_Short covers all packets of 0..64 bytes with every byte arbitrary,
// including the nil packet.
func C17_Short() {
	maria := sym.Choice("flavor", 2) == 1
	n := sym.Choice("length", 65)
	var p []byte
	if n > 0 || sym.Choice("nil", 2) == 0 {
		p = sym.Bytes("packet", n)
	}
	ev := wrap(maria, p)
	if !ev.IsValid() {
		ok := n < 19
		if !ok {
			ok = sym.Or(int(p[9]) != n, p[10] != 0, p[11] != 0, p[12] != 0)
		}
		sym.Assert(ok, "a well-formed packet is refused")
		sym.Reach("refused")
		return
	}
	sym.Assert(n >= 19, "a packet without a full header is accepted")
	sym.Assert(sym.And(int(p[9]) == n, p[10] == 0, p[11] == 0, p[12] == 0), "a packet of the wrong length is accepted")
	kinds(ev, p[4], maria)
	sym.Reach("accepted")
	sym.Expect("refused", "accepted")
}
