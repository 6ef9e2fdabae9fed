package e2e

import (
	"verifh/mk"
	"verifh/sym"
)

// resume streams the binlog from the end label of every transaction in turn:
// the transactions that remain come with the same contents and labels.
func (h *hist) resume(base uint32) {
	h.runFrom("bin.000001", base, h.exp)
	k := sym.Choice("resumed after", len(h.exp))
	x := h.exp[k]
	h.runFrom(x.nextFile, x.next, h.exp[k+1:])
}

// anyOffsetUpTo leaves room for size bytes only.
func anyOffsetUpTo(size uint32) uint32 {
	base := sym.U32("offset")
	sym.Assume(sym.And(base >= 4, base <= 1<<32-1-size))
	return base
}

// C03_Chain covers sequences of units with rotations.
func C03_Chain() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	base := uint32(0)
	start := uint32(4)
	if sym.Choice("from", 2) == 1 {
		base = anyOffsetUpTo(4000)
		start = base
	}
	h := newHist(mk.Mysql56(byte(sym.Choice("checksum", 2))), "bin.000001", base)
	h.times = true
	if base == 0 {
		h.posF, h.pos = "bin.000001", 4
	}
	w := newWriter(h)
	for i := 0; i < n; i++ {
		switch k := sym.Choice("unit", 8); k {
		case 0:
			w.unit(unitXid)
		case 1:
			w.unit(unitDDL)
		case 2:
			w.unit(unitRollback)
		case 3:
			w.unit(unitRotate)
		case 4:
			w.nev++
			h.restart("aim.00000"+string(rune('1'+w.nev)), w.nev%2 == 0)
		case 5:
			w.unit(unitHeartbeat)
		case 6:
			w.unit(unitEmpty)
		default:
			w.unit(unitGtid)
			w.unit(unitRows)
		}
	}
	w.unit(unitCommit)
	h.resume(start)
	sym.Reach("resumed")
	sym.Expect("resumed")
}

// C03_Formats covers files written in different formats.
func C03_Formats() {
	base := anyOffsetUpTo(4000)
	h := formats(2, base)
	h.resume(base)
	sym.Reach("resumed")
	sym.Expect("resumed")
}

// C03_Names covers file names of any bytes and several lengths.
func C03_Names() {
	base := anyOffsetUpTo(4000)
	h := newHist(mk.Mysql56(1), "bin.000001", base)
	w := newWriter(h)
	w.unit(unitXid)
	a := []int{1, 11, 255, 511}[sym.Choice("length", 4)]
	b := []int{2, 12, 256, 500}[sym.Choice("length", 4)]
	h.rotate(string(sym.Bytes("name", a)))
	w.unit(unitDDL)
	w.unit(unitRows)
	if sym.Choice("rotation", 2) == 0 {
		h.rotate(string(sym.Bytes("name", b)))
	} else {
		h.restart(string(sym.Bytes("name", b)), true)
	}
	w.unit(unitXid)
	h.resume(base)
	sym.Reach("resumed")
	sym.Expect("resumed")
}

// C03_Targets covers rotations to any offset of the next file.
func C03_Targets() {
	base := anyOffsetUpTo(4000)
	h := newHist(mk.Mysql56(byte(sym.Choice("checksum", 2))), "bin.000001", base)
	w := newWriter(h)
	w.unit(unitXid)
	to := anyOffsetUpTo(4000)
	h.rotateAt("bin.000002", h.f, to)
	w.unit([]int{unitDDL, unitRows, unitEmpty, unitRollback, unitXid}[sym.Choice("unit", 5)])
	if sym.Choice("rotations", 2) == 1 {
		h.rotateAt("another", h.f, anyOffsetUpTo(4000))
	}
	w.unit(unitCommit)
	h.resume(base)
	sym.Reach("resumed")
	sym.Expect("resumed")
}
