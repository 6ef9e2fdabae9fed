package decode

import (
	"time"

	r "github.com/Breeze0806/gobinlog/replication"

	"verifh/sym"
)

// dec2 is the last n decimal digits of v.
func digits(v, n int) []byte {
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte('0' + v%10)
		v /= 10
	}
	return b
}

func clock(h, m, s int) []byte {
	hn := sym.Ite(h >= 100, 3, 2)
	b := append(digits(h, hn), ':')
	b = append(append(b, digits(m, 2)...), ':')
	return append(b, digits(s, 2)...)
}

func date(y, m, d int) []byte {
	b := append(digits(y, 4), '-')
	b = append(append(b, digits(m, 2)...), '-')
	return append(b, digits(d, 2)...)
}

var tens = [7]int{1, 10, 100, 1000, 10000, 100000, 1000000}

// frac draws a fraction of fsp digits, its storage and its text.
func frac(fsp int) (f int, raw, text []byte) {
	if fsp == 0 {
		return 0, nil, nil
	}
	f = sym.Int("fraction", 0, tens[fsp]-1)
	st := f
	if fsp%2 == 1 {
		st *= 10
	}
	return f, be(uint64(st), (fsp+1)/2), append([]byte{'.'}, digits(f, fsp)...)
}

// C12_Date covers every DATE, zero parts included.
func C12_Date() {
	y, m, d := sym.Int("year", 0, 9999), sym.Int("month", 0, 12), sym.Int("day", 0, 31)
	typ := byte(r.TypeDate)
	if sym.Choice("new date", 2) == 1 {
		typ = r.TypeNewDate
	}
	got := cell(le(uint64(y<<9|m<<5|d), 3), typ, 0, false)
	sym.Observe("text", got)
	same(got, date(y, m, d), "DATE text is wrong")
	sym.Reach("date")
	sym.Expect("date")
}

// C12_TimeOld covers every pre-5.6.4 TIME of both signs.
func C12_TimeOld() {
	neg := sym.Choice("negative", 2) == 1
	lo := [3]int{}
	if neg {
		// never zero: the lowest non-zero part is at least 1
		lo[sym.Choice("lowest part", 3)] = 1
		sym.Reach("time negative")
	}
	h := sym.Int("hour", lo[0], 838)
	m, s := 0, 0
	if lo[0] == 0 {
		m = sym.Int("minute", lo[1], 59)
		if lo[1] == 0 {
			s = sym.Int("second", lo[2], 59)
		}
	}
	v := int64(h*10000 + m*100 + s)
	want := clock(h, m, s)
	if neg {
		v = -v
		want = append([]byte{'-'}, want...)
	}
	got := cell(le(uint64(v), 3), r.TypeTime, 0, false)
	sym.Observe("text", got)
	same(got, want, "TIME text is wrong")
	sym.Reach("time")
	sym.Expect("time", "time negative")
}

// C12_DateTimeOld covers every pre-5.6.4 DATETIME.
func C12_DateTimeOld() {
	y, mo, d := sym.Int("year", 0, 9999), sym.Int("month", 0, 12), sym.Int("day", 0, 31)
	h, m, s := sym.Int("hour", 0, 23), sym.Int("minute", 0, 59), sym.Int("second", 0, 59)
	v := uint64(y*10000+mo*100+d)*1000000 + uint64(h*10000+m*100+s)
	got := cell(le(v, 8), r.TypeDateTime, 0, false)
	sym.Observe("text", got)
	want := append(append(date(y, mo, d), ' '), clock(h, m, s)...)
	same(got, want, "DATETIME text is wrong")
	sym.Reach("datetime")
	sym.Expect("datetime")
}

// C12_DateTime2 covers every DATETIME(0..6).
func C12_DateTime2() {
	fsp := sym.Choice("fsp", 7)
	y, mo, d := sym.Int("year", 0, 9999), sym.Int("month", 0, 12), sym.Int("day", 0, 31)
	h, m, s := sym.Int("hour", 0, 23), sym.Int("minute", 0, 59), sym.Int("second", 0, 59)
	_, fr, ft := frac(fsp)
	v := uint64((y*13+mo)<<5|d)<<17 | uint64(h<<12|m<<6|s)
	raw := append(be(v+0x8000000000, 5), fr...)
	got := cell(raw, r.TypeDateTime2, uint16(fsp), false)
	sym.Observe("text", got)
	want := append(append(append(date(y, mo, d), ' '), clock(h, m, s)...), ft...)
	same(got, want, "DATETIME text is wrong")
	sym.Reach("datetime2")
	sym.Expect("datetime2")
}

// C12_Time2 covers every TIME(0..6) of both signs.
func C12_Time2() {
	fsp := sym.Choice("fsp", 7)
	h, m, s := sym.Int("hour", 0, 838), sym.Int("minute", 0, 59), sym.Int("second", 0, 59)
	hms := int64(h<<12 | m<<6 | s)
	want := clock(h, m, s)
	var raw []byte
	f, fr, ft := frac(fsp)
	want = append(want, ft...)
	if sym.Choice("negative", 2) == 1 {
		sym.Assume(sym.Or(hms != 0, f != 0))
		want = append([]byte{'-'}, want...)
		// MySQL packs -(hms.frac) as one negative number
		n := (fsp + 1) / 2
		if fsp%2 == 1 {
			f *= 10
		}
		packed := -(hms<<(8*uint(n)) + int64(f))
		raw = be(uint64(packed)+uint64(0x800000)<<(8*uint(n)), 3+n)
		sym.Reach("time2 negative")
	} else {
		raw = append(be(uint64(hms)+0x800000, 3), fr...)
	}
	got := cell(raw, r.TypeTime2, uint16(fsp), false)
	sym.Observe("text", got)
	same(got, want, "TIME text is wrong")
	sym.Reach("time2")
	sym.Expect("time2", "time2 negative")
}

// stamp is the text of an instant in the local time zone.
func stamp(v uint32) []byte {
	if v == 0 {
		sym.Reach("timestamp zero")
		return []byte("0000-00-00 00:00:00")
	}
	sym.Reach("timestamp")
	t := time.Unix(int64(v), 0).In(time.Local)
	y, mo, d := t.Date()
	h, m, s := t.Clock()
	return append(append(date(y, int(mo), d), ' '), clock(h, m, s)...)
}

// C12_Timestamp covers every pre-5.6.4 TIMESTAMP in any time zone.
func C12_Timestamp() {
	v := sym.U32("instant")
	got := cell(le(uint64(v), 4), r.TypeTimestamp, 0, false)
	same(got, stamp(v), "TIMESTAMP text is wrong")
	sym.Expect("timestamp", "timestamp zero")
}

// C12_Timestamp2 covers every TIMESTAMP(0..6) in any time zone.
func C12_Timestamp2() {
	fsp := sym.Choice("fsp", 7)
	v := sym.U32("instant")
	f, fr, ft := frac(fsp)
	sym.Assume(sym.Or(v != 0, f == 0))
	raw := append(be(uint64(v), 4), fr...)
	got := cell(raw, r.TypeTimestamp2, uint16(fsp), false)
	same(got, append(stamp(v), ft...), "TIMESTAMP text is wrong")
	sym.Expect("timestamp", "timestamp zero")
}

// C12_Twice decodes two timestamps one after the other: the first text must
// not depend on what is decoded later, and zero stays zero.
func C12_Twice() {
	fsp := 1 + sym.Choice("fsp", 6)
	a := []byte{0, 0, 0, 0, 0, 0, 0}[:4+(fsp+1)/2]
	v := sym.U32("instant")
	_, fr, ft := frac(fsp)
	sym.Assume(v != 0)
	first := cell(a, r.TypeTimestamp2, uint16(fsp), false)
	second := cell(append(be(uint64(v), 4), fr...), r.TypeTimestamp2, uint16(fsp), false)
	third := cell([]byte{0, 0, 0, 0}, r.TypeTimestamp2, 0, false)
	zero := append([]byte("0000-00-00 00:00:00."), "000000"[:fsp]...)
	same(first, zero, "zero TIMESTAMP text is wrong")
	same(second, append(stamp(v), ft...), "TIMESTAMP text after a zero one is wrong")
	same(third, zero[:19], "zero TIMESTAMP text after another is wrong")
	sym.Reach("timestamps in sequence")
	sym.Expect("timestamps in sequence")
}
