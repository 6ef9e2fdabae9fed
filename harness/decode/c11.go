package decode

import (
	r "github.com/Breeze0806/gobinlog/replication"

	"verifh/sym"
)

var dig2bytes = [10]int{0, 1, 1, 2, 2, 3, 3, 4, 4, 4}
var pow9 = [10]int{1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000}

// decimal draws a DECIMAL(p,s) value, group by group, and gives its storage
// and its digits. Its integer part has n significant digits.
func decimal(p, s, n int) (raw, ip, fp []byte, zero bool) {
	zero = true
	group := func(w, sig int) []byte {
		lo, hi := 0, pow9[sig]-1
		if sig > 0 && sig < 10 && n > 0 && len(ip) == p-s-n-(w-sig) {
			lo = pow9[sig-1] // the most significant digit
		}
		g := 0
		if sig > 0 {
			g = sym.Int("group", lo, hi)
		}
		if w == 9 {
			raw = append(raw, be(uint64(g), 4)...)
		} else {
			raw = append(raw, be(uint64(g), dig2bytes[w])...)
		}
		zero = sym.And(zero, g == 0)
		return digits(g, w)
	}
	intg := p - s
	left := intg
	for left > 0 {
		w := left % 9
		if w == 0 {
			w = 9
		}
		left -= w
		sig := n - left
		if sig < 0 {
			sig = 0
		}
		if sig > w {
			sig = w
		}
		ip = append(ip, group(w, sig)...)
	}
	for left = s; left > 0; {
		w := left
		if w > 9 {
			w = 9
		}
		left -= w
		fp = append(fp, group(w, w)...)
	}
	return
}

func decimalCase(p, s int) {
	n := sym.Choice("integer digits", p-s+1)
	raw, ip, fp, zero := decimal(p, s, n)
	neg := sym.Choice("negative", 2) == 1
	var want []byte
	if neg {
		sym.Assume(!zero) // MySQL stores no negative zero
		for i := range raw {
			raw[i] ^= 0xff
		}
		want = append(want, '-')
		sym.Reach("decimal negative")
	}
	raw[0] ^= 0x80
	got := cell(raw, r.TypeNewDecimal, uint16(p)<<8|uint16(s), false)
	sym.Observe("text", got)
	ip = ip[p-s-n:]
	if n == 0 {
		ip = []byte{'0'}
		sym.Reach("decimal no integer part")
	}
	want = append(want, ip...)
	if s > 0 {
		want = append(append(want, '.'), fp...)
	}
	same(got, want, "DECIMAL text is wrong")
	sym.Reach("decimal")
	sym.Expect("decimal", "decimal negative", "decimal no integer part")
}

// shape explores every (p,s) with p in lo..hi.
func shapes(lo, hi int) {
	p := lo + sym.Choice("precision", hi-lo+1)
	m := p
	if m > 30 {
		m = 30
	}
	s := sym.Choice("scale", m+1)
	decimalCase(p, s)
}

func C11_To9()  { shapes(1, 9) }
func C11_To18() { shapes(10, 18) }
func C11_To27() { shapes(19, 27) }
func C11_To36() { shapes(28, 36) }
func C11_To45() { shapes(37, 45) }
func C11_To54() { shapes(46, 54) }
func C11_To65() { shapes(55, 65) }
