package decode

import (
	"strconv"

	r "github.com/Breeze0806/gobinlog/replication"

	"verifh/mk"
	"verifh/sym"
)

// number draws a number lo..hi: a wide one takes any value, another one has
// one digit.
func number(name string, wide bool, lo, hi uint64) uint64 {
	v := sym.U64(name)
	if !wide {
		hi = 9
	}
	sym.Assume(sym.And(v >= lo, v <= hi))
	return v
}

// again checks that a GTID survives its texts.
func again(g r.GTID, flavor string, want func(r.GTID) bool) {
	check := func(x r.GTID, err error, msg string) {
		if err != nil {
			sym.Fail(msg + ": error")
		}
		if x == nil {
			sym.Fail(msg + ": nothing")
		}
		sym.Assert(want(x), msg+": another value")
		sym.Assert(x == g, msg+": not equal")
	}
	if g.Flavor() != flavor {
		sym.Fail("the flavor of a GTID is wrong")
	}
	x, err := r.ParseGTID(flavor, g.String())
	check(x, err, "a GTID parsed from its text")
	x, err = r.DecodeGTID(r.EncodeGTID(g))
	check(x, err, "a GTID decoded from its encoding")
	check(r.MustDecodeGTID(r.EncodeGTID(g)), nil, "a GTID decoded from its encoding")
	check(r.MustParseGTID(flavor, g.String()), nil, "a GTID parsed from its text")
}

func is56(sid [16]byte, seq uint64) func(r.GTID) bool {
	return func(g r.GTID) bool {
		x, ok := g.(r.Mysql56GTID)
		return sym.And(ok, sym.Eq(x.Server[:], sid[:]), x.Sequence == int64(seq))
	}
}

func isMaria(d, s uint32, n uint64) func(r.GTID) bool {
	return func(g r.GTID) bool {
		x, ok := g.(r.MariadbGTID)
		return sym.And(ok, x.Domain == d, x.Server == s, x.Sequence == n)
	}
}

func anySid(name string) (sid [16]byte) {
	copy(sid[:], sym.Bytes(name, 16))
	return
}

// C19_Mysql56 covers every MySQL GTID.
func C19_Mysql56() {
	sid, seq := anySid("sid"), mkSeq("sequence")
	g := r.Mysql56GTID{Server: sid, Sequence: int64(seq)}
	again(g, "MySQL56", is56(sid, seq))
	s, err := r.ParseSID(r.SID(sid).String())
	if err != nil {
		sym.Fail("a server id is not parsed from its text")
	}
	sym.Assert(sym.Eq(s[:], sid[:]), "a server id is changed by its text")
}

// C19_Maria covers every MariaDB GTID.
func C19_Maria() {
	wide := sym.Choice("wide", 3)
	all := sym.Thorough()
	d := uint32(number("domain", all || wide == 0, 0, 1<<32-1))
	s := uint32(number("server", all || wide == 1, 0, 1<<32-1))
	n := number("sequence", all || wide == 2, 0, 1<<64-1)
	again(r.MariadbGTID{Domain: d, Server: s, Sequence: n}, "MariaDB", isMaria(d, s, n))
}

// C19_Nil covers the encoding of no GTID.
func C19_Nil() {
	g, err := r.DecodeGTID(r.EncodeGTID(nil))
	if g != nil || err != nil {
		sym.Fail("no GTID is decoded to something")
	}
}

// textIvs draws canonical intervals whose texts have few shapes, except that
// the wide one is arbitrary.
func textIvs(k, wide int, high bool, phase int) []iv {
	var out []iv
	last := uint64(0)
	for i := 0; i < k; i++ {
		v := iv{sym.U64("start"), sym.U64("end")}
		lo := last + 2
		if i == 0 {
			lo = 1
		}
		if i == wide {
			lim := uint64(maxSeq)
			if !high {
				lim = 99999
			}
			sym.Assume(sym.And(v.start >= lo, v.start <= v.end, v.end <= lim))
			if i+1 < k { // leave room
				sym.Assume(v.end <= maxSeq-100)
			}
			last = v.end
			out = append(out, v)
			continue
		}
		if wide >= 0 && i > wide { // a few steps after the wide one
			d, e := sym.Int("gap", 2, 9), sym.Int("size", 0, 3)
			v = iv{last + uint64(d), last + uint64(d+e)}
			if sym.Choice("single", 2) == 1 {
				v.end = v.start
			}
			last = v.end
			out = append(out, v)
			continue
		}
		base := uint64(10 * i)
		if (i+phase)%2 == 0 { // a single number
			v.end = v.start
			sym.Assume(sym.And(v.start >= base+1, v.end <= base+8))
		} else {
			sym.Assume(sym.And(v.start >= base+1, v.end <= base+8, v.start < v.end))
		}
		last = base + 8
		out = append(out, v)
	}
	return out
}

// anyOrder makes the library meet the servers of a set of n in any order, in
// two orders when there are many.
func anyOrder(n int) {
	if n != 4 {
		sym.MapOrder(true)
	}
}

// C19_Mysql56Set covers sets of 0..8 servers.
func C19_Mysql56Set() {
	n := sym.Choice("servers", 9)
	sids := mkSids(n, []int{0, 6, 15}[sym.Choice("byte", 3)])
	var g gset
	for i, sid := range sids {
		if i == n/2 {
			k := 1 + sym.Choice("intervals", 2)
			g = append(g, member{sid, textIvs(k, k-1, n == 1 || n == 4, i)})
		} else {
			g = append(g, member{sid, textIvs(1, -1, false, i+n)})
		}
	}
	set := g.set()
	anyOrder(n)
	text := set.String()
	sym.MapOrder(false)
	back, err := r.VerifParseGTIDSet("MySQL56", text)
	if err != nil {
		sym.Fail("a set is not parsed from its text: error")
	}
	g.is(back, "a set parsed from its text")
	sym.Assert(back.Equal(set) && set.Equal(back), "a set parsed from its text is not equal")
	if set.Flavor() != "MySQL56" {
		sym.Fail("the flavor of a set is wrong")
	}
}

// C19_ServerText parses the text a MySQL server prints.
func C19_ServerText() {
	n := 1 + sym.Choice("servers", 3)
	sep := []string{",", ",\n", ", "}[sym.Choice("separator", 3)]
	sids := mkSids(n, 15)
	var g gset
	text := ""
	for i, sid := range sids {
		m := member{sid, textIvs(1+(i+n)%2, -1, false, i)}
		if i > 0 {
			text += sep
		}
		text += r.SID(sid).String()
		for _, v := range m.ivs {
			text += ":" + strconv.FormatUint(v.start, 10)
			if v.end != v.start {
				text += "-" + strconv.FormatUint(v.end, 10)
			}
		}
		g = append(g, m)
	}
	set, err := r.VerifParseGTIDSet("MySQL56", text)
	if err != nil {
		sym.Fail("a set is not parsed from the server's text: error")
	}
	g.is(set, "a set parsed from the server's text")
}

// C19_Block covers the binary form of sets of 0..8 servers.
func C19_Block() {
	n := sym.Choice("servers", 9)
	var g gset
	sids := mkSids(n, []int{0, 9, 15}[sym.Choice("byte", 3)])
	k := 3
	if sym.Thorough() {
		k = 6
	}
	for i, sid := range sids {
		c := 1 + i%2
		if i == n/2 {
			c = 1 + sym.Choice("intervals", k)
		}
		g = append(g, member{sid, mkIvs("interval", c)})
	}
	set := g.set()
	g.is(set, "a set from a SID block")
	anyOrder(n)
	b := set.SIDBlock()
	sym.MapOrder(false)
	back, err := r.NewMysql56GTIDSetFromSIDBlock(b)
	if err != nil {
		sym.Fail("a SID block is rejected")
	}
	g.is(back, "a set from its SID block")
	sym.Assert(back.Equal(set) && set.Equal(back), "a set from its SID block is not equal")
	for _, m := range g { // its members
		q := mkSeq("probe")
		sym.Assert(back.ContainsGTID(gtid(m.sid, q)) == g.has(m.sid, q), "a set from its SID block has other members")
		break
	}
}

// C19_Previous covers previous-GTIDs events.
func C19_Previous() {
	f := mk.Mysql56(algs[sym.Choice("algorithm", 3)])
	n := sym.Choice("servers", 5)
	var g gset
	for i, sid := range mkSids(n, 15) {
		g = append(g, member{sid, mkIvs("interval", 1+(i+n)%3)})
	}
	h := header()
	ev := stripped(f, format(f), f.Event(35, h, g.block()))
	if !ev.IsPreviousGTIDs() {
		sym.Fail("a previous-GTIDs event is not recognised")
	}
	set, err := ev.PreviousGTIDs(format(f))
	if err != nil {
		sym.Fail("a previous-GTIDs event is not decoded")
	}
	g.is(set, "the previous GTIDs")
}

// C19_Event covers GTID events.
func C19_Event() {
	f := mk.Mysql56(algs[sym.Choice("algorithm", 3)])
	h := header()
	sid, seq := anySid("sid"), mkSeq("sequence")
	// later servers append a logical clock and commit timestamps
	extra := sym.Bytes("extra", []int{0, 17, 24, 42}[sym.Choice("tail", 4)])
	body := mk.Cat(sym.Bytes("gtid flags", 1), sid[:], le(seq, 8), extra)
	ev := stripped(f, format(f), f.Event(33, h, body))
	if !ev.IsGTID() {
		sym.Fail("a GTID event is not recognised")
	}
	g, begin, err := ev.GTID(format(f))
	if err != nil {
		sym.Fail("a GTID event is not decoded")
	}
	if begin {
		sym.Fail("a MySQL GTID event begins a transaction")
	}
	sym.Assert(is56(sid, seq)(g), "the GTID of an event is wrong")
}

// C19_MariaEvent covers MariaDB's GTID events.
func C19_MariaEvent() {
	f := mk.Mysql56(algs[sym.Choice("algorithm", 3)])
	f.Maria = true
	h := header()
	d, flags, n := sym.U32("domain"), sym.Byte("flags2"), mkSeq("sequence")
	extra := sym.Bytes("extra", []int{0, 6, 8}[sym.Choice("tail", 3)])
	ev := stripped(f, format(f), f.Event(162, h, mk.Cat(le(n, 8), le(uint64(d), 4), []byte{flags}, extra)))
	if !ev.IsGTID() {
		sym.Fail("a GTID event is not recognised")
	}
	g, begin, err := ev.GTID(format(f))
	if err != nil {
		sym.Fail("a GTID event is not decoded")
	}
	sym.Assert(begin == (flags&1 == 0), "the begin flag of a GTID event is wrong")
	sym.Assert(isMaria(d, h.Server, n)(g), "the GTID of an event is wrong")
}

// mset is the model of a MariaDB set: one entry per domain.
type mset []r.MariadbGTID

// mariaSet draws n entries of distinct domains.
func mariaSet(name string, n int) mset {
	var m mset
	ok := true
	for i := 0; i < n; i++ {
		g := r.MariadbGTID{Domain: sym.U32(name + " domain"), Server: sym.U32(name + " server"), Sequence: sym.U64(name + " sequence")}
		for _, o := range m {
			ok = sym.And(ok, g.Domain != o.Domain)
		}
		m = append(m, g)
	}
	sym.Assume(ok)
	return m
}

// spare gives the set room to grow in place.
func (m mset) set(spare int) r.MariadbGTIDSet {
	s := make(r.MariadbGTIDSet, 0, len(m)+spare)
	return append(s, m...)
}

func sameGTID(a, b r.MariadbGTID) bool {
	return sym.And(a.Domain == b.Domain, a.Server == b.Server, a.Sequence == b.Sequence)
}

// plus is the union with g.
func (m mset) plus(g r.MariadbGTID) mset {
	out := append(mset{}, m...)
	for i, o := range out {
		if o.Domain == g.Domain {
			if g.Sequence > o.Sequence {
				out[i] = g
			}
			return out
		}
	}
	return append(out, g)
}

// is checks that s holds the model's entries, one per domain.
func (m mset) is(x r.GTIDSet, msg string) {
	s, ok := x.(r.MariadbGTIDSet)
	if !ok {
		sym.Fail(msg + ": another kind of set")
	}
	if len(s) != len(m) {
		sym.Fail(msg + ": the number of entries is wrong")
	}
	for _, g := range m {
		found := false
		for _, o := range s {
			found = sym.Or(found, sameGTID(g, o))
		}
		sym.Assert(found, msg+": wrong entries")
	}
	for i, a := range s {
		for _, b := range s[:i] {
			sym.Assert(a.Domain != b.Domain, msg+": two entries of one domain")
		}
	}
}

// has is containment.
func (m mset) has(g r.MariadbGTID) bool {
	in := false
	for _, o := range m {
		in = sym.Or(in, sym.And(o.Domain == g.Domain, o.Sequence >= g.Sequence))
	}
	return in
}

// C19_MariaAdd adds GTIDs to a set and checks that no set changes.
func C19_MariaAdd() {
	n := sym.Choice("members", 4)
	m := mariaSet("set", n)
	s := m.set(sym.Choice("spare", 3))
	x, y := mariaSet("x", 1)[0], mariaSet("y", 1)[0]
	a := s.AddGTID(x)
	m.is(s, "the set that was added to")
	mx := m.plus(x)
	mx.is(a, "the sum of a set and a GTID")
	if !a.ContainsGTID(x) {
		sym.Fail("the sum does not contain the added GTID")
	}
	b := s.AddGTID(y)
	m.is(s, "the set that was added to twice")
	mx.is(a, "the first sum after the second")
	m.plus(y).is(b, "the second sum")
	c := a.AddGTID(y)
	m.is(s, "the set below a sum that was added to")
	mx.is(a, "the sum that was added to")
	mx.plus(y).is(c, "the sum of a set and two GTIDs")
	m.plus(y).is(b, "an unrelated sum")
}

// C19_MariaGrow grows a set from one GTID.
func C19_MariaGrow() {
	steps := 3
	if sym.Thorough() {
		steps = 4
	}
	g := mariaSet("first", 1)
	m := append(mset{}, g...)
	s := g[0].GTIDSet()
	for i := 0; i < steps; i++ {
		before, prev := m, s
		x := mariaSet("next", 1)[0]
		s = s.AddGTID(x)
		m = m.plus(x)
		m.is(s, "the sum of GTIDs")
		before.is(prev, "the set before an addition")
	}
}

// C19_MariaContains compares sequence numbers within a domain.
func C19_MariaContains() {
	k := 4
	if sym.Thorough() {
		k = 5
	}
	m, o := mariaSet("a", sym.Choice("members", k)), mariaSet("b", sym.Choice("others", k))
	s, t := m.set(0), o.set(0)
	probe := mariaSet("probe", 1)[0]
	sym.Assert(s.ContainsGTID(probe) == m.has(probe), "membership is wrong")
	all := true
	for _, g := range o {
		all = sym.And(all, m.has(g))
	}
	sym.Assert(s.Contains(t) == all, "the superset test is wrong")
	m.is(s, "the set that was compared")
	o.is(t, "the other set that was compared")
	if all {
		sym.Reach("superset")
	} else {
		sym.Reach("no superset")
	}
	sym.Expect("superset", "no superset")
}

// C19_MariaSet covers the texts of sets of 1..8 entries.
func C19_MariaSet() {
	n := 1 + sym.Choice("members", 8)
	wide := sym.Choice("wide", 4) // which number of the middle entry is wide
	var m mset
	for i := 0; i < n; i++ {
		mid := i == n/2
		g := r.MariadbGTID{
			Domain:   uint32(i),
			Server:   uint32(number("server", mid && wide == 1, 0, 1<<32-1)),
			Sequence: number("sequence", mid && wide == 2, 0, 1<<64-1),
		}
		if mid && wide == 0 {
			g.Domain = uint32(number("domain", true, 8, 1<<32-1))
		} else if wide == 3 {
			g.Domain = uint32(n - i)
		}
		m = append(m, g)
	}
	s := m.set(0)
	x, err := r.VerifParseGTIDSet("MariaDB", s.String())
	if err != nil {
		sym.Fail("a set is not parsed from its text: error")
	}
	m.is(x, "a set parsed from its text")
	sym.Assert(x.Equal(s) && s.Equal(x), "a set parsed from its text is not equal")
	if s.Flavor() != "MariaDB" {
		sym.Fail("the flavor of a set is wrong")
	}
}

// C19_MariaDomains parses texts that may name a domain several times.
func C19_MariaDomains() {
	var text string
	var gs []r.MariadbGTID
	n := 2 + sym.Choice("members", 2)
	for i := 0; i < n; i++ {
		g := r.MariadbGTID{Domain: uint32(number("domain", false, 0, 9)), Server: uint32(number("server", false, 0, 9)), Sequence: number("sequence", false, 1, 9)}
		gs = append(gs, g)
		if i > 0 {
			text += ","
		}
		text += g.String()
	}
	x, err := r.VerifParseGTIDSet("MariaDB", text)
	if err != nil {
		dup := false
		for i, a := range gs {
			for _, b := range gs[:i] {
				dup = sym.Or(dup, a.Domain == b.Domain)
			}
		}
		sym.Assert(dup, "a set of several domains is not parsed")
		return
	}
	s := x.(r.MariadbGTIDSet)
	for i, a := range s {
		for _, b := range s[:i] {
			sym.Assert(a.Domain != b.Domain, "a parsed set has two positions of one domain")
		}
	}
}
