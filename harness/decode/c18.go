package decode

import (
	r "github.com/Breeze0806/gobinlog/replication"

	"verifh/sym"
)

// iv is an interval of sequence numbers, both ends included.
type iv struct{ start, end uint64 }

// member is the transactions of one server in a set.
type member struct {
	sid [16]byte
	ivs []iv
}

// gset is the model of a canonical set: sorted servers, sorted intervals.
type gset []member

const maxSeq = 1<<63 - 1

// mkIvs draws k intervals in canonical form.
func mkIvs(name string, k int) []iv {
	var out []iv
	ok := true
	last := uint64(0)
	for i := 0; i < k; i++ {
		v := iv{sym.U64(name + " start"), sym.U64(name + " end")}
		if i == 0 {
			ok = sym.And(ok, v.start >= 1)
		} else {
			ok = sym.And(ok, v.start > last, v.start-last > 1) // disjoint and not adjacent
		}
		ok = sym.And(ok, v.start <= v.end, v.end <= maxSeq)
		last = v.end
		out = append(out, v)
	}
	sym.Assume(ok)
	return out
}

// mkSids draws n servers in ascending order that differ in the byte at pos.
func mkSids(n, pos int) [][16]byte {
	base := sym.Bytes("sid", 16)
	out := make([][16]byte, n)
	for i := range out {
		copy(out[i][:], base)
		out[i][pos] = byte(i*28 + 9)
	}
	return out
}

// block is the master's encoding of the set.
func (g gset) block() []byte {
	b := le(uint64(len(g)), 8)
	for _, m := range g {
		b = append(b, m.sid[:]...)
		b = append(b, le(uint64(len(m.ivs)), 8)...)
		for _, v := range m.ivs {
			b = append(b, le(v.start, 8)...)
			b = append(b, le(v.end+1, 8)...)
		}
	}
	return b
}

func (g gset) set() r.Mysql56GTIDSet {
	s, err := r.NewMysql56GTIDSetFromSIDBlock(g.block())
	if err != nil {
		sym.Fail("a SID block is rejected")
	}
	return s
}

func le64(b []byte) uint64 {
	var v uint64
	for i := 0; i < 8; i++ {
		v |= uint64(b[i]) << (8 * uint(i))
	}
	return v
}

// read takes a SID block apart; a malformed one is a violation.
func read(b []byte) gset {
	pos := 0
	take := func(n int) []byte {
		if len(b)-pos < n {
			sym.Fail("the SID block of a set is malformed")
		}
		pos += n
		return b[pos-n : pos]
	}
	var g gset
	n := le64(take(8))
	if n > 64 {
		sym.Fail("the SID block of a set is malformed")
	}
	for i := 0; i < int(n); i++ {
		var m member
		copy(m.sid[:], take(16))
		k := le64(take(8))
		if k > 64 {
			sym.Fail("the SID block of a set is malformed")
		}
		for j := 0; j < int(k); j++ {
			m.ivs = append(m.ivs, iv{le64(take(8)), le64(take(8)) - 1})
		}
		g = append(g, m)
	}
	if pos != len(b) {
		sym.Fail("the SID block of a set is malformed")
	}
	return g
}

// has is membership in the model.
func (g gset) has(sid [16]byte, seq uint64) bool {
	in := false
	for _, m := range g {
		same := sym.Eq(m.sid[:], sid[:])
		for _, v := range m.ivs {
			in = sym.Or(in, sym.And(same, v.start <= seq, seq <= v.end))
		}
	}
	return in
}

// less orders servers.
func less(a, b [16]byte) bool {
	lt, eq := false, true
	for i := range a {
		lt = sym.Or(lt, sym.And(eq, a[i] < b[i]))
		eq = sym.And(eq, a[i] == b[i])
	}
	return lt
}

// canonical tells whether the set is in canonical form.
func (g gset) canonical() bool {
	ok := true
	for i, m := range g {
		if i > 0 {
			ok = sym.And(ok, less(g[i-1].sid, m.sid))
		}
		if len(m.ivs) == 0 {
			return false
		}
		for j, v := range m.ivs {
			ok = sym.And(ok, v.start >= 1, v.start <= v.end, v.end <= maxSeq)
			if j > 0 {
				ok = sym.And(ok, v.start > m.ivs[j-1].end, v.start-m.ivs[j-1].end > 1)
			}
		}
	}
	return ok
}

// inside tells whether every transaction of b is one of a: the first
// transaction of b outside a would start an interval of b or follow one of a.
func inside(b, a gset) bool {
	miss := false
	for _, m := range b {
		for _, v := range m.ivs {
			miss = sym.Or(miss, !(a.has(m.sid, v.start)))
		}
		for _, n := range a {
			for _, v := range n.ivs {
				q := v.end + 1
				miss = sym.Or(miss, sym.And(sym.Eq(n.sid[:], m.sid[:]), q <= maxSeq, b.has(m.sid, q), !(a.has(m.sid, q))))
			}
		}
	}
	return !(miss)
}

func gtid(sid [16]byte, seq uint64) r.GTID { return r.Mysql56GTID{Server: sid, Sequence: int64(seq)} }

// is checks that a set is exactly the model, in canonical form.
func (g gset) is(s r.GTIDSet, msg string) {
	got := g.asSet(s, msg)
	sym.Assert(got.canonical(), msg+": not in canonical form")
	sym.Assert(sym.And(inside(got, g), inside(g, got)), msg+": wrong members")
}

func (g gset) asSet(s r.GTIDSet, msg string) gset {
	m, ok := s.(r.Mysql56GTIDSet)
	if !ok {
		sym.Fail(msg + ": another kind of set")
	}
	got := read(m.SIDBlock())
	if sids := m.SIDs(); len(sids) != len(got) {
		sym.Fail(msg + ": SIDs misses servers")
	} else {
		for i, sid := range sids {
			sym.Assert(sym.Eq(sid[:], got[i].sid[:]), msg+": SIDs are wrong")
		}
	}
	return got
}

// plus is the model's union with one GTID.
func (g gset) plus(sid [16]byte, seq uint64) gset {
	return append(append(gset{}, g...), member{sid, []iv{{seq, seq}}})
}

func mkSeq(name string) uint64 {
	q := sym.U64(name)
	sym.Assume(sym.And(q >= 1, q <= maxSeq))
	return q
}

// C18_Add adds any GTID to any canonical set: the inductive step of every
// sequence of additions.
func C18_Add() {
	most, k := 4, 5
	if sym.Thorough() {
		most, k = 5, 13
	}
	n := sym.Choice("servers", most)
	sids := mkSids(n+1, []int{0, 7, 15}[sym.Choice("byte", 3)])
	target := sym.Choice("target", n+1) // index among all servers
	known := n > 0 && sym.Choice("known", 2) == 1
	var g gset
	for i, sid := range sids {
		switch {
		case i == target && known:
			g = append(g, member{sid, mkIvs("target", 1+sym.Choice("intervals", k))})
		case i != target && len(g) < n:
			g = append(g, member{sid, mkIvs("other", 1+i%2)})
		}
	}
	seq := mkSeq("sequence")
	old := g.set()
	before := old.SIDBlock()
	sum := old.AddGTID(gtid(sids[target], seq))
	g.plus(sids[target], seq).is(sum, "the sum of a set and a GTID")
	same(old.SIDBlock(), before, "AddGTID altered its receiver")
	if x, ok := sum.(r.Mysql56GTIDSet); ok {
		sym.Assert(x.ContainsGTID(gtid(sids[target], seq)), "the sum does not contain the added GTID")
		sym.Assert(x.Contains(old), "the sum is no superset")
	}
	if known {
		sym.Reach("known server")
	} else {
		sym.Reach("new server")
	}
	sym.Expect("known server", "new server")
}

// C18_Sids adds GTIDs of servers that are arbitrary 16-byte strings.
func C18_Sids() {
	var g gset
	var set r.GTIDSet = r.Mysql56GTIDSet{}
	steps := 2
	if sym.Thorough() {
		steps = 3
	}
	for i := 0; i < steps; i++ {
		var sid [16]byte
		copy(sid[:], sym.Bytes("server", 16))
		seq := mkSeq("sequence")
		set = set.AddGTID(gtid(sid, seq))
		g = g.plus(sid, seq)
	}
	g.is(set, "the sum of GTIDs")
}

// C18_Branch derives several sets from one and checks that none disturbs
// another.
func C18_Branch() {
	k := 3
	if sym.Thorough() {
		k = 5
	}
	sids := mkSids(2, 15)
	g := gset{{sids[0], mkIvs("first", sym.Choice("intervals", k)+1)}}
	if sym.Choice("servers", 2) == 1 {
		g = append(g, member{sids[1], mkIvs("second", 1)})
	}
	t := sids[sym.Choice("target", 2)]
	x, y := mkSeq("x"), mkSeq("y")
	old := g.set()
	before := old.SIDBlock()
	a := old.AddGTID(gtid(t, x))
	aBlock := a.(r.Mysql56GTIDSet).SIDBlock()
	b := old.AddGTID(gtid(t, y))
	same(old.SIDBlock(), before, "AddGTID altered its receiver")
	same(a.(r.Mysql56GTIDSet).SIDBlock(), aBlock, "AddGTID altered another set derived from its receiver")
	bBlock := b.(r.Mysql56GTIDSet).SIDBlock()
	c := a.AddGTID(gtid(t, y))
	same(a.(r.Mysql56GTIDSet).SIDBlock(), aBlock, "AddGTID altered its receiver")
	same(old.SIDBlock(), before, "AddGTID altered the set its receiver derives from")
	same(b.(r.Mysql56GTIDSet).SIDBlock(), bBlock, "AddGTID altered an unrelated set")
	g.plus(t, x).plus(t, y).is(c, "the sum of a set and two GTIDs")
	g.plus(t, y).is(b, "the sum of a set and a GTID")
}

// C18_History adds GTIDs one by one to the empty set.
func C18_History() {
	steps := 3
	if sym.Thorough() {
		steps = 5
	}
	sids := mkSids(2, 0)
	var g gset
	var set r.GTIDSet = r.Mysql56GTIDSet{}
	for i := 0; i < steps; i++ {
		sid := sids[sym.Choice("server", 2)]
		seq := mkSeq("sequence")
		if i == 0 && sym.Choice("start", 2) == 1 {
			set = gtid(sid, seq).GTIDSet()
		} else {
			set = set.AddGTID(gtid(sid, seq))
		}
		g = g.plus(sid, seq)
		g.is(set, "the sum of GTIDs")
	}
}

// C18_Window runs long histories of one server in a small window.
func C18_Window() {
	w, steps := 3, 5
	if sym.Thorough() {
		w, steps = 4, 7
	}
	sids := mkSids(1, 0)
	base := sym.U64("base")
	sym.Assume(sym.And(base >= 1, base <= maxSeq-16))
	var set r.GTIDSet = r.Mysql56GTIDSet{}
	var g gset
	for i := 0; i < steps; i++ {
		seq := base + uint64(sym.Choice("offset", w))*uint64(1+i%2)
		set = set.AddGTID(gtid(sids[0], seq))
		g = g.plus(sids[0], seq)
	}
	g.is(set, "the sum of GTIDs")
}

// C18_Member tests membership.
func C18_Member() {
	most, k := 4, 5
	if sym.Thorough() {
		most, k = 5, 12
	}
	n := sym.Choice("servers", most)
	sids := mkSids(n+1, []int{0, 7, 15}[sym.Choice("byte", 3)])
	foreign := sym.Choice("foreign", n+1)
	target := sym.Choice("target", n+1)
	var g gset
	for i, sid := range sids {
		switch {
		case i == foreign:
		case i == target:
			g = append(g, member{sid, mkIvs("target", 1+sym.Choice("intervals", k))})
		default:
			g = append(g, member{sid, mkIvs("other", 1+i%2)})
		}
	}
	set := g.set()
	seq := mkSeq("sequence")
	sym.Assert(set.ContainsGTID(gtid(sids[target], seq)) == g.has(sids[target], seq), "membership is wrong")
	sym.Assert(!set.ContainsGTID(r.MariadbGTID{Domain: 1, Server: 2, Sequence: 3}), "a set contains another flavor's GTID")
}

// pair draws two sets over the same servers.
func pair(n, most int) (a, b gset) {
	sids := mkSids(n, []int{0, 15}[sym.Choice("byte", 2)])
	draw := func(name string) gset {
		var g gset
		for _, sid := range sids {
			if k := sym.Choice(name+" intervals", most+1); k > 0 {
				g = append(g, member{sid, mkIvs(name, k)})
			}
		}
		return g
	}
	return draw("a"), draw("b")
}

func related(a, b gset) {
	x, y := a.set(), b.set()
	xb, yb := x.SIDBlock(), y.SIDBlock()
	sym.MapOrder(true)
	sub, eq := x.Contains(y), x.Equal(y)
	sym.MapOrder(false)
	in := inside(b, a)
	sym.Assert(sub == in, "the superset test is wrong")
	sym.Assert(eq == sym.And(in, inside(a, b)), "the equality test is wrong")
	same(x.SIDBlock(), xb, "a comparison altered the set")
	same(y.SIDBlock(), yb, "a comparison altered its argument")
	if sub {
		sym.Reach("superset")
	}
	if eq {
		sym.Reach("equal")
	} else {
		sym.Reach("different")
	}
	sym.Expect("superset", "equal", "different")
}

// C18_Pairs compares sets of one server with several intervals.
func C18_Pairs() {
	k := 3
	if sym.Thorough() {
		k = 5
	}
	related(pair(1, k))
}

// C18_Servers compares sets of several servers.
func C18_Servers() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	related(pair(n, 1))
}

// C18_Mixed compares sets of two servers with up to two intervals each.
func C18_Mixed() { related(pair(2, 2)) }

// C18_Other compares with sets of another flavor and adds foreign GTIDs.
func C18_Other() {
	sids := mkSids(2, 3)
	g := gset{{sids[0], mkIvs("a", sym.Choice("intervals", 3)+1)}}
	if sym.Choice("empty", 2) == 1 {
		g = nil
	}
	x := g.set()
	m := r.MariadbGTIDSet{{Domain: 1, Server: 2, Sequence: 3}}
	sym.Assert(!x.Contains(m) && !x.Equal(m), "a set is compared with another flavor's")
	g.is(x.AddGTID(m[0]), "the sum with another flavor's GTID")
	g.is(x, "a set from a SID block")
	sym.Assert(x.Equal(x) && x.Contains(x) && x.Contains(r.Mysql56GTIDSet{}), "a set does not contain itself")
	sym.Assert(x.Equal(r.Mysql56GTIDSet{}) == (len(g) == 0), "the equality test is wrong")
}
