package decode

import (
	"math"
	"strconv"

	r "github.com/Breeze0806/gobinlog/replication"

	"verifh/mk"
	"verifh/sym"
)

// node is a document: its storage type, the stored value and its SQL text.
type node struct {
	typ   byte
	raw   []byte // stored value of a scalar
	text  []byte // its text inside a container
	top   []byte // its text at the top
	keys  [][]byte
	kids  []*node
	large bool
}

// Binary JSON types.
const (
	jObject = 0
	jArray  = 2
	jLit    = 4
	jI16    = 5
	jU16    = 6
	jI32    = 7
	jU32    = 8
	jI64    = 9
	jU64    = 10
	jDouble = 11
	jString = 12
	jOpaque = 15
)

func quoted(s []byte) []byte { return mk.Cat([]byte{'\''}, s, []byte{'\''}) }

func scalar(typ byte, raw, text []byte) *node {
	return &node{typ: typ, raw: raw, text: text, top: quoted(text)}
}

func container(obj, large bool) *node {
	n := &node{typ: jArray, large: large}
	if obj {
		n.typ = jObject
	}
	return n
}

func (n *node) add(key []byte, kid *node) {
	if n.typ == jObject {
		n.keys = append(n.keys, key)
	}
	n.kids = append(n.kids, kid)
}

func (n *node) isContainer() bool { return n.typ == jObject || n.typ == jArray }

// storageType is the type byte.
func (n *node) storageType() byte {
	if n.isContainer() && n.large {
		return n.typ + 1
	}
	return n.typ
}

// encode is the stored value without its type byte.
func (n *node) encode() []byte {
	if !n.isContainer() {
		return n.raw
	}
	w := 2
	if n.large {
		w = 4
	}
	var keys, vals []byte
	pos := 2*w + len(n.kids)*(1+w)
	if n.typ == jObject {
		pos += len(n.kids) * (w + 2)
	}
	var kent, vent []byte
	for _, k := range n.keys {
		kent = mk.Cat(kent, mk.LE(uint64(pos), w), mk.LE(uint64(len(k)), 2))
		keys = append(keys, k...)
		pos += len(k)
	}
	for _, k := range n.kids {
		vent = append(vent, k.storageType())
		switch {
		case k.typ == jLit || k.typ == jI16 || k.typ == jU16 || w == 4 && (k.typ == jI32 || k.typ == jU32):
			v := make([]byte, w)
			copy(v, k.raw)
			vent = append(vent, v...)
		default:
			vent = append(vent, mk.LE(uint64(pos), w)...)
			b := k.encode()
			vals = append(vals, b...)
			pos += len(b)
		}
	}
	return mk.Cat(mk.LE(uint64(len(n.kids)), w), mk.LE(uint64(pos), w), kent, vent, keys, vals)
}

// render is the document's text.
func (n *node) render(top bool) []byte {
	if !n.isContainer() {
		if top {
			return n.top
		}
		return n.text
	}
	b := []byte("JSON_ARRAY(")
	if n.typ == jObject {
		b = []byte("JSON_OBJECT(")
	}
	for i, k := range n.kids {
		if i > 0 {
			b = append(b, ',')
		}
		if n.typ == jObject {
			b = append(append(b, quoted(n.keys[i])...), ',')
		}
		b = append(b, k.render(false)...)
	}
	return append(b, ')')
}

// decodeDoc stores the document in a cell and compares the text.
func decodeDoc(n *node) {
	doc := append([]byte{n.storageType()}, n.encode()...)
	prefix := 4
	raw := append(mk.LE(uint64(len(doc)), prefix), doc...)
	got := cell(raw, r.TypeJSON, uint16(prefix), false)
	same(got, n.render(true), "the JSON text is wrong")
	sym.Reach("document")
	sym.Expect("document")
}

func literal(k int) *node {
	return scalar(jLit, []byte{byte(k)}, []byte([]string{"null", "true", "false"}[k]))
}

// integer is an integer lo..hi of the given storage type.
func integer(typ byte, v uint64) *node {
	switch typ {
	case jI16:
		return scalar(typ, mk.LE(v, 2), strconv.AppendInt(nil, int64(int16(v)), 10))
	case jU16:
		return scalar(typ, mk.LE(v, 2), strconv.AppendUint(nil, uint64(uint16(v)), 10))
	case jI32:
		return scalar(typ, mk.LE(v, 4), strconv.AppendInt(nil, int64(int32(v)), 10))
	case jU32:
		return scalar(typ, mk.LE(v, 4), strconv.AppendUint(nil, uint64(uint32(v)), 10))
	case jI64:
		return scalar(typ, mk.LE(v, 8), strconv.AppendInt(nil, int64(v), 10))
	}
	return scalar(typ, mk.LE(v, 8), strconv.AppendUint(nil, v, 10))
}

func double(bits uint64) *node {
	f := math.Float64frombits(bits)
	return scalar(jDouble, mk.LE(bits, 8), strconv.AppendFloat(nil, f, 'E', -1, 64))
}

// varlen is MySQL's variable-length size.
func varlen(n int) []byte {
	var b []byte
	for n >= 128 {
		b = append(b, byte(n)|0x80)
		n >>= 7
	}
	return append(b, byte(n))
}

// plain assumes that no byte is a quote or a backslash.
func plain(b []byte) []byte {
	ok := true
	for _, c := range b {
		ok = sym.And(ok, c != '\'', c != '"', c != '\\')
	}
	sym.Assume(ok)
	return b
}

func str(s []byte) *node {
	n := scalar(jString, mk.Cat(varlen(len(s)), s), quoted(s))
	n.top = mk.Cat([]byte(`'"`), s, []byte(`"'`))
	return n
}

func opaque(typ byte, raw, text []byte, sqlType string) *node {
	n := scalar(jOpaque, mk.Cat([]byte{typ}, varlen(len(raw)), raw), mk.Cat([]byte("CAST('"), text, []byte("' AS "+sqlType+")")))
	n.top = mk.Cat([]byte("CAST("), n.text, []byte(" AS JSON)"))
	return n
}

// micros draws microseconds and their text.
func micros() (int, []byte) {
	us := 0
	var t []byte
	if sym.Choice("fraction", 2) == 1 {
		us = sym.Int("microseconds", 1, 999999)
		t = append([]byte{'.'}, digits(us, 6)...)
	}
	return us, t
}

func opaqueDate() *node {
	y, m, d := sym.Int("year", 0, 9999), sym.Int("month", 0, 12), sym.Int("day", 0, 31)
	v := uint64((y*13+m)<<5|d) << 17 << 24
	return opaque(r.TypeDate, mk.LE(v, 8), date(y, m, d), "DATE")
}

func opaqueDateTime() *node {
	y, mo, d := sym.Int("year", 0, 9999), sym.Int("month", 0, 12), sym.Int("day", 0, 31)
	h, m, s := sym.Int("hour", 0, 23), sym.Int("minute", 0, 59), sym.Int("second", 0, 59)
	us, ft := micros()
	v := (uint64((y*13+mo)<<5|d)<<17|uint64(h<<12|m<<6|s))<<24 | uint64(us)
	return opaque(r.TypeDateTime, mk.LE(v, 8), mk.Cat(date(y, mo, d), []byte{' '}, clock(h, m, s), ft), "DATETIME(6)")
}

func opaqueTime() *node {
	neg := sym.Choice("negative", 2) == 1
	lo := [3]int{}
	us, ft := micros()
	if neg && us == 0 {
		lo[sym.Choice("non-zero part", 3)] = 1
	}
	h, m, s := sym.Int("hour", lo[0], 838), sym.Int("minute", lo[1], 59), sym.Int("second", lo[2], 59)
	v := int64(h<<12|m<<6|s)<<24 | int64(us)
	text := mk.Cat(clock(h, m, s), ft)
	if neg {
		v = -v
		text = append([]byte{'-'}, text...)
		sym.Reach("negative time")
	}
	return opaque(r.TypeTime, mk.LE(uint64(v), 8), text, "TIME(6)")
}

func opaqueDecimal() *node {
	shapes := [][2]int{{1, 0}, {1, 1}, {9, 0}, {10, 0}, {10, 9}, {13, 4}, {18, 9}, {20, 10}, {30, 30}, {38, 20}, {65, 30}}
	sh := shapes[sym.Choice("precision and scale", len(shapes))]
	p, s := sh[0], sh[1]
	n := sym.Choice("integer digits", p-s+1)
	raw, ip, fp, zero := decimal(p, s, n)
	text := append([]byte{}, ip[p-s-n:]...)
	if n == 0 {
		text = []byte{'0'}
	}
	if s > 0 {
		text = mk.Cat(text, []byte{'.'}, fp)
	}
	if sym.Choice("negative", 2) == 1 {
		sym.Assume(!zero)
		for i := range raw {
			raw[i] ^= 0xff
		}
		text = append([]byte{'-'}, text...)
	}
	raw[0] ^= 0x80
	return opaque(r.TypeNewDecimal, append([]byte{byte(p), byte(s)}, raw...), text, "DECIMAL("+strconv.Itoa(p)+","+strconv.Itoa(s)+")")
}

// anyScalar is every scalar over its whole domain.
func anyScalar() *node {
	switch k := sym.Choice("kind", 13); k {
	case 0:
		return literal(sym.Choice("literal", 3))
	case 1:
		return integer(jI16, uint64(sym.U16("int16")))
	case 2:
		return integer(jU16, uint64(sym.U16("uint16")))
	case 3:
		return integer(jI32, uint64(sym.U32("int32")))
	case 4:
		return integer(jU32, uint64(sym.U32("uint32")))
	case 5:
		return integer(jI64, sym.U64("int64"))
	case 6:
		return integer(jU64, sym.U64("uint64"))
	case 7:
		bits := sym.U64("double")
		sym.Assume(bits&0x7ff0000000000000 != 0x7ff0000000000000)
		return double(bits)
	case 8:
		return str(plain(sym.Bytes("string", []int{0, 1, 3, 127, 128}[sym.Choice("length", 5)])))
	case 9:
		return opaqueDate()
	case 10:
		return opaqueTime()
	case 11:
		return opaqueDateTime()
	}
	return opaqueDecimal()
}

// C14_Scalar covers every scalar document.
func C14_Scalar() {
	decodeDoc(anyScalar())
	sym.Expect("negative time")
}

// filler is a simple value with a value of its own.
func filler(i int) *node {
	switch i % 4 {
	case 0:
		return integer(jI16, uint64(sym.Int("small", 100, 999)))
	case 1:
		return str(plain(sym.Bytes("short string", 2)))
	case 2:
		return integer(jI32, uint64(sym.Int("medium", 100000, 999999)))
	}
	return literal(1)
}

// C14_Member covers every scalar in every position of small and large arrays
// and objects.
func C14_Member() {
	n := container(sym.Choice("object", 2) == 1, sym.Choice("large", 2) == 1)
	size := 1 + sym.Choice("elements", 3)
	at := sym.Choice("position", size)
	for i := 0; i < size; i++ {
		var k []byte
		if n.typ == jObject {
			k = plain(sym.Bytes("key", i+1))
		}
		if i == at {
			n.add(k, anyScalar())
		} else {
			n.add(k, filler(i))
		}
	}
	decodeDoc(n)
}

// tree draws a document of bounded depth and fan-out.
func tree(depth, fan int, mayLarge bool) *node {
	k := 4
	if depth > 0 {
		k = 6
	}
	c := sym.Choice("node", k)
	if c < 4 {
		return filler(c)
	}
	n := container(c == 5, mayLarge && sym.Choice("large", 2) == 1)
	size := sym.Choice("fan-out", fan+1)
	for i := 0; i < size; i++ {
		n.add(plain(sym.Bytes("key", 1)), tree(depth-1, fan, n.large))
	}
	return n
}

// C14_Tree covers all shapes of small documents.
func C14_Tree() {
	depth := 2
	if sym.Thorough() {
		depth = 3
	}
	decodeDoc(tree(depth, 2, true))
}

// C14_Deep covers chains of containers down to depth 6.
func C14_Deep() {
	large := sym.Choice("large levels", 7) // the outer ones
	var chain func(d int) *node
	chain = func(d int) *node {
		if d == 6 {
			return filler(2)
		}
		n := container(sym.Choice("object", 2) == 1, d < large)
		n.add([]byte("a"), filler(d))
		n.add(plain(sym.Bytes("key", 2)), chain(d+1))
		n.add([]byte("ccc"), filler(d+1))
		return n
	}
	decodeDoc(chain(0))
}

// C14_Wide covers fan-outs up to 40 (300 in the thorough tier).
func C14_Wide() {
	sizes := []int{9, 40}
	if sym.Thorough() {
		sizes = append(sizes, 127, 128, 255, 256, 300)
	}
	n := container(sym.Choice("object", 2) == 1, sym.Choice("large", 2) == 1)
	size := sizes[sym.Choice("elements", len(sizes))]
	for i := 0; i < size; i++ {
		n.add(plain(sym.Bytes("key", 1+i%3)), filler(i))
	}
	decodeDoc(n)
}

// C14_Key covers long and empty keys.
func C14_Key() {
	lens := []int{0, 1, 127, 128, 255, 256, 1000}
	if sym.Thorough() {
		lens = append(lens, 32767, 32768, 65000)
	}
	n := container(true, sym.Choice("large", 2) == 1)
	n.add(plain(sym.Bytes("key", lens[sym.Choice("length", len(lens))])), filler(0))
	n.add([]byte("zz"), filler(2))
	n.add([]byte("zzz"), filler(1))
	decodeDoc(n)
}

// C14_String covers strings of every length up to 2 MB at the top, hence one
// to four length bytes.
func C14_String() {
	n := sym.Int("length", 0, 1<<21+1<<14)
	s := sym.Big("content", n)
	decodeDoc(str(s))
	switch {
	case n >= 1<<21:
		sym.Reach("four length bytes")
	case n >= 1<<14:
		sym.Reach("three length bytes")
	}
	sym.Expect("four length bytes", "three length bytes")
}

// C14_Big covers documents of the large format whose values lie on both sides
// of the 64 KB mark (and of the 16 MB mark): a long string pushes them there.
func C14_Big() {
	obj := sym.Choice("object", 2) == 1
	n := container(obj, true)
	lens := []int{65535 - 60, 65535 - 30, 65535, 65536, 1<<17 + 5, 1<<24 - 40, 1 << 24}
	l := lens[sym.Choice("length", len(lens))]
	n.add([]byte("a"), str(sym.Big("filler", l)))
	var v *node
	switch sym.Choice("value", 7) {
	case 0:
		v = integer(jI32, uint64(sym.U32("int32")))
	case 1:
		v = integer(jU64, sym.U64("uint64"))
	case 2:
		v = str(plain(sym.Bytes("string", 3)))
	case 3:
		v = opaqueTime()
	case 4:
		v = container(true, false)
		v.add([]byte("k"), integer(jI32, uint64(sym.Int("inner int32", 100000, 999999))))
	case 5:
		v = container(false, true)
		v.add(nil, integer(jU32, uint64(sym.Int("inner uint32", 100000, 999999))))
		v.add(nil, str(plain(sym.Bytes("inner string", 2))))
	case 6:
		v = double(0x3ff8000000000000)
	}
	n.add([]byte("bb"), v)
	n.add([]byte("ccc"), integer(jI64, uint64(sym.Int("last", 100000, 999999))))
	decodeDoc(n)
}

// C14_BigKeys covers objects whose keys lie beyond 64 KB.
func C14_BigKeys() {
	n := container(true, true)
	l := []int{40000, 65535}[sym.Choice("length", 2)]
	for i := 0; i < 3; i++ {
		n.add(sym.Big("key", l), filler(i))
	}
	n.add([]byte("zz"), filler(2))
	decodeDoc(n)
}
