package decode

import (
	r "github.com/Breeze0806/gobinlog/replication"

	"verifh/mk"
	"verifh/sym"
)

// format decodes the format description of f.
func format(f *mk.Format) r.BinlogFormat {
	ev := newEvent(f, f.FDE(mk.Header{}))
	bf, err := ev.Format()
	if err != nil {
		sym.Fail("the format description is not decoded")
	}
	return bf
}

func newEvent(f *mk.Format, b []byte) r.BinlogEvent {
	if f.Maria {
		return r.NewMariadbBinlogEvent(b)
	}
	return r.NewMysql56BinlogEvent(b)
}

// stripped passes the gate and strips the checksum as the streamer does.
func stripped(f *mk.Format, bf r.BinlogFormat, b []byte) r.BinlogEvent {
	ev := newEvent(f, b)
	sym.Assert(ev.IsValid(), "a complete event is refused")
	ev, _, err := ev.StripChecksum(bf)
	if err != nil {
		sym.Fail("the checksum is not stripped")
	}
	return ev
}

var rowTypes = []byte{mk.WriteV1, mk.UpdateV1, mk.DeleteV1, mk.WriteV2, mk.UpdateV2, mk.DeleteV2}

// consume decodes an image column by column.
func consume(image []byte, cols []mk.Col, present []bool, null []bool, msg string) {
	pos, k := 0, 0
	for c := range cols {
		if !present[c] {
			continue
		}
		if !null[k] {
			_, n, err := r.CellBytes(image, pos, cols[c].Type, cols[c].Meta, false)
			if err != nil {
				sym.Fail("a cell is not decoded")
			}
			pos += n
		}
		k++
	}
	sym.Assert(pos == len(image), msg)
}

// agree sends a column between two others through one event of two rows and
// consumes every image.
func agree(c mk.Col, raw []byte) {
	agreeRows(c, raw, rowTypes[sym.Choice("event", len(rowTypes))])
}

// agreeBig does so with one row, for values of symbolic length.
func agreeBig(c mk.Col, raw []byte) {
	f := mk.Mysql56(0)
	bf := format(f)
	typ := byte([]byte{mk.WriteV2, mk.DeleteV1}[sym.Choice("event", 2)])
	cols := []mk.Col{{Type: r.TypeTiny}, c, {Type: r.TypeShort}}
	all := []bool{true, true, true}
	images := []mk.Image{{Null: []bool{false, false, false}, Cells: [][]byte{{0x71}, raw, {0x82, 0x02}}}}
	tm := tableMap(f, bf, cols)
	ev := stripped(f, bf, f.Rows(typ, mk.Header{}, 7, 3, all, all, images))
	rows, err := ev.Rows(bf, tm)
	if err != nil {
		sym.Fail("the rows event is not decoded")
	}
	check(rows, typ, cols, all, all, images)
	sym.Reach("agreement")
	sym.Expect("agreement")
}

func agreeRows(c mk.Col, raw []byte, typ byte) {
	f := mk.Mysql56(0)
	bf := format(f)
	side := mk.Col{Type: r.TypeTiny}
	cols := []mk.Col{side, c, {Type: r.TypeShort}}
	all := []bool{true, true, true}
	one := mk.Image{Null: []bool{false, false, false}, Cells: [][]byte{{0x71}, raw, {0x82, 0x02}}}
	two := mk.Image{Null: []bool{false, true, false}, Cells: [][]byte{{0x93}, raw, {0xa4, 0x04}}}
	images := []mk.Image{one, two}
	if mk.HasBefore(typ) && mk.HasAfter(typ) {
		images = []mk.Image{one, two, two, one}
	}
	tm := tableMap(f, bf, cols)
	ev := stripped(f, bf, f.Rows(typ, mk.Header{}, 7, 3, all, all, images))
	rows, err := ev.Rows(bf, tm)
	if err != nil {
		sym.Fail("the rows event is not decoded")
	}
	check(rows, typ, cols, all, all, images)
	sym.Reach("agreement")
	sym.Expect("agreement")
}

// tableMap decodes the announcement of a table.
func tableMap(f *mk.Format, bf r.BinlogFormat, cols []mk.Col) *r.TableMap {
	ev := stripped(f, bf, f.TableMap(mk.Header{}, 7, "db", "tbl", cols))
	tm, err := ev.TableMap(bf)
	if err != nil {
		sym.Fail("the table map is not decoded")
	}
	return tm
}

// bitsEq compares a decoded bitmap with the encoded bits.
func bitsEq(b *r.Bitmap, want []bool, msg string) {
	if b.Count() != len(want) {
		sym.Fail(msg)
	}
	ok := true
	for i, w := range want {
		ok = sym.And(ok, b.Bit(i) == w)
	}
	sym.Assert(ok, msg)
}

// check compares decoded rows with the encoded images.
func check(rows r.Rows, typ byte, cols []mk.Col, before, after []bool, images []mk.Image) {
	per := 1
	if mk.HasBefore(typ) && mk.HasAfter(typ) {
		per = 2
	}
	if len(rows.Rows) != len(images)/per {
		sym.Fail("the number of rows is wrong")
	}
	if mk.HasBefore(typ) {
		bitsEq(&rows.IdentifyColumns, before, "the before presence bitmap is wrong")
	}
	if mk.HasAfter(typ) {
		bitsEq(&rows.DataColumns, after, "the after presence bitmap is wrong")
	}
	for i := range rows.Rows {
		row := &rows.Rows[i]
		im := images[i*per : i*per+per]
		if mk.HasBefore(typ) {
			bitsEq(&row.NullIdentifyColumns, im[0].Null, "the before NULL bitmap is wrong")
			same(row.Identify, im[0].Data(), "the before image is wrong")
			consume(row.Identify, cols, before, im[0].Null, "the before image is not consumed exactly")
		} else {
			sym.Assert(len(row.Identify) == 0, "a before image appears")
		}
		if mk.HasAfter(typ) {
			bitsEq(&row.NullColumns, im[per-1].Null, "the after NULL bitmap is wrong")
			same(row.Data, im[per-1].Data(), "the after image is wrong")
			consume(row.Data, cols, after, im[per-1].Null, "the after image is not consumed exactly")
		} else {
			sym.Assert(len(row.Data) == 0, "an after image appears")
		}
	}
}

// fixed lists the types whose cells have a fixed size for a given metadata.
var fixed = []struct {
	typ  byte
	meta int // fixed metadata or -1
	n    int
}{
	{r.TypeTiny, 0, 1}, {r.TypeYear, 0, 1}, {r.TypeShort, 0, 2}, {r.TypeInt24, 0, 3}, {r.TypeLong, 0, 4}, {r.TypeLongLong, 0, 8},
	{r.TypeFloat, 4, 4}, {r.TypeDouble, 8, 8}, {r.TypeTimestamp, 0, 4}, {r.TypeDate, 0, 3}, {r.TypeNewDate, 0, 3}, {r.TypeTime, 0, 3},
	{r.TypeDateTime, 0, 8},
}

// content is n bytes of cell content; their values matter to C10..C12.
func content(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(37*i + 11)
	}
	return b
}

// C09_Fixed covers the types without metadata.
func C09_Fixed() {
	t := fixed[sym.Choice("type", len(fixed))]
	agree(mk.Col{Type: t.typ, Meta: uint16(t.meta)}, content(t.n))
}

// C09_Fsp covers the fractional-second types.
func C09_Fsp() {
	fsp := sym.Choice("fsp", 7)
	base := 4
	typ := byte(r.TypeTimestamp2)
	switch sym.Choice("type", 3) {
	case 1:
		base, typ = 5, r.TypeDateTime2
	case 2:
		base, typ = 3, r.TypeTime2
	}
	agree(mk.Col{Type: typ, Meta: uint16(fsp)}, content(base+(fsp+1)/2))
}

// C09_Bits covers BIT(1..64), ENUM and SET.
func C09_Bits() {
	switch sym.Choice("type", 5) {
	case 0:
		n := 1 + sym.Choice("bits", 64)
		agree(mk.Col{Type: r.TypeBit, Meta: uint16(n/8)<<8 | uint16(n%8)}, content((n+7)/8))
	case 1:
		n := 1 + sym.Choice("bytes", 2)
		agree(mk.Col{Type: r.TypeString, Meta: uint16(r.TypeEnum)<<8 | uint16(n)}, content(n))
	case 2:
		n := 1 + sym.Choice("bytes", 8)
		agree(mk.Col{Type: r.TypeString, Meta: uint16(r.TypeSet)<<8 | uint16(n)}, content(n))
	case 3:
		n := 1 + sym.Choice("bytes", 2)
		agree(mk.Col{Type: r.TypeEnum, Meta: uint16(r.TypeEnum)<<8 | uint16(n)}, content(n))
	case 4:
		n := 1 + sym.Choice("bytes", 8)
		agree(mk.Col{Type: r.TypeSet, Meta: uint16(r.TypeSet)<<8 | uint16(n)}, content(n))
	}
}

// C09_Decimal covers every DECIMAL(p,s).
func C09_Decimal() {
	p := 1 + sym.Choice("precision", 65)
	m := p
	if m > 30 {
		m = 30
	}
	s := sym.Choice("scale", m+1)
	i := p - s
	n := i/9*4 + dig2bytes[i%9] + s/9*4 + dig2bytes[s%9]
	raw := make([]byte, n)
	raw[0] = 0x80
	raw[n-1] ^= 1
	agree(mk.Col{Type: r.TypeNewDecimal, Meta: uint16(p)<<8 | uint16(s)}, raw)
}

// C09_VarChar covers every VARCHAR declaration and length.
func C09_VarChar() {
	max := sym.Int("declared bytes", 0, 65535)
	n := sym.Int("length", 0, 65535)
	sym.Assume(n <= max)
	typ := byte(r.TypeVarchar)
	if sym.Choice("type", 2) == 1 {
		typ = r.TypeVarString
	}
	prefix := 1
	if max > 255 {
		prefix = 2
	}
	agreeBig(mk.Col{Type: typ, Meta: uint16(max)}, append(le(uint64(n), prefix), sym.Big("content", n)...))
}

// C09_Char covers every CHAR declaration and length.
func C09_Char() {
	max := sym.Int("declared bytes", 0, 1023)
	n := sym.Int("length", 0, 1023)
	sym.Assume(n <= max)
	meta := uint16(r.TypeString)<<8 ^ uint16(max&0x300)<<4 | uint16(max&0xff)
	prefix := 1
	if max > 255 {
		prefix = 2
	}
	agreeBig(mk.Col{Type: r.TypeString, Meta: meta}, append(le(uint64(n), prefix), sym.Big("content", n)...))
}

// C09_Blob covers blobs, geometries and JSON with 1..4 length bytes.
func C09_Blob() {
	typ := blobTypes[sym.Choice("type", len(blobTypes))]
	prefix := 1 + sym.Choice("length bytes", 4)
	lim := 1<<24 + 1<<16
	if prefix < 3 {
		lim = 1<<(8*uint(prefix)) - 1
	} else if prefix == 3 {
		lim = 1<<24 - 1
	}
	n := sym.Int("length", 0, lim)
	agreeBig(mk.Col{Type: typ, Meta: uint16(prefix)}, append(le(uint64(n), prefix), sym.Big("content", n)...))
}

// C09_JSON covers JSON's length prefix.
func C09_JSON() {
	prefix := 1 + sym.Choice("length bytes", 4)
	n := sym.Choice("length", 4)
	doc := append([]byte{0x0c, byte(n)}, content(n)...) // a string
	agree(mk.Col{Type: r.TypeJSON, Meta: uint16(prefix)}, append(le(uint64(len(doc)), prefix), doc...))
}

// C09_Shape covers presence and NULL bitmaps of small tables.
func C09_Shape() {
	typ := rowTypes[sym.Choice("event", len(rowTypes))]
	update := mk.HasBefore(typ) && mk.HasAfter(typ)
	n, nrows := 3, 2
	if update {
		n = 2
		if sym.Thorough() {
			n = 3
			nrows = 1
		}
	} else if sym.Thorough() {
		n = 4
	}
	sym.Expect("short table id")
	shape(typ, n, nrows, 0, n)
}

// C09_Wide covers bitmaps of several bytes: the bits of one column (or
// two) are arbitrary, the others alternate.
func C09_Wide() {
	typ := rowTypes[sym.Choice("event", len(rowTypes))]
	widths := []int{7, 8, 9, 16, 17, 250, 251, 252, 255, 256, 257, 300}
	n := widths[sym.Choice("columns", len(widths))]
	at := []int{0, 6, n - 1}[sym.Choice("free column", 3)]
	k := 1
	if sym.Thorough() && n > 7 && at < n-1 {
		k = 2
	}
	shape(typ, n, 1, at, at+k)
}

// shape draws the bitmaps of columns lo..hi.
func shape(typ byte, n, nrows, lo, hi int) {
	// checksum, table id width and extra data vary together
	variant := 2
	if n < 6 {
		variant = sym.Choice("variant", 3)
	}
	f := mk.Mysql56([]byte{0, 1, 1}[variant])
	if variant == 1 {
		f.Sizes[typ-1], f.Sizes[mk.TableMapEv-1] = 6, 6
		sym.Reach("short table id")
	}
	bf := format(f)
	cols := make([]mk.Col, n)
	for i := range cols {
		cols[i] = []mk.Col{{Type: r.TypeVarchar, Meta: 20}, {Type: r.TypeShort}, {Type: r.TypeVarchar, Meta: 300}, {Type: r.TypeTiny}}[i%4]
	}
	draw := func(name string) ([]bool, int) {
		b, k := make([]bool, n), 0
		for i := range b {
			b[i] = i%3 != 1
			if i >= lo && i < hi {
				b[i] = sym.Bool(name)
			}
			if b[i] {
				k++
			}
		}
		return b, k
	}
	var before, after []bool
	any := false
	if mk.HasBefore(typ) {
		b, k := draw("before present")
		before, any = b, k > 0
	}
	if mk.HasAfter(typ) {
		b, k := draw("after present")
		after, any = b, any || k > 0
	}
	sym.Assume(any) // a row of no columns has no bytes
	image := func(present []bool) (im mk.Image) {
		for c, p := range present {
			if !p {
				continue
			}
			null := c%5 == 2
			if c >= lo && c < hi {
				null = sym.Bool("null")
			}
			im.Null = append(im.Null, null)
			var cell []byte
			switch c % 4 {
			case 0:
				cell = append([]byte{byte(c % 3)}, content(c%3)...)
			case 1:
				cell = content(2)
			case 2:
				cell = append([]byte{byte(c % 3), 0}, content(c%3)...)
			case 3:
				cell = content(1)
			}
			im.Cells = append(im.Cells, cell)
		}
		return im
	}
	if n < 6 {
		nrows = sym.Choice("rows", nrows+1)
	}
	var images []mk.Image
	for i := 0; i < nrows; i++ {
		if before != nil {
			images = append(images, image(before))
		}
		if after != nil {
			images = append(images, image(after))
		}
	}
	extra := []byte{}
	if mk.IsV2(typ) {
		extra = content([]int{0, 1, 9}[variant])
	}
	flags := sym.U16("flags")
	tm := tableMap(f, bf, cols)
	id := sym.U64("table id") & (1<<(8*uint(f.IDLen(typ))) - 1)
	ev := stripped(f, bf, f.Event(typ, mk.Header{}, f.RowsBody(typ, id, flags, extra, n, before, after, images)))
	sym.Assert(ev.TableID(bf) == id, "the table id is wrong")
	rows, err := ev.Rows(bf, tm)
	if err != nil {
		sym.Fail("the rows event is not decoded")
	}
	sym.Assert(rows.Flags == flags, "the flags are wrong")
	check(rows, typ, cols, before, after, images)
	sym.Reach("shape")
	sym.Expect("shape")
}

// C09_Extra covers every length of the extra data and many rows.
func C09_Extra() {
	f := mk.Mysql56(1)
	bf := format(f)
	typ := rowTypes[3+sym.Choice("event", 3)]
	n := sym.Int("extra length", 0, 65533)
	extra := sym.Big("extra", n)
	cols := []mk.Col{{Type: r.TypeLong}}
	yes := []bool{true}
	im := func(k byte) mk.Image { return mk.Image{Null: []bool{false}, Cells: [][]byte{{k, 2, 3, 4}}} }
	images := []mk.Image{im(1)}
	if mk.HasBefore(typ) && mk.HasAfter(typ) {
		images = append(images, im(2))
	}
	ev := stripped(f, bf, f.Event(typ, mk.Header{}, f.RowsBody(typ, 9, 1, extra, 1, yes, yes, images)))
	rows, err := ev.Rows(bf, tableMap(f, bf, cols))
	if err != nil {
		sym.Fail("the rows event is not decoded")
	}
	check(rows, typ, cols, yes, yes, images)
	sym.Reach("extra data")
	sym.Expect("extra data")
}
