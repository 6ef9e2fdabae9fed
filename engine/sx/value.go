package sx

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is a run-time value: *Term (integers, booleans), Flt, *Str, Slice,
// Ptr, *MapObj, *Chan, *Closure, Iface, Agg, Tuple, *iter, Poison.
type Value interface{}

// Flt is a floating-point number given by its IEEE bits.  A float64 made from
// a symbolic float32 keeps the 32-bit pattern in w32.
type Flt struct {
	t   *Term
	w   uint8
	w32 *Term // the value is the exact widening of this float32
}

// Str is a string: concrete (b nil, a nil), a vector of byte terms, or a window
// of an array of symbolic length.
type Str struct {
	s   string
	b   []*Term
	a   *ArrSym
	off *Term
	n   *Term
	tag string // opaque text whose contents are not modelled
}

// Object is a block of memory.
type Object struct {
	id    int
	slots []Value
	lay   *Layout // layout of one element
	epoch int     // 0: created during initialisation
	arr   *ArrSym // byte contents of symbolic length instead of slots
	alen  *Term   // number of elements when arr != nil
	m     *Machine
	view  bool // shares the slots of a part of another object
	site  string
}

// ArrSym is a byte array indexed by 64-bit terms.
type ArrSym struct {
	name string // base: uninterpreted function
	// or a shifted view of another array
	base  *ArrSym
	shift *Term
	// or constant zero
	zero bool
	// or a concrete vector (out of range: zero)
	vec  []*Term
	over []arrWrite
}

type arrWrite struct {
	idx  *Term // single write at idx ...
	val  *Term
	n    *Term // ... or a block of n bytes copied from src at sidx
	src  *ArrSym
	sidx *Term
}

// Ptr points at a leaf or the first leaf of an aggregate.
type Ptr struct {
	obj *Object
	off int
	// symbolic element index (relative to off) for leaf elements
	idx *Term
	cnt int // number of elements idx may range over
}

// Slice of elements laid out in obj.
type Slice struct {
	obj           *Object
	off, len, cap int // in elements; off is the first element's index
	s             *symWin
}

type symWin struct{ off, len, cap *Term }

// MapObj is a map.
type MapObj struct {
	id     int
	keys   []Value
	vals   []Value
	live   []bool
	n      int
	epoch  int
	obj    *Object // for race detection
	keyTyp types.Type
}

// Closure is a function value.
type Closure struct {
	fn    *ssa.Function
	binds []Value
	bi    *ssa.Builtin
	nat   func(m *Machine, args []Value) Value
}

// Iface is a non-pointer interface value; t nil means nil interface.
type Iface struct {
	t types.Type
	v Value
}

// Agg is a struct or array, flattened to leaves.
type Agg []Value

// Tuple is a multi-value.
type Tuple []Value

// Poison marks a value the initialisation could not compute.
type Poison struct{ why string }

// Layout is the flattened shape of a type.
type Layout struct {
	n     int
	zero  []Value
	leafT []types.Type
	offs  []int // field offsets
}

func (m *Machine) layout(t types.Type) *Layout {
	if l := m.layouts[t]; l != nil {
		return l
	}
	l := &Layout{}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := m.layout(u.Field(i).Type())
			l.offs = append(l.offs, l.n)
			l.n += f.n
			l.zero = append(l.zero, f.zero...)
			l.leafT = append(l.leafT, f.leafT...)
		}
	case *types.Array:
		e := m.layout(u.Elem())
		n := int(u.Len())
		if n > 1<<20 {
			m.unsupported("huge array type %s", t)
		}
		for i := 0; i < n; i++ {
			l.zero = append(l.zero, e.zero...)
			l.leafT = append(l.leafT, e.leafT...)
		}
		l.n = e.n * n
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			f := m.layout(u.At(i).Type())
			l.offs = append(l.offs, l.n)
			l.n += f.n
			l.zero = append(l.zero, f.zero...)
		}
	default:
		l.n = 1
		l.zero = []Value{m.zeroLeaf(t)}
		l.leafT = []types.Type{t}
	}
	m.layouts[t] = l
	return l
}

func intWidth(b *types.Basic) (w uint8, signed bool, ok bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func (m *Machine) zeroLeaf(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intWidth(u); ok {
			return m.T.Const(w, 0)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return emptyStr
		case types.Float64, types.UntypedFloat:
			return Flt{t: m.T.Const(64, 0), w: 64}
		case types.Float32:
			return Flt{t: m.T.Const(32, 0), w: 32}
		case types.UnsafePointer:
			return Ptr{}
		case types.UntypedNil:
			return Ptr{}
		case types.Complex64, types.Complex128:
			return Poison{"complex"}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.TypeParam:
		return Poison{"type parameter"}
	}
	panic(fmt.Sprintf("zeroLeaf %s", t))
}

var emptyStr = &Str{}

// zero value of type t.
func (m *Machine) zero(t types.Type) Value {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return Agg(append([]Value(nil), m.layout(t).zero...))
	case *types.Tuple:
		tt := t.Underlying().(*types.Tuple)
		out := make(Tuple, tt.Len())
		for i := range out {
			out[i] = m.zero(tt.At(i).Type())
		}
		return out
	}
	return m.layout(t).zero[0]
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// newObject allocates n elements of type t.
func (m *Machine) newObject(t types.Type, n int, site string) *Object {
	l := m.layout(t)
	m.nobj++
	m.memCells += int64(l.n * n)
	if m.memCells > m.MaxCells {
		m.unsupported("memory bound: more than %d cells", m.MaxCells)
	}
	o := &Object{id: m.nobj, lay: l, epoch: m.epoch, site: site}
	if l.n*n > 0 {
		o.slots = make([]Value, l.n*n)
	}
	return o
}

// get reads element i. An object that became array-backed (toArr) may still
// be read through slices and pointers made before that.
func (o *Object) get(i int) Value {
	if o.arr != nil {
		return o.m.sel(o.arr, o.m.T.Const(64, uint64(i)))
	}
	v := o.slots[i]
	if v == nil {
		return o.lay.zero[i%o.lay.n]
	}
	return v
}

func (m *Machine) set(o *Object, i int, v Value) {
	if v == nil {
		panic("store of nil Value")
	}
	if o.arr != nil {
		m.arrStore(o, arrWrite{idx: m.T.Const(64, uint64(i)), val: v.(*Term)})
		return
	}
	if o.epoch != m.epoch {
		if m.epoch == 0 {
			// initialisation code writing path memory cannot happen
			panic("init writes path memory")
		}
		m.undo = append(m.undo, undoRec{o: o, i: i, v: o.slots[i]})
	}
	o.slots[i] = v
}

type undoRec struct {
	o  *Object
	i  int
	v  Value
	fn func()
}

func (m *Machine) nilDeref() {
	m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
}

// load reads a value of type t.
func (m *Machine) load(p Ptr, t types.Type) Value {
	if p.obj == nil {
		m.nilDeref()
	}
	if m.race != nil {
		m.race.access(m, p, m.layout(t).n, false)
	}
	if p.idx != nil {
		return m.loadSym(p)
	}
	if isAgg(t) {
		n := m.layout(t).n
		out := make(Agg, n)
		for i := range out {
			out[i] = p.obj.get(p.off + i)
		}
		return out
	}
	if p.obj.arr == nil && p.off >= len(p.obj.slots) {
		m.unsupported("load outside object (%s)", p.obj.site)
	}
	return p.obj.get(p.off)
}

func (m *Machine) loadSym(p Ptr) Value {
	o := p.obj
	if o.arr != nil {
		return m.sel(o.arr, m.T.Add(p.idx, m.T.Const(64, uint64(p.off))))
	}
	// ite chain
	first := o.get(p.off)
	ft, ok := first.(*Term)
	if !ok || p.cnt > 4096 {
		k := m.concretize(p.idx, "index")
		return o.get(p.off + int(k))
	}
	// balanced selection when all elements are constants
	r := m.iteTree(p.idx, 0, p.cnt, func(i int) *Term { return o.get(p.off + i).(*Term) })
	if r == nil {
		r = ft
	}
	return r
}

// iteTree selects element idx of lo..hi.
func (m *Machine) iteTree(idx *Term, lo, hi int, at func(int) *Term) *Term {
	// restrict to the feasible range
	if a := int(min(idx.umin, uint64(hi))); a > lo {
		lo = a
	}
	if idx.umax < uint64(hi-1) {
		hi = int(idx.umax) + 1
	}
	var rec func(lo, hi int) *Term
	rec = func(lo, hi int) *Term {
		if hi-lo == 1 {
			return at(lo)
		}
		mid := (lo + hi) / 2
		a, b := rec(lo, mid), rec(mid, hi)
		return m.T.Ite(m.T.Ult(idx, m.T.Const(idx.w, uint64(mid))), a, b)
	}
	if hi <= lo {
		return nil
	}
	return rec(lo, hi)
}

// store writes v of type t.
func (m *Machine) store(p Ptr, v Value, t types.Type) {
	if p.obj == nil {
		m.nilDeref()
	}
	if m.race != nil {
		m.race.access(m, p, m.layout(t).n, true)
	}
	if p.idx != nil {
		if p.obj.arr != nil {
			m.arrStore(p.obj, arrWrite{idx: m.T.Add(p.idx, m.T.Const(64, uint64(p.off))), val: v.(*Term)})
			return
		}
		nv, ok := v.(*Term)
		if !ok || p.cnt > 4096 {
			k := m.concretize(p.idx, "index")
			m.set(p.obj, p.off+int(k), v)
			return
		}
		for i := 0; i < p.cnt; i++ {
			c := m.T.Eq(p.idx, m.T.Const(p.idx.w, uint64(i)))
			if c == m.T.False {
				continue
			}
			m.set(p.obj, p.off+i, m.T.Ite(c, nv, p.obj.get(p.off+i).(*Term)))
		}
		return
	}
	if a, ok := v.(Agg); ok {
		for i, x := range a {
			m.set(p.obj, p.off+i, x)
		}
		return
	}
	if p.obj.arr == nil && p.off >= len(p.obj.slots) {
		m.unsupported("store outside object (%s)", p.obj.site)
	}
	m.set(p.obj, p.off, v)
}

func (m *Machine) arrStore(o *Object, w arrWrite) {
	if o.epoch != m.epoch {
		old := o.arr
		m.undo = append(m.undo, undoRec{fn: func() { o.arr = old }})
	}
	n := &ArrSym{base: o.arr, shift: m.T.Const(64, 0), over: []arrWrite{w}}
	o.arr = n
}

// sel reads a[idx].
func (m *Machine) sel(a *ArrSym, idx *Term) *Term {
	T := m.T
	var r *Term
	switch {
	case a.zero:
		r = T.Const(8, 0)
	case a.vec != nil:
		r = m.iteTree(idx, 0, len(a.vec), func(i int) *Term { return a.vec[i] })
		if r == nil {
			r = T.Const(8, 0)
		}
	case a.base != nil:
		r = nil
	default:
		r = T.UF(a.name, 8, 0, 255, idx)
	}
	if a.base != nil {
		// avoid reading below when the newest write decides
		if len(a.over) == 1 {
			w := a.over[0]
			c, v := m.arrWriteAt(w, idx)
			if c == T.True {
				return v
			}
			below := m.sel(a.base, T.Add(idx, a.shift))
			return T.Ite(c, v, below)
		}
		return m.sel(a.base, T.Add(idx, a.shift))
	}
	for _, w := range a.over {
		c, v := m.arrWriteAt(w, idx)
		r = T.Ite(c, v, r)
	}
	return r
}

func (m *Machine) arrWriteAt(w arrWrite, idx *Term) (*Term, *Term) {
	T := m.T
	if w.n == nil {
		return T.Eq(idx, w.idx), w.val
	}
	d := T.Sub(idx, w.idx)
	c := T.Ult(d, w.n)
	if c == T.False {
		return c, T.Const(8, 0)
	}
	return c, m.sel(w.src, T.Add(d, w.sidx))
}

// ---- strings ----

func mkStr(s string) *Str {
	if s == "" {
		return emptyStr
	}
	return &Str{s: s}
}

// strOf makes a string from byte terms.
func (m *Machine) strOf(b []*Term) *Str {
	for _, x := range b {
		if !x.IsConst() {
			return &Str{b: b}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.val)
	}
	return mkStr(string(bs))
}

// isConc reports whether s is a concrete string.
func (s *Str) isConc() bool { return s.b == nil && s.a == nil && s.tag == "" }

// length is the concrete length, or -1.
func (s *Str) length() int {
	switch {
	case s.b != nil:
		return len(s.b)
	case s.a != nil:
		return -1
	}
	return len(s.s)
}

// strBytes gives the byte terms of s; a symbolic length is concretised.
func (m *Machine) strBytes(s *Str) []*Term {
	switch {
	case s.b != nil:
		return s.b
	case s.a != nil:
		n := m.concretizeLen(s.n)
		out := make([]*Term, n)
		for i := range out {
			out[i] = m.sel(s.a, m.T.Add(s.off, m.T.Const(64, uint64(i))))
		}
		return out
	}
	out := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		out[i] = m.T.Const(8, uint64(s.s[i]))
	}
	return out
}

func (m *Machine) strLen(s *Str) *Term {
	if s.a != nil {
		return s.n
	}
	return m.T.Const(64, uint64(s.length()))
}

func (m *Machine) strAt(s *Str, i int) *Term {
	switch {
	case s.b != nil:
		return s.b[i]
	case s.a != nil:
		return m.sel(s.a, m.T.Add(s.off, m.T.Const(64, uint64(i))))
	}
	return m.T.Const(8, uint64(s.s[i]))
}

func (m *Machine) substr(s *Str, i, j int) *Str {
	if i == j {
		return emptyStr
	}
	switch {
	case s.b != nil:
		return m.strOf(s.b[i:j:j])
	case s.a != nil:
		return &Str{a: s.a, off: m.T.Add(s.off, m.T.Const(64, uint64(i))), n: m.T.Const(64, uint64(j-i))}
	}
	return mkStr(s.s[i:j])
}

// mustConc returns a concrete Go string, concretising bytes if necessary.
func (m *Machine) mustConc(v Value) string {
	s := v.(*Str)
	if s.isConc() {
		return s.s
	}
	b := m.strBytes(s)
	out := make([]byte, len(b))
	for i, x := range b {
		out[i] = byte(m.concretize(x, "string byte"))
	}
	return string(out)
}

func (m *Machine) concat(a, b *Str) *Str {
	if a.isConc() && b.isConc() {
		return mkStr(a.s + b.s)
	}
	if a.isConc() && a.s == "" {
		return b
	}
	if b.isConc() && b.s == "" {
		return a
	}
	x, y := m.strBytes(a), m.strBytes(b)
	r := m.strOf(append(append(make([]*Term, 0, len(x)+len(y)), x...), y...))
	if (a.tag != "" || b.tag != "") && r.isConc() {
		r = &Str{s: r.s, tag: "opaque"}
	}
	return r
}

// strEq is string equality.
func (m *Machine) strEq(a, b *Str) *Term {
	if a.isConc() && b.isConc() {
		return m.T.Bool(a.s == b.s)
	}
	if a.a != nil || b.a != nil {
		return m.winEq(m.strWin(a), m.strWin(b))
	}
	if a.length() != b.length() {
		return m.T.False
	}
	x, y := m.strBytes(a), m.strBytes(b)
	cs := make([]*Term, len(x))
	for i := range x {
		cs[i] = m.T.Eq(x[i], y[i])
		if cs[i] == m.T.False {
			return m.T.False
		}
	}
	return m.T.And(cs...)
}

type win struct {
	a      *ArrSym
	off, n *Term
}

func (m *Machine) strWin(s *Str) win {
	if s.a != nil {
		return win{s.a, s.off, s.n}
	}
	b := m.strBytes(s)
	return win{&ArrSym{vec: append([]*Term{}, b...)}, m.T.Const(64, 0), m.T.Const(64, uint64(len(b)))}
}

const forcedEq = 2

// winEq decides equality of two byte windows.  Contents are compared at a
// fresh index (sound for proving equality: the index is universally
// quantified by being unconstrained).
func (m *Machine) winEq(a, b win) *Term {
	T := m.T
	le := T.Eq(a.n, b.n)
	if le == T.False {
		return le
	}
	ra, oa := resolve(m, a)
	rb, ob := resolve(m, b)
	if ra == rb && len(ra.over) == 0 {
		if T.Eq(oa, ob) == T.True {
			return le
		}
	}
	if a.n.IsConst() && b.n.IsConst() && a.n.val <= 4096 {
		if a.n.val != b.n.val {
			return T.False
		}
		var cs []*Term
		for i := uint64(0); i < a.n.val; i++ {
			k := T.Const(64, i)
			cs = append(cs, T.Eq(m.sel(a.a, T.Add(a.off, k)), m.sel(b.a, T.Add(b.off, k))))
		}
		return T.And(append(cs, le)...)
	}
	// First decide the lengths, then the contents at an arbitrary index.
	if !m.branch(le, "len==") {
		return T.False
	}
	m.fresh++
	k := T.Var(fmt.Sprintf("k!%d", m.fresh), 64, 0, ^uint64(0))
	same := T.Eq(m.sel(a.a, T.Add(a.off, k)), m.sel(b.a, T.Add(b.off, k)))
	diff := T.And(T.Ult(k, a.n), T.Not(same))
	// windows that cannot differ leave no trace on the path
	if len(m.decs) < len(m.prefix) {
		if d := m.prefix[len(m.decs)]; d.K == dBranch && d.V == forcedEq {
			m.decide(d)
			return T.True
		}
	} else if r, _ := m.feasible(diff); r == Unsat {
		m.decide(Decision{dBranch, forcedEq})
		return T.True
	}
	// "exists an index at which they differ": the decision is forked
	if m.branch(diff, "bytes differ") {
		return T.False
	}
	// On this path the bytes agree at the arbitrary index; the path where
	// they may differ is explored separately, so equality holds here.
	return T.True
}

func resolve(m *Machine, a win) (*ArrSym, *Term) {
	x, off := a.a, a.off
	for x.base != nil && len(x.over) == 0 {
		off = m.T.Add(off, x.shift)
		x = x.base
	}
	return x, off
}
