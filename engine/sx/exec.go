package sx

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (m *Machine) jump(f *Frame, to *ssa.BasicBlock) {
	f.prev = f.blk
	f.blk = to.Index
	f.pc = 0
	m.block(f)
	cb := &f.cf.blocks[f.blk]
	if cb.phis > 0 {
		// which predecessor
		k := -1
		for i, p := range to.Preds {
			if p.Index == f.prev {
				k = i
				break
			}
		}
		var tmp [8]Value
		vs := tmp[:0]
		for i := 0; i < cb.phis; i++ {
			o := &cb.ins[i].ops[k]
			if o.reg >= 0 {
				vs = append(vs, f.regs[o.reg])
			} else {
				vs = append(vs, m.val(f, o))
			}
		}
		for i := 0; i < cb.phis; i++ {
			f.regs[cb.ins[i].dst] = vs[i]
		}
		f.pc = cb.phis
	}
}

func (m *Machine) exec(g *G, f *Frame) {
	m.steps++
	if m.steps&1023 == 0 && !m.S.Until.IsZero() && time.Now().After(m.S.Until) {
		m.unsupported("time bound of a path")
	}
	if m.steps > m.MaxSteps {
		m.unsupported("step bound %d", m.MaxSteps)
	}
	ci := &f.cf.blocks[f.blk].ins[f.pc]
	set := func(v Value) {
		f.regs[ci.dst] = v
		f.pc++
	}
	switch in := ci.in.(type) {
	case *ssa.BinOp:
		set(m.binop(in.Op, m.val(f, &ci.ops[0]), m.val(f, &ci.ops[1]), in.X.Type(), in.Y.Type()))
	case *ssa.UnOp:
		if in.Op == token.ARROW {
			m.execRecv(g, f, ci, in)
			return
		}
		set(m.unop(in, m.val(f, &ci.ops[0])))
	case *ssa.Store:
		m.store(m.val(f, &ci.ops[0]).(Ptr), m.val(f, &ci.ops[1]), in.Val.Type())
		f.pc++
	case *ssa.Alloc:
		et := in.Type().Underlying().(*types.Pointer).Elem()
		if at, ok := et.Underlying().(*types.Array); ok && at.Len() > 0 && m.layout(at.Elem()).n > 0 {
			set(Ptr{obj: m.newObject(at.Elem(), int(at.Len()), "")})
			break
		}
		set(Ptr{obj: m.newObject(et, 1, "")})
	case *ssa.FieldAddr:
		p := m.val(f, &ci.ops[0]).(Ptr)
		if p.obj == nil {
			m.nilDeref()
		}
		if p.idx != nil {
			m.unsupported("field of symbolic element")
		}
		l := m.layout(in.X.Type().Underlying().(*types.Pointer).Elem())
		set(Ptr{obj: p.obj, off: p.off + l.offs[in.Field]})
	case *ssa.Field:
		a := m.val(f, &ci.ops[0]).(Agg)
		l := m.layout(in.X.Type())
		ft := in.Type()
		o := l.offs[in.Field]
		if isAgg(ft) {
			n := m.layout(ft).n
			set(Agg(a[o : o+n : o+n]))
		} else {
			set(a[o])
		}
	case *ssa.IndexAddr:
		set(m.indexAddr(in, m.val(f, &ci.ops[0]), m.val(f, &ci.ops[1]).(*Term)))
	case *ssa.Index:
		set(m.index(in, m.val(f, &ci.ops[0]), m.val(f, &ci.ops[1]).(*Term)))
	case *ssa.Lookup:
		x := m.val(f, &ci.ops[0])
		if s, ok := x.(*Str); ok {
			set(m.strIndex(s, m.val(f, &ci.ops[1]).(*Term), in.Index.Type()))
			return
		}
		mt := in.X.Type().Underlying().(*types.Map)
		v, okv := m.mapLookup(x.(*MapObj), m.val(f, &ci.ops[1]), mt)
		if in.CommaOk {
			set(Tuple{v, okv})
		} else {
			set(v)
		}
	case *ssa.MapUpdate:
		mt := in.Map.Type().Underlying().(*types.Map)
		m.mapUpdate(m.val(f, &ci.ops[0]).(*MapObj), m.val(f, &ci.ops[1]), m.val(f, &ci.ops[2]), mt)
		f.pc++
	case *ssa.Phi:
		panic("phi executed")
	case *ssa.If:
		c := m.val(f, &ci.ops[0]).(*Term)
		b := f.cf.fn.Blocks[f.blk]
		if !c.IsConst() && m.ifConvert(f, b, c) {
			return
		}
		if m.branch(c, "if") {
			m.jump(f, b.Succs[0])
		} else {
			m.jump(f, b.Succs[1])
		}
	case *ssa.Jump:
		m.jump(f, f.cf.fn.Blocks[f.blk].Succs[0])
	case *ssa.Return:
		var v Value
		switch len(ci.ops) {
		case 0:
			v = Tuple{}
		case 1:
			v = m.val(f, &ci.ops[0])
		default:
			t := make(Tuple, len(ci.ops))
			for i := range ci.ops {
				t[i] = m.val(f, &ci.ops[i])
			}
			v = t
		}
		m.ret(g, v)
	case *ssa.Call:
		m.execCall(g, f, ci, &in.Call)
	case *ssa.Go:
		cl, args := m.callee(f, ci, &in.Call)
		if cl == nil {
			m.nilDeref()
		}
		f.pc++
		m.spawn(g, cl, args, in)
	case *ssa.Defer:
		cl, args := m.callee(f, ci, &in.Call)
		f.defers = append(f.defers, deferRec{cl: cl, args: args, pos: in.Pos()})
		f.pc++
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			if d.cl == nil {
				m.nilDeref()
			}
			if d.cl.bi == nil && d.cl.nat == nil {
				cf := m.compile(d.cl.fn)
				if cf.intr == nil {
					nf := m.pushCall(g, d.cl, d.args, -1)
					nf.again = true
					return
				}
			}
			m.callAny(d.cl, d.args)
			return // same instruction again
		}
		f.pc++
	case *ssa.Panic:
		v := m.val(f, &ci.ops[0]).(Iface)
		panic(goPanic{v})
	case *ssa.Extract:
		set(m.val(f, &ci.ops[0]).(Tuple)[in.Index])
	case *ssa.MakeInterface:
		set(Iface{t: in.X.Type(), v: m.val(f, &ci.ops[0])})
	case *ssa.ChangeInterface:
		set(m.val(f, &ci.ops[0]))
	case *ssa.ChangeType:
		set(m.val(f, &ci.ops[0]))
	case *ssa.TypeAssert:
		m.typeAssert(f, ci, in)
	case *ssa.Convert:
		set(m.convert(m.val(f, &ci.ops[0]), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		set(m.convert(m.val(f, &ci.ops[0]), in.X.Type(), in.Type()))
	case *ssa.MakeClosure:
		cl := &Closure{fn: in.Fn.(*ssa.Function)}
		for i := 1; i < len(ci.ops); i++ {
			cl.binds = append(cl.binds, m.val(f, &ci.ops[i]))
		}
		set(cl)
	case *ssa.MakeMap:
		set(m.newMap(in.Type()))
	case *ssa.MakeSlice:
		set(m.makeSlice(in, m.val(f, &ci.ops[0]).(*Term), m.val(f, &ci.ops[1]).(*Term)))
	case *ssa.MakeChan:
		n := m.val(f, &ci.ops[0]).(*Term)
		set(m.newChan(int(m.concretize(n, "channel size")), in.Type().Underlying().(*types.Chan).Elem()))
	case *ssa.Slice:
		set(m.slice3(f, ci, in))
	case *ssa.SliceToArrayPointer:
		s := m.val(f, &ci.ops[0]).(Slice)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if s.s != nil {
			m.unsupported("array pointer from symbolic window")
		}
		if int64(s.len) < n {
			m.goPanicStr("runtime error: cannot convert slice to array pointer")
		}
		if s.obj == nil {
			set(Ptr{})
			return
		}
		set(Ptr{obj: s.obj, off: s.off * s.obj.lay.n})
	case *ssa.Range:
		set(m.newIter(m.val(f, &ci.ops[0]), in.X.Type(), f.cf.repo))
	case *ssa.Next:
		set(m.iterNext(m.val(f, &ci.ops[0]).(*iter), in))
	case *ssa.Send:
		m.execSend(g, f, ci, in)
	case *ssa.Select:
		m.execSelect(g, f, ci, in)
	default:
		m.unsupported("instruction %T", ci.in)
	}
}

// ---- operators ----

func (m *Machine) binop(op token.Token, x, y Value, xt, yt types.Type) Value {
	T := m.T
	switch op {
	case token.EQL:
		return m.eq(x, y)
	case token.NEQ:
		return T.Not(m.eq(x, y))
	}
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		w, signed, _ := intWidth(xt.Underlying().(*types.Basic))
		switch op {
		case token.ADD:
			return T.Add(a, b)
		case token.SUB:
			return T.Sub(a, b)
		case token.MUL:
			return T.Mul(a, b)
		case token.QUO, token.REM:
			z := T.Eq(b, T.Const(b.w, 0))
			if z != T.False && m.branch(z, "division by zero") {
				m.goPanicStr("runtime error: integer divide by zero")
			}
			if signed {
				if op == token.QUO {
					return T.SDiv(a, b)
				}
				return T.SRem(a, b)
			}
			if op == token.QUO {
				return T.UDiv(a, b)
			}
			return T.URem(a, b)
		case token.AND:
			if w == 0 {
				return T.And(a, b)
			}
			return T.BAnd(a, b)
		case token.OR:
			if w == 0 {
				return T.Or(a, b)
			}
			return T.BOr(a, b)
		case token.XOR:
			return T.BXor(a, b)
		case token.AND_NOT:
			return T.BAnd(a, T.BNot(b))
		case token.SHL, token.SHR:
			bw, bs, _ := intWidth(yt.Underlying().(*types.Basic))
			if bs {
				neg := T.Slt(b, T.Const(bw, 0))
				if neg != T.False && m.branch(neg, "negative shift") {
					m.goPanicStr("runtime error: negative shift amount")
				}
			}
			o := OShl
			if op == token.SHR {
				o = OLShr
				if signed {
					o = OAShr
				}
			}
			return T.Shift(o, a, b)
		case token.LSS:
			if signed {
				return T.Slt(a, b)
			}
			return T.Ult(a, b)
		case token.LEQ:
			if signed {
				return T.Sle(a, b)
			}
			return T.Ule(a, b)
		case token.GTR:
			if signed {
				return T.Slt(b, a)
			}
			return T.Ult(b, a)
		case token.GEQ:
			if signed {
				return T.Sle(b, a)
			}
			return T.Ule(b, a)
		}
	case *Str:
		b := y.(*Str)
		switch op {
		case token.ADD:
			return m.concat(a, b)
		case token.LSS:
			return m.strLess(a, b)
		case token.GTR:
			return m.strLess(b, a)
		case token.LEQ:
			return T.Not(m.strLess(b, a))
		case token.GEQ:
			return T.Not(m.strLess(a, b))
		}
	case Flt:
		b := y.(Flt)
		if a.t.IsConst() && b.t.IsConst() {
			return m.fltOp(op, a, b)
		}
		return m.fltSym(op, a, b)
	}
	m.unsupported("operator %s on %T", op, x)
	return nil
}

func (m *Machine) fltOp(op token.Token, a, b Flt) Value {
	if a.w == 32 {
		x, y := math.Float32frombits(uint32(a.t.val)), math.Float32frombits(uint32(b.t.val))
		switch op {
		case token.LSS:
			return m.T.Bool(x < y)
		case token.LEQ:
			return m.T.Bool(x <= y)
		case token.GTR:
			return m.T.Bool(x > y)
		case token.GEQ:
			return m.T.Bool(x >= y)
		}
		var r float32
		switch op {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		}
		return Flt{t: m.T.Const(32, uint64(math.Float32bits(r))), w: 32}
	}
	x, y := math.Float64frombits(a.t.val), math.Float64frombits(b.t.val)
	switch op {
	case token.LSS:
		return m.T.Bool(x < y)
	case token.LEQ:
		return m.T.Bool(x <= y)
	case token.GTR:
		return m.T.Bool(x > y)
	case token.GEQ:
		return m.T.Bool(x >= y)
	}
	var r float64
	switch op {
	case token.ADD:
		r = x + y
	case token.SUB:
		r = x - y
	case token.MUL:
		r = x * y
	case token.QUO:
		r = x / y
	}
	return m.float64(r)
}

// fltParts gives the bits to compare two floats by (both at one width).
func (m *Machine) fltKey(a Flt) (bits *Term, w uint8) {
	if a.w32 != nil {
		return a.w32, 32
	}
	return a.t, a.w
}

func (m *Machine) fltNaN(b *Term) *Term {
	T := m.T
	if b.w == 32 {
		return T.And(T.Eq(T.Extract(b, 30, 23), T.Const(8, 255)), T.Not(T.Eq(T.Extract(b, 22, 0), T.Const(23, 0))))
	}
	return T.And(T.Eq(T.Extract(b, 62, 52), T.Const(11, 2047)), T.Not(T.Eq(T.Extract(b, 51, 0), T.Const(52, 0))))
}

// fltSym compares symbolic floats.
func (m *Machine) fltSym(op token.Token, a, b Flt) Value {
	T := m.T
	x, y := a.t, b.t
	if a.w32 != nil && b.t.IsConst() && b.w == 64 {
		// compare at 32 bits when the constant is exactly representable
		f := math.Float64frombits(b.t.val)
		if float64(float32(f)) == f {
			x, y = a.w32, T.Const(32, uint64(math.Float32bits(float32(f))))
		}
	} else if a.w32 != nil && b.w32 != nil {
		x, y = a.w32, b.w32
	}
	if x.w != y.w {
		m.unsupported("float comparison of mixed widths")
	}
	w := x.w
	zero := func(t *Term) *Term { return T.Eq(T.Extract(t, w-2, 0), T.Const(w-1, 0)) }
	nan := T.Or(m.fltNaN(x), m.fltNaN(y))
	bothZero := T.And(zero(x), zero(y))
	// total order key: flip
	sx, sy := T.Eq(T.Extract(x, w-1, w-1), T.Const(1, 1)), T.Eq(T.Extract(y, w-1, w-1), T.Const(1, 1))
	lt := T.Ite(sx, T.Ite(sy, T.Ult(y, x), T.True), T.Ite(sy, T.False, T.Ult(x, y)))
	gt := T.Ite(sx, T.Ite(sy, T.Ult(x, y), T.False), T.Ite(sy, T.True, T.Ult(y, x)))
	ok := T.Not(nan)
	nz := T.Not(bothZero)
	switch op {
	case token.LSS:
		return T.And(ok, nz, lt)
	case token.GTR:
		return T.And(ok, nz, gt)
	case token.LEQ:
		return T.And(ok, T.Or(bothZero, lt, T.Eq(x, y)))
	case token.GEQ:
		return T.And(ok, T.Or(bothZero, gt, T.Eq(x, y)))
	}
	m.unsupported("float arithmetic on symbolic values")
	return nil
}

func (m *Machine) strLess(a, b *Str) *Term {
	if a.isConc() && b.isConc() {
		return m.T.Bool(a.s < b.s)
	}
	return m.bytesLess(m.strBytes(a), m.strBytes(b))
}

// bytesLess is lexicographic order.
func (m *Machine) bytesLess(x, y []*Term) *Term {
	T := m.T
	n := min(len(x), len(y))
	r := T.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = T.Or(T.Ult(x[i], y[i]), T.And(T.Eq(x[i], y[i]), r))
	}
	return r
}

// eq is Go's == as a term.
func (m *Machine) eq(x, y Value) *Term {
	T := m.T
	switch a := x.(type) {
	case *Term:
		return T.Eq(a, y.(*Term))
	case *Str:
		b := y.(*Str)
		if a.tag != "" || b.tag != "" {
			m.unsupported("comparison of text that is not modelled")
		}
		return m.strEq(a, b)
	case Ptr:
		b, ok := y.(Ptr)
		if !ok {
			return T.False
		}
		if a.obj != b.obj || a.off != b.off {
			if a.obj == b.obj && (a.idx != nil || b.idx != nil) {
				m.unsupported("comparison of symbolic pointers")
			}
			return T.False
		}
		if a.idx == b.idx {
			return T.True
		}
		m.unsupported("comparison of symbolic pointers")
	case Flt:
		b := y.(Flt)
		if a.t.IsConst() && b.t.IsConst() {
			if a.w == 32 {
				return T.Bool(math.Float32frombits(uint32(a.t.val)) == math.Float32frombits(uint32(b.t.val)))
			}
			return T.Bool(math.Float64frombits(a.t.val) == math.Float64frombits(b.t.val))
		}
		l := m.fltSym(token.LEQ, a, b).(*Term)
		g := m.fltSym(token.GEQ, a, b).(*Term)
		return T.And(l, g)
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			m.unsupported("comparison of interface with %T", y)
		}
		if a.t == nil || b.t == nil {
			return T.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return T.False
		}
		switch a.v.(type) {
		case *MapObj, Slice, *Closure:
			m.goPanicStr("runtime error: comparing uncomparable type " + a.t.String())
		}
		return m.eq(a.v, b.v)
	case Agg:
		b := y.(Agg)
		cs := make([]*Term, 0, len(a))
		for i := range a {
			c := m.eq(a[i], b[i])
			if c == T.False {
				return c
			}
			cs = append(cs, c)
		}
		return T.And(cs...)
	case *MapObj:
		b, _ := y.(*MapObj)
		return T.Bool(a == b)
	case *Chan:
		b, _ := y.(*Chan)
		return T.Bool(a == b)
	case *Closure:
		b, _ := y.(*Closure)
		return T.Bool(a == nil && b == nil)
	case Slice:
		b, ok := y.(Slice)
		return T.Bool(ok && a.obj == nil && b.obj == nil)
	}
	m.unsupported("comparison of %T", x)
	return nil
}

func (m *Machine) unop(in *ssa.UnOp, x Value) Value {
	T := m.T
	switch in.Op {
	case token.MUL:
		return m.load(x.(Ptr), in.Type())
	case token.NOT:
		return T.Not(x.(*Term))
	case token.SUB:
		switch a := x.(type) {
		case *Term:
			return T.Neg(a)
		case Flt:
			sign := T.Const(a.w, uint64(1)<<(a.w-1))
			return Flt{t: T.BXor(a.t, sign), w: a.w}
		}
	case token.XOR:
		return T.BNot(x.(*Term))
	}
	m.unsupported("unary %s on %T", in.Op, x)
	return nil
}

// ---- conversions ----

func (m *Machine) convert(x Value, from, to types.Type) Value {
	T := m.T
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		if w, _, ok := intWidth(tb); ok {
			switch a := x.(type) {
			case *Term:
				_, fs, _ := intWidth(fu.(*types.Basic))
				return T.Resize(a, w, fs)
			case Flt:
				if !a.t.IsConst() {
					m.unsupported("symbolic float to integer")
				}
				var f float64
				if a.w == 32 {
					f = float64(math.Float32frombits(uint32(a.t.val)))
				} else {
					f = math.Float64frombits(a.t.val)
				}
				if tb.Info()&types.IsUnsigned != 0 {
					return T.Const(w, uint64(f))
				}
				return T.Const(w, uint64(int64(f)))
			case Ptr: // unsafe.Pointer to uintptr
				m.unsupported("pointer to integer")
			}
		}
		switch tb.Kind() {
		case types.Float64, types.Float32:
			return m.toFloat(x, fu, tb.Kind() == types.Float32)
		case types.String:
			switch a := x.(type) {
			case Slice:
				el := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
				if el.Kind() == types.Byte {
					return m.sliceToStr(a)
				}
				// []rune
				var out []byte
				for i := 0; i < a.len; i++ {
					r := m.concretize(a.obj.get(a.off+i).(*Term), "rune")
					out = utf8.AppendRune(out, rune(int32(r)))
				}
				return mkStr(string(out))
			case *Term:
				r := m.concretize(a, "rune")
				return mkStr(string(rune(sext64(r, a.w))))
			case *Str:
				return a
			}
		case types.UnsafePointer:
			return x
		}
	}
	switch tt := tu.(type) {
	case *types.Slice:
		if s, ok := x.(*Str); ok {
			el := tt.Elem().Underlying().(*types.Basic)
			if el.Kind() == types.Byte {
				return m.strToSlice(s)
			}
			rs := []rune(m.mustConc(s))
			o := m.newObject(tt.Elem(), len(rs), "")
			for i, r := range rs {
				o.slots[i] = T.Const(32, uint64(uint32(r)))
			}
			return Slice{obj: o, len: len(rs), cap: len(rs)}
		}
		return x
	case *types.Pointer:
		if p, ok := x.(Ptr); ok {
			return p
		}
	}
	if types.Identical(fu, tu) {
		return x
	}
	m.unsupported("conversion from %s to %s", from, to)
	return nil
}

func (m *Machine) toFloat(x Value, from types.Type, f32 bool) Value {
	T := m.T
	switch a := x.(type) {
	case Flt:
		if f32 {
			if a.w == 32 {
				return a
			}
			if a.w32 != nil {
				return Flt{t: a.w32, w: 32}
			}
			if !a.t.IsConst() {
				m.unsupported("symbolic float64 to float32")
			}
			return Flt{t: T.Const(32, uint64(math.Float32bits(float32(math.Float64frombits(a.t.val))))), w: 32}
		}
		if a.w == 64 {
			return a
		}
		if a.t.IsConst() {
			return m.float64(float64(math.Float32frombits(uint32(a.t.val))))
		}
		return Flt{t: T.UF("widen", 64, 0, ^uint64(0), a.t), w: 64, w32: a.t}
	case *Term:
		if !a.IsConst() {
			m.unsupported("symbolic integer to float")
		}
		_, fs, _ := intWidth(from.(*types.Basic))
		var f float64
		if fs {
			f = float64(sext64(a.val, a.w))
		} else {
			f = float64(a.val)
		}
		if f32 {
			return Flt{t: T.Const(32, uint64(math.Float32bits(float32(f)))), w: 32}
		}
		return m.float64(f)
	}
	m.unsupported("conversion of %T to float", x)
	return nil
}

var byteT = types.Typ[types.Byte]

func (m *Machine) strToSlice(s *Str) Slice {
	if s.a != nil {
		o := &Object{id: m.nobj, lay: m.layout(byteT), epoch: m.epoch, arr: s.a, alen: s.n, m: m}
		m.nobj++
		o.arr = &ArrSym{base: s.a, shift: s.off}
		z := m.T.Const(64, 0)
		return Slice{obj: o, s: &symWin{z, s.n, s.n}}
	}
	if s.tag != "" {
		// contents unknown but never inspected by the property
	}
	n := s.length()
	c := growCap(0, n, 1)
	if n == 0 {
		o := m.newObject(byteT, 0, "")
		return Slice{obj: o}
	}
	o := m.newObject(byteT, c, "")
	if s.b != nil {
		for i, b := range s.b {
			o.slots[i] = b
		}
	} else {
		for i := 0; i < n; i++ {
			o.slots[i] = m.T.Const(8, uint64(s.s[i]))
		}
	}
	return Slice{obj: o, len: n, cap: c}
}

func (m *Machine) sliceToStr(a Slice) Value {
	if a.s != nil && a.obj.arr != nil {
		if a.s.len.IsConst() && a.s.len.val == 0 {
			return emptyStr
		}
		if !a.s.len.IsConst() || a.s.len.val > 4096 {
			return &Str{a: a.obj.arr, off: a.s.off, n: a.s.len}
		}
	}
	return m.strOf(m.bytesOf(a))
}

// bytesOf reads the bytes of a slice; a symbolic length is concretised.
func (m *Machine) bytesOf(a Slice) []*Term {
	if a.obj == nil {
		return nil
	}
	if m.race != nil && a.s == nil && a.len > 0 {
		m.race.access(m, Ptr{obj: a.obj, off: a.off}, a.len, false)
	}
	n, off := a.len, a.off
	if a.s != nil {
		n = m.concretizeLen(a.s.len)
		if a.obj.arr != nil {
			out := make([]*Term, n)
			for i := range out {
				out[i] = m.sel(a.obj.arr, m.T.Add(a.s.off, m.T.Const(64, uint64(i))))
			}
			return out
		}
		off = m.concretizeLen(a.s.off)
	}
	out := make([]*Term, n)
	for i := range out {
		out[i] = a.obj.get(off + i).(*Term)
	}
	return out
}

// newBytes allocates a byte slice with the given contents.
func (m *Machine) newBytes(b []*Term) Slice {
	o := m.newObject(byteT, len(b), "")
	for i, x := range b {
		o.slots[i] = x
	}
	return Slice{obj: o, len: len(b), cap: len(b)}
}

// ---- slices ----

func (m *Machine) win(s Slice) (off, n, c *Term) {
	if s.s != nil {
		return s.s.off, s.s.len, s.s.cap
	}
	k := func(i int) *Term { return m.T.Const(64, uint64(i)) }
	return k(s.off), k(s.len), k(s.cap)
}

func (m *Machine) mkSlice(o *Object, off, n, c *Term) Slice {
	if o != nil && o.arr == nil && off.IsConst() && n.IsConst() && c.IsConst() {
		return Slice{obj: o, off: int(off.val), len: int(n.val), cap: int(c.val)}
	}
	return Slice{obj: o, s: &symWin{off, n, c}}
}

func (m *Machine) idxTerm(i *Term, t types.Type) *Term {
	_, signed, _ := intWidth(t.Underlying().(*types.Basic))
	return m.T.Resize(i, 64, signed)
}

func (m *Machine) boundsFail(i, n *Term) {
	m.goPanicStr(fmt.Sprintf("runtime error: index out of range [%s] with length %s", shortTerm(i), shortTerm(n)))
}

func (m *Machine) indexAddr(in *ssa.IndexAddr, x Value, i *Term) Value {
	i = m.idxTerm(i, in.Index.Type())
	switch a := x.(type) {
	case Ptr: // *array
		if a.obj == nil {
			m.nilDeref()
		}
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := int(at.Len())
		es := m.layout(at.Elem()).n
		if i.IsConst() {
			if i.val >= uint64(n) {
				m.boundsFail(i, m.T.Const(64, uint64(n)))
			}
			return Ptr{obj: a.obj, off: a.off + int(i.val)*es}
		}
		if !m.branch(m.T.Ult(i, m.T.Const(64, uint64(n))), "bounds") {
			m.boundsFail(i, m.T.Const(64, uint64(n)))
		}
		if es != 1 {
			k := m.concretize(i, "index")
			return Ptr{obj: a.obj, off: a.off + int(k)*es}
		}
		return Ptr{obj: a.obj, off: a.off, idx: i, cnt: n}
	case Slice:
		if a.s == nil {
			if i.IsConst() {
				if i.val >= uint64(a.len) {
					m.boundsFail(i, m.T.Const(64, uint64(a.len)))
				}
				return Ptr{obj: a.obj, off: (a.off + int(i.val)) * a.obj.lay.n}
			}
			if !m.branch(m.T.Ult(i, m.T.Const(64, uint64(a.len))), "bounds") {
				m.boundsFail(i, m.T.Const(64, uint64(a.len)))
			}
			if a.obj.lay.n != 1 {
				k := m.concretize(i, "index")
				return Ptr{obj: a.obj, off: (a.off + int(k)) * a.obj.lay.n}
			}
			return Ptr{obj: a.obj, off: a.off, idx: i, cnt: a.len}
		}
		if !m.branch(m.T.Ult(i, a.s.len), "bounds") {
			m.boundsFail(i, a.s.len)
		}
		j := m.T.Add(a.s.off, i)
		if a.obj.arr != nil {
			return Ptr{obj: a.obj, idx: j}
		}
		if j.IsConst() {
			return Ptr{obj: a.obj, off: int(j.val) * a.obj.lay.n}
		}
		if a.obj.lay.n != 1 {
			k := m.concretize(j, "index")
			return Ptr{obj: a.obj, off: int(k) * a.obj.lay.n}
		}
		return Ptr{obj: a.obj, off: 0, idx: j, cnt: len(a.obj.slots)}
	}
	m.unsupported("IndexAddr on %T", x)
	return nil
}

func (m *Machine) index(in *ssa.Index, x Value, i *Term) Value {
	if s, ok := x.(*Str); ok {
		return m.strIndex(s, i, in.Index.Type())
	}
	i = m.idxTerm(i, in.Index.Type())
	a := x.(Agg)
	at := in.X.Type().Underlying().(*types.Array)
	es := m.layout(at.Elem()).n
	n := m.T.Const(64, uint64(at.Len()))
	if !m.branch(m.T.Ult(i, n), "bounds") {
		m.boundsFail(i, n)
	}
	if !i.IsConst() && es == 1 {
		if _, ok := a[0].(*Term); ok {
			return m.iteTree(i, 0, int(at.Len()), func(k int) *Term { return a[k].(*Term) })
		}
	}
	k := int(m.concretize(i, "index"))
	if isAgg(at.Elem()) {
		return Agg(a[k*es : (k+1)*es : (k+1)*es])
	}
	return a[k]
}

func (m *Machine) strIndex(s *Str, i *Term, it types.Type) Value {
	i = m.idxTerm(i, it)
	n := m.strLen(s)
	if !m.branch(m.T.Ult(i, n), "bounds") {
		m.boundsFail(i, n)
	}
	if s.a != nil {
		return m.sel(s.a, m.T.Add(s.off, i))
	}
	if i.IsConst() {
		return m.strAt(s, int(i.val))
	}
	return m.iteTree(i, 0, s.length(), func(k int) *Term { return m.strAt(s, k) })
}

// few forks on a length that is one of a few constants.
func (m *Machine) few(t *Term) *Term {
	if t == nil || t.IsConst() {
		return t
	}
	n := 0
	var walk func(x *Term) bool
	walk = func(x *Term) bool {
		if x.IsConst() {
			n++
			return n <= 8
		}
		return x.op == OIte && walk(x.args[1]) && walk(x.args[2])
	}
	if walk(t) {
		return m.T.Const(t.w, m.concretize(t, "length"))
	}
	return t
}

// bigLen is the length from which byte slices are kept as windows.
const bigLen = 1 << 15

func (m *Machine) makeSlice(in *ssa.MakeSlice, n, c *Term) Value {
	et := in.Type().Underlying().(*types.Slice).Elem()
	n = m.idxTerm(n, in.Len.Type())
	if in.Cap == in.Len {
		n = m.few(n)
		c = n
	} else {
		n, c = m.few(n), m.few(m.idxTerm(c, in.Cap.Type()))
	}
	isByte := false
	if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
		isByte = true
	}
	if n.IsConst() && c.IsConst() {
		if isByte && n.val <= c.val && c.val >= bigLen && c.val < 1<<40 {
			m.nobj++
			o := &Object{id: m.nobj, lay: m.layout(et), epoch: m.epoch, arr: &ArrSym{zero: true}, alen: c, m: m}
			return Slice{obj: o, s: &symWin{m.T.Const(64, 0), n, c}}
		}
		if int64(n.val) < 0 || n.val > 1<<40 {
			m.goPanicStr("runtime error: makeslice: len out of range")
		}
		if c.val < n.val || c.val > 1<<40 {
			m.goPanicStr("runtime error: makeslice: cap out of range")
		}
		if c.val > 1<<22 {
			m.unsupported("make of %d elements", c.val)
		}
		o := m.newObject(et, int(c.val), "")
		return Slice{obj: o, len: int(n.val), cap: int(c.val)}
	}
	lim := m.T.Const(64, 1<<40)
	if !m.branch(m.T.Ult(n, lim), "makeslice") {
		m.goPanicStr("runtime error: makeslice: len out of range")
	}
	if n != c && !m.branch(m.T.And(m.T.Ule(n, c), m.T.Ult(c, lim)), "makeslice cap") {
		m.goPanicStr("runtime error: makeslice: cap out of range")
	}
	if isByte {
		m.nobj++
		o := &Object{id: m.nobj, lay: m.layout(et), epoch: m.epoch, arr: &ArrSym{zero: true}, alen: c, m: m}
		return Slice{obj: o, s: &symWin{m.T.Const(64, 0), n, c}}
	}
	cv := m.concretize(c, "capacity")
	nv := m.concretize(n, "length")
	if cv > 1<<20 {
		m.unsupported("make of %d elements", cv)
	}
	o := m.newObject(et, int(cv), "")
	return Slice{obj: o, len: int(nv), cap: int(cv)}
}

func (m *Machine) slice3(f *Frame, ci *cinstr, in *ssa.Slice) Value {
	T := m.T
	x := m.val(f, &ci.ops[0])
	k := 1
	next := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		t := m.val(f, &ci.ops[k]).(*Term)
		k++
		return m.idxTerm(t, v.Type())
	}
	// operands list nil entries too
	get := func(v ssa.Value) *Term {
		if v == nil {
			if k < len(ci.ops) && ci.ops[k].reg < 0 && ci.ops[k].v == nil && ci.ops[k].g == nil {
				k++
			}
			return nil
		}
		return next(v)
	}
	lo, hi, mx := m.few(get(in.Low)), m.few(get(in.High)), m.few(get(in.Max))
	if lo == nil {
		lo = T.Const(64, 0)
	}
	fail := func() {
		m.goPanicStr(fmt.Sprintf("runtime error: slice bounds out of range [%s:%s]", shortTerm(lo), shortTerm(hi)))
	}
	if s, ok := x.(*Str); ok {
		n := m.strLen(s)
		if hi == nil {
			hi = n
		}
		if !m.branch(T.And(T.Ule(lo, hi), T.Ule(hi, n)), "string bounds") {
			fail()
		}
		if lo.IsConst() && hi.IsConst() {
			return m.substr(s, int(lo.val), int(hi.val))
		}
		w := m.strWin(s)
		return &Str{a: w.a, off: T.Add(w.off, lo), n: T.Sub(hi, lo)}
	}
	var s Slice
	switch a := x.(type) {
	case Ptr:
		if a.obj == nil {
			m.nilDeref()
		}
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		el := m.layout(at.Elem())
		if el.n == 0 {
			m.unsupported("slice of zero-size elements")
		}
		n := int(at.Len())
		o := a.obj
		if o.lay.n != el.n || a.off%el.n != 0 {
			// view the array inside a struct through an aliasing object
			o = m.viewObject(a.obj, a.off, el, n)
			s = Slice{obj: o, off: 0, len: n, cap: n}
		} else {
			s = Slice{obj: o, off: a.off / el.n, len: n, cap: n}
		}
	case Slice:
		s = a
	default:
		m.unsupported("slice of %T", x)
	}
	if s.s == nil && lo.IsConst() && (hi == nil || hi.IsConst()) && (mx == nil || mx.IsConst()) {
		l, h, c := lo.val, uint64(s.len), uint64(s.cap)
		if hi != nil {
			h = hi.val
		}
		if mx != nil {
			c = mx.val
		}
		if c > uint64(s.cap) || h > c || l > h {
			m.goPanicStr(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with capacity %d", l, h, s.cap))
		}
		return Slice{obj: s.obj, off: s.off + int(l), len: int(h - l), cap: int(c - l)}
	}
	off, n, c := m.win(s)
	if hi == nil {
		hi = n
	}
	cc := c
	if mx == nil {
		mx = c
	} else {
		cc = mx
	}
	if !m.branch(T.And(T.Ule(lo, hi), T.Ule(hi, mx), T.Ule(mx, c)), "slice bounds") {
		fail()
	}
	if s.obj == nil {
		return s
	}
	return m.mkSlice(s.obj, T.Add(off, lo), T.Sub(hi, lo), T.Sub(cc, lo))
}

func shortTerm(t *Term) string {
	switch {
	case t == nil:
		return ""
	case t.IsConst():
		return fmt.Sprint(int64(t.val))
	}
	return "symbolic"
}

// viewObject makes an element view of part of another object's slots.
func (m *Machine) viewObject(o *Object, off int, el *Layout, n int) *Object {
	// slots are shared by sub-slicing the backing array
	need := el.n * n
	v := &Object{id: o.id, lay: el, epoch: o.epoch, site: o.site, view: true}
	if o.arr != nil {
		m.unsupported("view of an array-backed object")
	}
	v.slots = o.slots[off : off+need : off+need]
	for i := range v.slots {
		if v.slots[i] == nil {
			v.slots[i] = o.get(off + i)
		}
	}
	return v
}

// growCap is the capacity the Go runtime gives a slice grown from oldCap to
// hold n elements of size es bytes.
func growCap(oldCap, n, es int) int {
	newcap := n
	double := oldCap + oldCap
	if n <= double {
		if oldCap < 256 {
			newcap = double
		} else {
			newcap = oldCap
			for newcap < n {
				newcap += (newcap + 3*256) >> 2
			}
		}
	}
	return roundSize(newcap*es) / es
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundSize(n int) int {
	for _, c := range sizeClasses {
		if c >= n {
			return c
		}
	}
	return (n + 8191) / 8192 * 8192
}

var stdSizes = types.SizesFor("gc", "amd64")

func (m *Machine) appendVals(s Slice, add []Value, et types.Type) Slice {
	if s.s != nil {
		m.unsupported("append to a slice of symbolic length")
	}
	es := m.layout(et).n
	cnt := 0
	if es > 0 {
		cnt = len(add) / es
	}
	n := s.len + cnt
	if n <= s.cap && s.obj != nil {
		for i, v := range add {
			m.set(s.obj, (s.off+s.len)*es+i, v)
		}
		if m.race != nil && len(add) > 0 {
			m.race.access(m, Ptr{obj: s.obj, off: (s.off + s.len) * es}, len(add), true)
		}
		return Slice{obj: s.obj, off: s.off, len: n, cap: s.cap}
	}
	if cnt == 0 {
		return s
	}
	sz := max(int(stdSizes.Sizeof(et)), 1)
	c := growCap(s.cap, n, sz)
	o := m.newObject(et, c, "")
	for i := 0; i < s.len*es; i++ {
		o.slots[i] = s.obj.get(s.off*es + i)
	}
	copy(o.slots[s.len*es:], add)
	return Slice{obj: o, len: n, cap: c}
}

// leavesOf lists the leaf values of a slice's elements.
func (m *Machine) leavesOf(s Slice) []Value {
	if s.obj == nil || (s.s == nil && s.len == 0) {
		return nil
	}
	if s.s != nil {
		bs := m.bytesOf(s)
		out := make([]Value, len(bs))
		for i, b := range bs {
			out[i] = b
		}
		return out
	}
	es := s.obj.lay.n
	out := make([]Value, s.len*es)
	for i := range out {
		out[i] = s.obj.get(s.off*es + i)
	}
	if m.race != nil && len(out) > 0 {
		m.race.access(m, Ptr{obj: s.obj, off: s.off * es}, len(out), false)
	}
	return out
}

func (m *Machine) builtinAppend(dst Slice, src Value, st types.Type) Value {
	et := st.Underlying().(*types.Slice).Elem()
	isByte := false
	if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
		isByte = true
	}
	symLen := func(t *Term) bool { return !t.IsConst() || t.val >= bigLen }
	if isByte {
		var so, sn *Term
		var arr *ArrSym
		switch a := src.(type) {
		case *Str:
			if a.a != nil && symLen(a.n) {
				arr, so, sn = a.a, a.off, a.n
			}
		case Slice:
			if a.s != nil && a.obj.arr != nil && symLen(a.s.len) {
				arr, so, sn = a.obj.arr, a.s.off, a.s.len
			}
		}
		if arr != nil || dst.s != nil {
			if arr == nil {
				var bs []*Term
				switch a := src.(type) {
				case *Str:
					bs = m.strBytes(a)
				case Slice:
					bs = m.bytesOf(a)
				}
				arr, so, sn = &ArrSym{vec: append([]*Term{}, bs...)}, m.T.Const(64, 0), m.T.Const(64, uint64(len(bs)))
			}
			return m.appendSym(dst, arr, so, sn)
		}
	}
	switch a := src.(type) {
	case *Str:
		bs := m.strBytes(a)
		add := make([]Value, len(bs))
		for i, b := range bs {
			add[i] = b
		}
		return m.appendVals(dst, add, et)
	case Slice:
		return m.appendVals(dst, m.leavesOf(a), et)
	}
	m.unsupported("append of %T", src)
	return nil
}

// appendSym appends a window of symbolic length; the result never shares the
// spare capacity of dst unless it provably fits.
func (m *Machine) appendSym(dst Slice, arr *ArrSym, so, sn *Term) Value {
	T := m.T
	off, n, c := m.win(dst)
	total := T.Add(n, sn)
	if dst.obj != nil && m.branch(T.Ule(total, c), "append fits") {
		m.toArr(dst.obj)
		m.arrStore(dst.obj, arrWrite{idx: T.Add(off, n), n: sn, src: arr, sidx: so})
		return Slice{obj: dst.obj, s: &symWin{off, total, c}}
	}
	var base *ArrSym = &ArrSym{zero: true}
	if dst.obj != nil {
		base = &ArrSym{base: m.arrOf(dst.obj), shift: off}
	}
	na := &ArrSym{base: base, shift: T.Const(64, 0), over: []arrWrite{{idx: n, n: sn, src: arr, sidx: so}}}
	m.nobj++
	o := &Object{id: m.nobj, lay: m.layout(byteT), epoch: m.epoch, arr: na, alen: total, m: m}
	return Slice{obj: o, s: &symWin{T.Const(64, 0), total, total}}
}

// arrOf snapshots an object's bytes.
func (m *Machine) arrOf(o *Object) *ArrSym {
	if o.arr != nil {
		return o.arr
	}
	v := make([]*Term, len(o.slots))
	for i := range v {
		v[i] = o.get(i).(*Term)
	}
	return &ArrSym{vec: v}
}

// toArr turns a byte object into an array-backed one in place.
func (m *Machine) toArr(o *Object) {
	if o.arr != nil {
		return
	}
	if o.epoch != m.epoch {
		m.unsupported("symbolic write into initialised memory")
	}
	if o.view {
		m.unsupported("symbolic write into part of an object")
	}
	o.m = m
	o.arr = m.arrOf(o)
	o.alen = m.T.Const(64, uint64(len(o.slots)))
}

func (m *Machine) builtinCopy(dst Slice, src Value) Value {
	T := m.T
	var so, sn *Term
	var arr *ArrSym
	var leaves []Value
	switch a := src.(type) {
	case *Str:
		if a.a != nil {
			arr, so, sn = a.a, a.off, a.n
		} else {
			for _, b := range m.strBytes(a) {
				leaves = append(leaves, b)
			}
		}
	case Slice:
		if a.s != nil || (a.obj != nil && a.obj.arr != nil) {
			so, sn, _ = m.win(a)
			arr = m.arrOf(a.obj)
		} else {
			leaves = m.leavesOf(a)
		}
	}
	dsym := dst.s != nil || (dst.obj != nil && dst.obj.arr != nil)
	if arr == nil && !dsym {
		if dst.obj == nil {
			return T.Const(64, 0)
		}
		es := dst.obj.lay.n
		n := min(len(leaves)/max(es, 1), dst.len)
		if m.race != nil && n > 0 {
			m.race.access(m, Ptr{obj: dst.obj, off: dst.off * es}, n*es, true)
		}
		for i := 0; i < n*es; i++ {
			m.set(dst.obj, dst.off*es+i, leaves[i])
		}
		return T.Const(64, uint64(n))
	}
	if arr == nil {
		bs := make([]*Term, len(leaves))
		for i := range bs {
			bs[i] = leaves[i].(*Term)
		}
		arr, so, sn = &ArrSym{vec: bs}, T.Const(64, 0), T.Const(64, uint64(len(bs)))
	}
	if dst.obj == nil {
		return T.Const(64, 0)
	}
	off, dn, _ := m.win(dst)
	n := sn
	if !m.branch(T.Ule(sn, dn), "copy length") {
		n = dn
	}
	if n.IsConst() && n.val == 0 {
		return n
	}
	if dst.obj.arr == nil && n.IsConst() && off.IsConst() && n.val < bigLen {
		for i := uint64(0); i < n.val; i++ {
			m.set(dst.obj, int(off.val+i), m.sel(arr, T.Add(so, T.Const(64, i))))
		}
		return n
	}
	if dst.obj.arr == nil && dst.s == nil && dst.len <= 64 {
		// a few concrete cells: write each under its condition
		for i := 0; i < dst.len; i++ {
			k := T.Const(64, uint64(i))
			old, ok := dst.obj.get(dst.off + i).(*Term)
			if !ok {
				m.unsupported("copy of symbolic length")
			}
			m.set(dst.obj, dst.off+i, T.Ite(T.Ult(k, n), m.sel(arr, T.Add(so, k)), old))
		}
		return n
	}
	m.toArr(dst.obj)
	m.arrStore(dst.obj, arrWrite{idx: off, n: n, src: arr, sidx: so})
	return n
}

// ---- maps ----

func (m *Machine) newMap(t types.Type) *MapObj {
	m.nobj++
	return &MapObj{id: m.nobj, epoch: m.epoch, obj: &Object{id: m.nobj, lay: m.layout(byteT)}}
}

func (m *Machine) mapLog(mo *MapObj) {
	if mo.epoch != m.epoch {
		k, v, l, n := append([]Value(nil), mo.keys...), append([]Value(nil), mo.vals...), append([]bool(nil), mo.live...), mo.n
		m.undo = append(m.undo, undoRec{fn: func() { mo.keys, mo.vals, mo.live, mo.n = k, v, l, n }})
	}
}

// mapFind returns the entry equal to key, forking on undecided equalities.
func (m *Machine) mapFind(mo *MapObj, key Value) int {
	for i := range mo.keys {
		if !mo.live[i] {
			continue
		}
		c := m.eq(mo.keys[i], key)
		if c == m.T.True {
			return i
		}
		if c == m.T.False {
			continue
		}
		if m.branch(c, "map key") {
			return i
		}
	}
	return -1
}

func (m *Machine) mapAccess(mo *MapObj, w bool) {
	if m.race != nil && mo != nil {
		m.race.access(m, Ptr{obj: mo.obj}, 1, w)
	}
}

func (m *Machine) mapLookup(mo *MapObj, key Value, t *types.Map) (Value, *Term) {
	m.mapAccess(mo, false)
	if mo != nil {
		if i := m.mapFind(mo, key); i >= 0 {
			return mo.vals[i], m.T.True
		}
	}
	return m.zero(t.Elem()), m.T.False
}

func (m *Machine) mapUpdate(mo *MapObj, key, v Value, t *types.Map) {
	if mo == nil {
		m.goPanicStr("assignment to entry in nil map")
	}
	m.mapAccess(mo, true)
	m.mapLog(mo)
	if i := m.mapFind(mo, key); i >= 0 {
		mo.vals[i] = v
		return
	}
	mo.keys = append(mo.keys, key)
	mo.vals = append(mo.vals, v)
	mo.live = append(mo.live, true)
	mo.n++
}

func (m *Machine) mapDelete(mo *MapObj, key Value) {
	if mo == nil {
		return
	}
	m.mapAccess(mo, true)
	if i := m.mapFind(mo, key); i >= 0 {
		m.mapLog(mo)
		mo.live[i] = false
		mo.n--
	}
}

type iter struct {
	mo    *MapObj
	order []int
	i     int
	s     *Str
	kt    types.Type
	vt    types.Type
}

func (m *Machine) newIter(x Value, t types.Type, repo bool) Value {
	switch a := x.(type) {
	case *Str:
		return &iter{s: a}
	case *MapObj:
		mt := t.Underlying().(*types.Map)
		it := &iter{mo: a, kt: mt.Key(), vt: mt.Elem()}
		m.mapAccess(a, false)
		if a != nil {
			for i := range a.keys {
				if a.live[i] {
					it.order = append(it.order, i)
				}
			}
			if m.mapOrder && repo && len(it.order) > 1 && len(it.order) <= 4 {
				// any order
				rest := it.order
				var out []int
				for len(rest) > 0 {
					k := m.choice(len(rest), "map order")
					out = append(out, rest[k])
					rest = append(append([]int(nil), rest[:k]...), rest[k+1:]...)
				}
				it.order = out
			} else if m.mapOrder && repo && len(it.order) > 4 && m.choice(2, "map order") == 1 {
				for i, j := 0, len(it.order)-1; i < j; i, j = i+1, j-1 {
					it.order[i], it.order[j] = it.order[j], it.order[i]
				}
			}
		}
		return it
	}
	m.unsupported("range over %T", x)
	return nil
}

func (m *Machine) iterNext(it *iter, in *ssa.Next) Value {
	T := m.T
	if in.IsString {
		s := it.s
		n := s.length()
		if n < 0 {
			m.unsupported("range over string of symbolic length")
		}
		if it.i >= n {
			return Tuple{T.False, T.Const(64, 0), T.Const(32, 0)}
		}
		k := it.i
		b := m.strAt(s, k)
		if b.umax < 0x80 || m.branch(T.Ult(b, T.Const(8, 0x80)), "ascii") {
			it.i++
			return Tuple{T.True, T.Const(64, uint64(k)), T.ZExt(b, 32)}
		}
		// decode concretely
		var buf []byte
		for j := k; j < n && j < k+4; j++ {
			buf = append(buf, byte(m.concretize(m.strAt(s, j), "string byte")))
			if utf8.FullRune(buf) {
				break
			}
		}
		r, sz := utf8.DecodeRune(buf)
		it.i += sz
		return Tuple{T.True, T.Const(64, uint64(k)), T.Const(32, uint64(uint32(r)))}
	}
	zk, zv := m.tupleZero(in.Type(), 1), m.tupleZero(in.Type(), 2)
	if it.mo != nil {
		for it.i < len(it.order) {
			k := it.order[it.i]
			it.i++
			if k < len(it.mo.live) && it.mo.live[k] {
				return Tuple{T.True, it.mo.keys[k], it.mo.vals[k]}
			}
		}
	}
	return Tuple{T.False, zk, zv}
}

func (m *Machine) tupleZero(t types.Type, i int) Value {
	et := t.(*types.Tuple).At(i).Type()
	if b, ok := et.(*types.Basic); ok && b.Kind() == types.Invalid {
		return m.T.False
	}
	return m.zero(et)
}

// ---- interfaces ----

func (m *Machine) implements(t types.Type, it *types.Interface, key types.Type) bool {
	k := [2]types.Type{t, key}
	if v, ok := m.itabs[k]; ok {
		return v
	}
	v := types.Implements(t, it)
	m.itabs[k] = v
	return v
}

func (m *Machine) typeAssert(f *Frame, ci *cinstr, in *ssa.TypeAssert) {
	x := m.val(f, &ci.ops[0]).(Iface)
	ok := false
	var v Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		ok = x.t != nil && m.implements(x.t, it, in.AssertedType)
		v = x
	} else {
		ok = x.t != nil && types.Identical(x.t, in.AssertedType)
		v = x.v
	}
	if in.CommaOk {
		if !ok {
			v = m.zero(in.AssertedType)
		}
		f.regs[ci.dst] = Tuple{v, m.T.Bool(ok)}
		f.pc++
		return
	}
	if !ok {
		m.goPanicStr(fmt.Sprintf("interface conversion: %v is not %s", x.t, in.AssertedType))
	}
	f.regs[ci.dst] = v
	f.pc++
}

// method finds the implementation of an interface method.
func (m *Machine) method(t types.Type, meth *types.Func) *ssa.Function {
	k := methKey{t, meth.Name(), meth.Pkg()}
	if fn := m.mset[k]; fn != nil {
		return fn
	}
	fn := m.P.lookupMethod(t, meth)
	if fn == nil {
		m.unsupported("method %s of %s", meth.Name(), t)
	}
	m.mset[k] = fn
	return fn
}

// callMethod calls method name on x synchronously; ok is false when there is
// none.
func (m *Machine) callMethod(x Iface, name string, args ...Value) (Value, bool) {
	fn := m.P.methodByName(x.t, name)
	if fn == nil {
		return nil, false
	}
	return m.callSync(&Closure{fn: fn}, append([]Value{x.v}, args...)), true
}

// ---- calls ----

func (m *Machine) callee(f *Frame, ci *cinstr, c *ssa.CallCommon) (*Closure, []Value) {
	if c.IsInvoke() {
		x := m.val(f, &ci.ops[0]).(Iface)
		if x.t == nil {
			m.nilDeref()
		}
		args := make([]Value, 0, len(ci.ops))
		args = append(args, x.v)
		for i := range c.Args {
			args = append(args, m.val(f, &ci.ops[i+1]))
		}
		return &Closure{fn: m.method(x.t, c.Method)}, args
	}
	cl, _ := m.val(f, &ci.ops[0]).(*Closure)
	args := make([]Value, 0, len(ci.ops))
	for i := range c.Args {
		args = append(args, m.val(f, &ci.ops[i+1]))
	}
	return cl, args
}

type call struct {
	cl    *Closure
	args  []Value
	fn    *ssa.Function
	g     *G
	block bool // the intrinsic blocked; retry the call when resumed
	site  *ssa.CallCommon
}

func (m *Machine) execCall(g *G, f *Frame, ci *cinstr, c *ssa.CallCommon) {
	if m.inInit && f.cf.fn.Name() == "init" && !c.IsInvoke() {
		// imports are initialised on demand
		if fn, ok := c.Value.(*ssa.Function); ok && fn.Name() == "init" && fn.Pkg != f.cf.fn.Pkg {
			f.regs[ci.dst] = Tuple{}
			f.pc++
			return
		}
	}
	cl, args := m.callee(f, ci, c)
	if cl == nil {
		m.nilDeref()
	}
	if cl.bi != nil {
		f.regs[ci.dst] = m.builtin(f, cl.bi, args, c)
		f.pc++
		return
	}
	if cl.nat != nil {
		f.regs[ci.dst] = cl.nat(m, args)
		f.pc++
		return
	}
	cf := m.compile(cl.fn)
	if cf.intr != nil {
		k := call{cl: cl, args: args, fn: cl.fn, g: g, site: c}
		v, ok := cf.intr(m, &k)
		if k.block {
			return // retried
		}
		if ok {
			f.regs[ci.dst] = v
			f.pc++
			return
		}
	}
	m.pushCall(g, cl, args, ci.dst)
}

// callAny performs a call whose target is modelled or built in.
func (m *Machine) callAny(cl *Closure, args []Value) Value {
	if cl.bi != nil {
		return m.builtin(nil, cl.bi, args, nil)
	}
	return m.callSync(cl, args)
}

func (m *Machine) builtin(f *Frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	T := m.T
	switch b.Name() {
	case "len":
		switch a := args[0].(type) {
		case *Str:
			if a.tag != "" {
				m.unsupported("length of text that is not modelled")
			}
			return m.strLen(a)
		case Slice:
			_, n, _ := m.win(a)
			return n
		case *MapObj:
			if a == nil {
				return T.Const(64, 0)
			}
			m.mapAccess(a, false)
			return T.Const(64, uint64(a.n))
		case *Chan:
			if a == nil {
				return T.Const(64, 0)
			}
			return T.Const(64, uint64(len(a.buf)))
		case Ptr:
			return T.Const(64, uint64(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		case Agg:
			return T.Const(64, uint64(c.Args[0].Type().Underlying().(*types.Array).Len()))
		}
	case "cap":
		switch a := args[0].(type) {
		case Slice:
			_, _, c := m.win(a)
			return c
		case *Chan:
			if a == nil {
				return T.Const(64, 0)
			}
			return T.Const(64, uint64(a.cap))
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		return m.builtinAppend(args[0].(Slice), args[1], b.Type().(*types.Signature).Params().At(0).Type())
	case "copy":
		return m.builtinCopy(args[0].(Slice), args[1])
	case "delete":
		m.mapDelete(args[0].(*MapObj), args[1])
		return Tuple{}
	case "clear":
		switch a := args[0].(type) {
		case *MapObj:
			if a != nil {
				m.mapLog(a)
				a.keys, a.vals, a.live, a.n = nil, nil, nil, 0
			}
		case Slice:
			if a.s != nil {
				m.unsupported("clear of symbolic window")
			}
			if a.obj != nil {
				for i := a.off * a.obj.lay.n; i < (a.off+a.len)*a.obj.lay.n; i++ {
					m.set(a.obj, i, a.obj.lay.zero[i%a.obj.lay.n])
				}
			}
		}
		return Tuple{}
	case "min", "max":
		r := args[0]
		for _, x := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			t := b.Type().(*types.Signature).Params().At(0).Type()
			cond := m.binop(op, x, r, t, t).(*Term)
			if xt, ok := x.(*Term); ok {
				r = T.Ite(cond, xt, r.(*Term))
			} else if m.branch(cond, "min/max") {
				r = x
			}
		}
		return r
	case "print", "println":
		return Tuple{}
	case "recover":
		// valid when called by the deferred function itself
		g := m.cur
		fr := g.frames[len(g.frames)-1]
		if fr.rec != nil && !fr.rec.recovered {
			fr.rec.recovered = true
			return fr.rec.val
		}
		return Iface{}
	case "close":
		m.closeChan(args[0].(*Chan))
		return Tuple{}
	case "panic":
		panic(goPanic{args[0].(Iface)})
	case "ssa:wrapnilchk":
		p := args[0].(Ptr)
		if p.obj == nil {
			m.goPanicStr("value method called using nil pointer")
		}
		return p
	case "real", "imag", "complex":
	case "String": // unsafe.String(ptr, len)
		p := args[0].(Ptr)
		n := int(m.concretize(args[1].(*Term), "length"))
		if n == 0 {
			return emptyStr
		}
		bs := make([]*Term, n)
		for i := range bs {
			if p.obj.arr != nil {
				bs[i] = m.sel(p.obj.arr, T.Add(p.idx, T.Const(64, uint64(i))))
			} else {
				bs[i] = p.obj.get(p.off + i).(*Term)
			}
		}
		return m.strOf(bs)
	case "StringData":
		s := args[0].(*Str)
		sl := m.strToSlice(s)
		return Ptr{obj: sl.obj}
	case "SliceData":
		s := args[0].(Slice)
		if s.obj == nil {
			return Ptr{}
		}
		if s.s != nil {
			return Ptr{obj: s.obj, idx: s.s.off}
		}
		return Ptr{obj: s.obj, off: s.off * s.obj.lay.n}
	case "Slice": // unsafe.Slice(ptr, len)
		p := args[0].(Ptr)
		n := int(m.concretize(m.T.ZExt(args[1].(*Term), 64), "length"))
		if p.obj == nil {
			return Slice{}
		}
		return Slice{obj: p.obj, off: p.off / p.obj.lay.n, len: n, cap: n}
	}
	m.unsupported("builtin %s", b.Name())
	return nil
}

// ---- if-conversion ----

// pure reports whether block b consists of instructions that cannot trap,
// followed by a jump.
func pureBlock(b *ssa.BasicBlock) bool {
	if len(b.Instrs) > 10 || len(b.Preds) != 1 {
		return false
	}
	for i, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.BinOp:
			switch x.Op {
			case token.QUO, token.REM, token.SHL, token.SHR:
				if _, ok := x.Y.(*ssa.Const); !ok {
					return false
				}
			}
			if bt, ok := x.X.Type().Underlying().(*types.Basic); !ok || bt.Info()&(types.IsInteger|types.IsBoolean) == 0 {
				return false
			}
		case *ssa.UnOp:
			if x.Op == token.MUL || x.Op == token.ARROW {
				return false
			}
		case *ssa.Convert:
			f, ok1 := x.X.Type().Underlying().(*types.Basic)
			t, ok2 := x.Type().Underlying().(*types.Basic)
			if !ok1 || !ok2 || f.Info()&types.IsInteger == 0 || t.Info()&types.IsInteger == 0 {
				return false
			}
		case *ssa.ChangeType, *ssa.DebugRef:
		case *ssa.Jump:
			return i == len(b.Instrs)-1
		default:
			return false
		}
	}
	return false
}

// ifConvert merges a side-effect free diamond or triangle into ite terms.
func (m *Machine) ifConvert(f *Frame, b *ssa.BasicBlock, c *Term) bool {
	t, e := b.Succs[0], b.Succs[1]
	var join *ssa.BasicBlock
	tp, ep := pureBlock(t), pureBlock(e)
	switch {
	case tp && ep && t.Succs[0] == e.Succs[0]:
		join = t.Succs[0]
	case tp && t.Succs[0] == e:
		join = e
	case ep && e.Succs[0] == t:
		join = t
	default:
		return false
	}
	jb := &f.cf.blocks[join.Index]
	pred := func(x *ssa.BasicBlock) int {
		from := x
		if x == join {
			from = b
		}
		k := -1
		for i, p := range join.Preds {
			if p == from {
				if k >= 0 {
					return -1
				}
				k = i
			}
		}
		return k
	}
	kt, ke := pred(t), pred(e)
	if kt < 0 || ke < 0 {
		return false
	}
	for i := 0; i < jb.phis; i++ {
		bt, ok := jb.ins[i].in.(*ssa.Phi).Type().Underlying().(*types.Basic)
		if !ok {
			return false
		}
		if _, _, ok := intWidth(bt); !ok {
			return false
		}
	}
	run := func(x *ssa.BasicBlock) {
		if x == join {
			return
		}
		if f.cf.repo && !m.inInit {
			m.Blocks[x] = true
		}
		cb := &f.cf.blocks[x.Index]
		for i := range cb.ins {
			ci := &cb.ins[i]
			switch in := ci.in.(type) {
			case *ssa.BinOp:
				f.regs[ci.dst] = m.binop(in.Op, m.val(f, &ci.ops[0]), m.val(f, &ci.ops[1]), in.X.Type(), in.Y.Type())
			case *ssa.UnOp:
				f.regs[ci.dst] = m.unop(in, m.val(f, &ci.ops[0]))
			case *ssa.Convert:
				f.regs[ci.dst] = m.convert(m.val(f, &ci.ops[0]), in.X.Type(), in.Type())
			case *ssa.ChangeType:
				f.regs[ci.dst] = m.val(f, &ci.ops[0])
			}
		}
	}
	run(t)
	run(e)
	vs := make([]Value, jb.phis)
	for i := 0; i < jb.phis; i++ {
		a := m.val(f, &jb.ins[i].ops[kt]).(*Term)
		z := m.val(f, &jb.ins[i].ops[ke]).(*Term)
		vs[i] = m.T.Ite(c, a, z)
	}
	f.prev, f.blk, f.pc = b.Index, join.Index, jb.phis
	if f.cf.repo && !m.inInit {
		m.Blocks[join] = true
	}
	for i := range vs {
		f.regs[jb.ins[i].dst] = vs[i]
	}
	return true
}
