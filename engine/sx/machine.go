package sx

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"runtime"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Decision kinds.
const (
	dBranch = iota
	dEq
	dNeq
	dChoice
)

// Decision taken at a symbolic choice point.
type Decision struct {
	K uint8
	V uint64
}

// endPath is thrown to leave a path.
type endPath struct {
	kind string // "done", "assume", "unsupported", "stop"
	msg  string
}

// goPanic carries a Go panic raised by the interpreted program.
type goPanic struct{ val Iface }

// Input is one symbolic input in the order the harness asked for it.
type Input struct {
	Name string
	Kind string // u8,u16,u32,u64,bool,int,choice,bytes,big
	T    *Term
	Ts   []*Term
	Arr  *ArrSym
	Len  *Term
	N    int
}

// Obs is an observation made by the harness.
type Obs struct {
	Name string
	V    Value
	T    types.Type
}

// Violation is a failed assertion with a model.
type Violation struct {
	Msg       string
	Where     string
	Inputs    []InputVal
	Decisions []Decision
	Sched     []string
	Kind      string // assert, panic, deadlock, race
}

// InputVal is a concrete input for replay.
type InputVal struct {
	Name string
	Kind string
	U    uint64
	B    []byte `json:",omitempty"`
}

// Machine executes one path at a time.
type Machine struct {
	P       *Program
	T       *TT
	S       *Solver
	layouts map[types.Type]*Layout
	cfuncs  map[*ssa.Function]*cfunc
	globals map[*ssa.Global]*Object
	inited  map[*ssa.Package]int
	strs    map[string]*Str

	epoch int
	undo  []undoRec
	nobj  int

	// path state
	prefix   []Decision
	decs     []Decision
	pc       []*Term
	model    *Model
	gs       []*G
	cur      *G
	inputs   []Input
	obs      []Obs
	fresh    int
	steps    int64
	memCells int64
	ifaceN   int
	locks    map[Ptr]*lockState
	vcs      map[interface{}]VC
	pools    map[Ptr][]Value
	side     map[interface{}]interface{}
	explore  bool
	preempts int
	maxPre   int
	schedLog []string
	viol     []Violation
	incompl  []string
	race     *raceState
	yieldReq bool
	quiet    int
	ended    string
	inInit   bool
	mapOrder bool
	timers   []*timer
	now      int64
	nested   int
	asserts  int64
	locals   map[string]Value

	// limits
	MaxSteps int64
	MaxCells int64
	MaxConc  int
	MaxDecs  int

	// statistics
	AssertQ     int64
	AssertConst int64
	Instrs      int64
	Branches    int64
	Funcs       map[*ssa.Function]bool
	Blocks      map[*ssa.BasicBlock]bool
	Reached     map[string]int64
	Unsupp      map[string]int64
	Assumes     map[string]bool
	Stubs       map[string]int64

	out       []newPath
	mapIdx    map[types.Type]*types.Map
	mset      map[methKey]*ssa.Function
	stopAt    time.Time
	Sampled   bool
	itabs     map[[2]types.Type]bool
	StubConst bool
	Thorough  bool
	Expected  map[string]bool
}

type newPath struct {
	Decs  []Decision
	Model *Model
}

type methKey struct {
	t    types.Type
	name string
	pkg  *types.Package
}

// NewMachine makes a machine with its own term table and solver.
func NewMachine(p *Program) *Machine {
	tt := NewTT()
	m := &Machine{P: p, T: tt, S: NewSolver(tt),
		layouts: map[types.Type]*Layout{}, cfuncs: map[*ssa.Function]*cfunc{},
		globals: map[*ssa.Global]*Object{}, inited: map[*ssa.Package]int{},
		Funcs: map[*ssa.Function]bool{}, Blocks: map[*ssa.BasicBlock]bool{}, Reached: map[string]int64{}, Expected: map[string]bool{}, Unsupp: map[string]int64{},
		Assumes: map[string]bool{}, Stubs: map[string]int64{},
		mset: map[methKey]*ssa.Function{}, itabs: map[[2]types.Type]bool{},
		MaxSteps: 20e6, MaxCells: 64e6, MaxConc: 600, MaxDecs: 4000}
	return m
}

func (m *Machine) unsupported(f string, a ...interface{}) {
	msg := fmt.Sprintf(f, a...)
	if m.cur != nil && len(m.cur.frames) > 0 {
		msg += " in " + m.where()
	}
	panic(endPath{"unsupported", msg})
}

// where names the innermost source position.
func (m *Machine) where() string {
	if m.cur == nil {
		return "?"
	}
	var parts []string
	for i := len(m.cur.frames) - 1; i >= 0 && len(parts) < 6; i-- {
		f := m.cur.frames[i]
		pos := token.NoPos
		if f.blk < len(f.cf.blocks) && f.pc < len(f.cf.blocks[f.blk].ins) {
			pos = f.cf.blocks[f.blk].ins[f.pc].in.Pos()
		}
		p := m.P.Prog.Fset.Position(pos)
		fn := p.Filename
		if i := strings.LastIndexByte(fn, '/'); i >= 0 {
			fn = fn[i+1:]
		}
		parts = append(parts, fmt.Sprintf("%s(%s:%d)", f.cf.fn.String(), fn, p.Line))
	}
	return strings.Join(parts, " < ")
}

// ---- path condition and decisions ----

func (m *Machine) addPC(c *Term) {
	if c == m.T.True {
		return
	}
	if c.op == OAnd {
		for _, a := range c.args {
			m.addPC(a)
		}
		return
	}
	m.pc = append(m.pc, c)
}

// slice gives the constraints of the path connected to c, plus c, sorted.
func (m *Machine) slice(c *Term) []*Term {
	vs := map[*Term]bool{}
	for _, v := range m.T.freeVars(c) {
		vs[v] = true
	}
	used := make([]bool, len(m.pc))
	out := []*Term{}
	if c.op == OAnd {
		out = append(out, c.args...)
	} else {
		out = append(out, c)
	}
	for changed := true; changed; {
		changed = false
		for i, p := range m.pc {
			if used[i] {
				continue
			}
			fv := m.T.freeVars(p)
			hit := false
			for _, v := range fv {
				if vs[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, p)
				for _, v := range fv {
					vs[v] = true
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	k := 0
	for i, x := range out {
		if i > 0 && out[k-1] == x {
			continue
		}
		out[k] = x
		k++
	}
	return out[:k]
}

// feasible asks whether the path condition allows c; the model returned
// satisfies the whole path condition and c.
func (m *Machine) feasible(c *Term) (Result, *Model) {
	if c == m.T.True {
		return Sat, m.model
	}
	if c == m.T.False {
		return Unsat, nil
	}
	if m.model.Eval(c) == 1 {
		return Sat, m.model
	}
	cs := m.slice(c)
	set := map[*Term]bool{}
	for _, x := range cs {
		set[x] = true
	}
	for _, x := range cs {
		if x == m.T.False || set[m.T.Not(x)] {
			return Unsat, nil
		}
	}
	r, sub := m.S.Check(cs)
	if r != Sat {
		return r, nil
	}
	return Sat, m.merge(sub)
}

// merge overlays the component model sub on the current model.
func (m *Machine) merge(sub *Model) *Model {
	n := NewModel()
	for k, v := range m.model.vars {
		n.vars[k] = v
	}
	for k, v := range m.model.ufs {
		n.ufs[k] = v
	}
	for k, v := range sub.vars {
		n.vars[k] = v
	}
	for k, v := range sub.ufs {
		n.ufs[k] = v
	}
	return n
}

func (m *Machine) decide(d Decision) {
	m.decs = append(m.decs, d)
	if len(m.decs) > m.MaxDecs {
		m.unsupported("decision bound %d", m.MaxDecs)
	}
}

func (m *Machine) pushAlt(d Decision, mod *Model) {
	n := make([]Decision, len(m.decs)+1)
	copy(n, m.decs)
	n[len(m.decs)] = d
	m.out = append(m.out, newPath{n, mod})
}

// branch decides a condition, forking if both sides are feasible.
func (m *Machine) branch(c *Term, why string) bool {
	if c.IsConst() {
		return c.val == 1
	}
	m.Branches++
	if m.inInit {
		m.unsupported("symbolic branch during initialisation")
	}
	if len(m.decs) < len(m.prefix) {
		d := m.prefix[len(m.decs)]
		if d.K != dBranch {
			panic(fmt.Sprintf("replay mismatch: want branch (%s) have %v at %d in %s", why, d, len(m.decs), m.where()))
		}
		m.decide(d)
		if d.V == 1 {
			m.addPC(c)
			return true
		}
		m.addPC(m.T.Not(c))
		return false
	}
	side := m.model.Eval(c) == 1
	oc := c
	if side {
		oc = m.T.Not(c)
	}
	// already implied?
	r, mod := m.feasible(oc)
	switch r {
	case Sat:
		m.pushAlt(Decision{dBranch, b2u(!side)}, mod)
	case Unknown:
		m.incomplete("solver gave up on a branch in " + m.where())
	}
	m.decide(Decision{dBranch, b2u(side)})
	if side {
		m.addPC(c)
	} else {
		m.addPC(m.T.Not(c))
	}
	return side
}

func (m *Machine) incomplete(msg string) { m.incompl = append(m.incompl, msg) }

// concretize forks over the feasible values of t.
func (m *Machine) concretize(t *Term, why string) uint64 {
	if t.IsConst() {
		return t.val
	}
	if m.inInit {
		m.unsupported("symbolic value during initialisation")
	}
	for n := 0; ; n++ {
		m.Branches++
		if len(m.decs) < len(m.prefix) {
			d := m.prefix[len(m.decs)]
			if d.K != dEq && d.K != dNeq {
				panic(fmt.Sprintf("replay mismatch: want value (%s) have %v in %s", why, d, m.where()))
			}
			m.decide(d)
			c := m.T.Eq(t, m.T.Const(t.w, d.V))
			if d.K == dEq {
				m.addPC(c)
				return d.V
			}
			m.addPC(m.T.Not(c))
			continue
		}
		v := m.model.Eval(t)
		c := m.T.Eq(t, m.T.Const(t.w, v))
		if n > m.MaxConc {
			m.incomplete(fmt.Sprintf("more than %d values of a %s in %s", m.MaxConc, why, m.where()))
		} else {
			r, mod := m.feasible(m.T.Not(c))
			switch r {
			case Sat:
				m.pushAlt(Decision{dNeq, v}, mod)
			case Unknown:
				m.incomplete("solver gave up on a value in " + m.where())
			}
		}
		m.decide(Decision{dEq, v})
		m.addPC(c)
		return v
	}
}

func (m *Machine) concretizeLen(t *Term) int { return int(int64(m.concretize(t, "length"))) }

// choice forks n ways.
func (m *Machine) choice(n int, why string) int {
	if n <= 1 {
		return 0
	}
	m.Branches++
	if len(m.decs) < len(m.prefix) {
		d := m.prefix[len(m.decs)]
		if d.K != dChoice {
			panic(fmt.Sprintf("replay mismatch: want choice (%s) have %v in %s", why, d, m.where()))
		}
		m.decide(d)
		return int(d.V)
	}
	for i := n - 1; i > 0; i-- {
		m.pushAlt(Decision{dChoice, uint64(i)}, m.model)
	}
	m.decide(Decision{dChoice, 0})
	return 0
}

// assume restricts the path.
func (m *Machine) assume(c *Term) {
	if c == m.T.True {
		return
	}
	if c == m.T.False {
		panic(endPath{"assume", ""})
	}
	if len(m.decs) < len(m.prefix) {
		// known feasible: the prefix was
		m.addPC(c)
		return
	}
	r, mod := m.feasible(c)
	switch r {
	case Unsat:
		panic(endPath{"assume", ""})
	case Unknown:
		panic(endPath{"unsupported", "solver gave up on an assumption in " + m.where()})
	}
	m.addPC(c)
	m.model = mod
}

// assertTrue checks that c holds on the whole path.
func (m *Machine) assertTrue(c *Term, msg string) {
	m.asserts++
	if c == m.T.True {
		m.AssertConst++
		return
	}
	if len(m.decs) < len(m.prefix) {
		// checked before this fork
		m.addPC(c)
		return
	}
	m.AssertQ++
	full := c
	c = m.lemmas(c)
	r, mod := m.feasible(m.T.Not(c))
	if c != full {
		defer m.addPC(full)
	}
	switch r {
	case Sat:
		m.report("assert", msg, mod)
		// continue on the part of the path where it holds
		m.assume(c)
		return
	case Unknown:
		m.incomplete("solver gave up on an assertion: " + msg)
		m.assume(c)
		return
	}
	m.addPC(c)
}

// lemmas drops from a conjunction equalities of decimal digits of numbers that
// the solver shows to be equal (which is much easier than comparing digits).
func (m *Machine) lemmas(c *Term) *Term {
	cs := []*Term{c}
	if c.op == OAnd {
		cs = c.args
	}
	type pair struct{ a, b *Term }
	var known map[pair]bool
	var out []*Term
	for _, x := range cs {
		if x.op == OEq {
			da, oka := m.T.cores[x.args[0]]
			db, okb := m.T.cores[x.args[1]]
			if oka && okb && da.i == db.i {
				p := pair{da.v, db.v}
				eq, ok := known[p]
				if !ok {
					r, _ := m.feasible(m.T.Not(m.T.Eq(da.v, db.v)))
					eq = r == Unsat
					if known == nil {
						known = map[pair]bool{}
					}
					known[p] = eq
				}
				if eq {
					continue
				}
			}
		}
		out = append(out, x)
	}
	if len(out) == len(cs) {
		return c
	}
	return m.T.And(out...)
}

func (m *Machine) report(kind, msg string, mod *Model) {
	v := Violation{Kind: kind, Msg: msg, Where: m.where(), Inputs: m.inputVals(mod),
		Decisions: append([]Decision(nil), m.decs...), Sched: append([]string(nil), m.schedLog...)}
	m.viol = append(m.viol, v)
}

func (m *Machine) inputVals(mod *Model) []InputVal {
	var out []InputVal
	for _, in := range m.inputs {
		v := InputVal{Name: in.Name, Kind: in.Kind}
		switch in.Kind {
		case "bytes":
			v.B = make([]byte, len(in.Ts))
			for i, t := range in.Ts {
				v.B[i] = byte(mod.Eval(t))
			}
		case "big":
			n := mod.Eval(in.Len)
			if n > 1<<26 {
				n = 1 << 26
			}
			v.U = n
			v.B = make([]byte, n)
			pre := in.Arr.name + ","
			for k, val := range mod.ufs {
				if strings.HasPrefix(k, pre) {
					var ix uint64
					fmt.Sscanf(k[len(pre):], "%x", &ix)
					if ix < n {
						v.B[ix] = byte(val)
					}
				}
			}
		case "choice":
			v.U = uint64(in.N)
		default:
			v.U = mod.Eval(in.T)
		}
		out = append(out, v)
	}
	return out
}

// ---- compiled functions ----

type opnd struct {
	reg int
	v   Value
	g   *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	ops []opnd
	dst int
}

type cblock struct {
	ins  []cinstr
	phis int
}

type cfunc struct {
	fn     *ssa.Function
	nregs  int
	blocks []cblock
	params []int
	fvs    []int
	intr   intrinsic
	repo   bool
	origin int // race attribution: 0 unknown, 1 standard library, 2 code under test, 3 other
	name   string
}

func (m *Machine) compile(fn *ssa.Function) *cfunc {
	if c := m.cfuncs[fn]; c != nil {
		return c
	}
	m.P.build(fn)
	c := &cfunc{fn: fn, name: fn.String()}
	if fn.Origin() != nil {
		c.name = fn.Origin().String()
	}
	m.cfuncs[fn] = c
	c.intr = lookupIntrinsic(c.name, fn)
	pk := fn.Package()
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Package()
	}
	if pk != nil {
		c.repo = m.P.isRepo(pk.Pkg.Path())
	} else if fn.Parent() == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		c.repo = m.P.isRepo(fn.Object().Pkg().Path())
	}
	regs := map[ssa.Value]int{}
	reg := func(v ssa.Value) int {
		r, ok := regs[v]
		if !ok {
			r = c.nregs
			c.nregs++
			regs[v] = r
		}
		return r
	}
	for _, p := range fn.Params {
		c.params = append(c.params, reg(p))
	}
	for _, p := range fn.FreeVars {
		c.fvs = append(c.fvs, reg(p))
	}
	op := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{reg: -1}
		case *ssa.Const:
			return opnd{reg: -1, v: m.constVal(v)}
		case *ssa.Global:
			return opnd{reg: -1, g: v}
		case *ssa.Function:
			return opnd{reg: -1, v: &Closure{fn: v}}
		case *ssa.Builtin:
			return opnd{reg: -1, v: &Closure{bi: v}}
		}
		return opnd{reg: reg(v)}
	}
	blocks := fn.Blocks
	c.blocks = make([]cblock, len(blocks))
	for i, b := range blocks {
		cb := &c.blocks[i]
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1}
			var rands []*ssa.Value
			rands = in.Operands(rands)
			for _, r := range rands {
				if *r == nil {
					ci.ops = append(ci.ops, opnd{reg: -1})
				} else {
					ci.ops = append(ci.ops, op(*r))
				}
			}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = reg(v)
			}
			if _, ok := in.(*ssa.Phi); ok {
				cb.phis++
			}
			cb.ins = append(cb.ins, ci)
		}
	}
	return c
}

func (m *Machine) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return m.zero(c.Type())
	}
	switch u := c.Type().Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intWidth(u); ok {
			if w == 0 {
				return m.T.Bool(constant.BoolVal(c.Value))
			}
			v := constant.ToInt(c.Value)
			if x, ok := constant.Int64Val(v); ok {
				return m.T.Const(w, uint64(x))
			}
			x, _ := constant.Uint64Val(v)
			return m.T.Const(w, x)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return mkStr(constant.StringVal(c.Value))
		case types.Float64, types.UntypedFloat:
			f, _ := constant.Float64Val(c.Value)
			return m.float64(f)
		case types.Float32:
			f, _ := constant.Float32Val(c.Value)
			return Flt{t: m.T.Const(32, uint64(math.Float32bits(f))), w: 32}
		case types.Complex64, types.Complex128:
			return Poison{"complex constant"}
		case types.UnsafePointer:
			return Ptr{}
		}
	}
	return Poison{"constant of type " + c.Type().String()}
}

func (m *Machine) float64(f float64) Flt {
	return Flt{t: m.T.Const(64, math.Float64bits(f)), w: 64}
}

// ---- goroutines and frames ----

type deferRec struct {
	cl     *Closure
	args   []Value
	invoke bool
	pos    token.Pos
}

type panicRec struct {
	val       Iface
	recovered bool
}

// Frame of an interpreted function.
type Frame struct {
	cf      *cfunc
	blk     int
	prev    int
	pc      int
	regs    []Value
	defers  []deferRec
	dst     int // register of the caller that takes the result; -1 none
	kont    bool
	res     Value
	done    bool
	rec     *panicRec // this frame runs a deferred call during that panic
	panicin *panicRec // this frame is being unwound by that panic
	again   bool      // return to the same instruction of the caller
}

// G is a goroutine.
type G struct {
	id     int
	frames []*Frame
	status int // 0 runnable, 1 blocked, 2 done
	why    string
	wake   func() // set by the waker; run when resumed
	vc     VC
	start  string
	repo   bool
	passed bool
	frozen bool // quiescing
}

const (
	gRun = iota
	gBlocked
	gDone
)

func (m *Machine) newG(cl *Closure, args []Value) *G {
	g := &G{id: len(m.gs)}
	g.start = cl.fn.String()
	m.gs = append(m.gs, g)
	saved := m.cur
	m.cur = g
	m.pushCall(g, cl, args, -1)
	m.cur = saved
	if len(m.gs) > 64 {
		m.unsupported("more than 64 goroutines")
	}
	return g
}

// pushCall pushes a frame for an interpreted call (not an intrinsic).
func (m *Machine) pushCall(g *G, cl *Closure, args []Value, dst int) *Frame {
	cf := m.compile(cl.fn)
	if len(cf.blocks) == 0 {
		m.unsupported("no body for %s", cf.name)
	}
	if len(g.frames) > 400 {
		m.unsupported("call depth bound")
	}
	if cf.repo && !m.inInit {
		m.Funcs[cl.fn] = true
	}
	f := &Frame{cf: cf, regs: make([]Value, cf.nregs), dst: dst, prev: -1}
	if len(args) != len(cf.params) {
		panic(fmt.Sprintf("arity of %s: %d args, %d params", cf.name, len(args), len(cf.params)))
	}
	for i, r := range cf.params {
		f.regs[r] = args[i]
	}
	for i, r := range cf.fvs {
		f.regs[r] = cl.binds[i]
	}
	g.frames = append(g.frames, f)
	m.block(f)
	return f
}

func (m *Machine) block(f *Frame) {
	if f.cf.repo && !m.inInit {
		m.Blocks[f.cf.fn.Blocks[f.blk]] = true
	}
}

func (m *Machine) val(f *Frame, o *opnd) Value {
	if o.reg >= 0 {
		v := f.regs[o.reg]
		if v == nil {
			panic(fmt.Sprintf("register %d of %s unset", o.reg, f.cf.name))
		}
		if p, ok := v.(Poison); ok {
			m.unsupported("value not available: %s", p.why)
		}
		return v
	}
	if o.g != nil {
		return m.globalPtr(o.g)
	}
	if p, ok := o.v.(Poison); ok {
		m.unsupported("value not available: %s", p.why)
	}
	return o.v
}

func (m *Machine) globalPtr(g *ssa.Global) Ptr {
	if o := m.globals[g]; o != nil {
		if m.inited[g.Pkg] == 0 {
			m.ensureInit(g.Pkg)
		}
		return Ptr{obj: o}
	}
	if g.Pkg != nil && m.inited[g.Pkg] == 0 {
		m.ensureInit(g.Pkg)
	}
	if o := m.globals[g]; o != nil {
		return Ptr{obj: o}
	}
	se := m.epoch
	m.epoch = 0
	cells := m.memCells
	o := m.newObject(g.Type().Underlying().(*types.Pointer).Elem(), 1, g.String())
	m.memCells = cells
	m.epoch = se
	m.globals[g] = o
	return Ptr{obj: o}
}

// ensureInit runs the package's own initialisers (not those of its imports,
// which are initialised on demand).
func (m *Machine) ensureInit(p *ssa.Package) {
	if m.inited[p] != 0 {
		return
	}
	m.inited[p] = 1
	if skipInit[p.Pkg.Path()] {
		m.inited[p] = 2
		return
	}
	m.P.buildPkg(p)
	fn := p.Func("init")
	if fn == nil {
		m.inited[p] = 2
		return
	}
	// save path state
	se, sg, sc, si := m.epoch, m.gs, m.cur, m.inInit
	steps, cells, race, nested := m.steps, m.memCells, m.race, m.nested
	m.epoch, m.inInit, m.race = 0, true, nil
	m.gs = nil
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case endPath:
					m.noteInit(p, r.msg)
				case goPanic:
					m.noteInit(p, "panic")
				default:
					panic(r)
				}
			}
		}()
		g := m.newG(&Closure{fn: fn}, nil)
		m.cur = g
		for len(g.frames) > 0 {
			if g.status == gBlocked {
				m.noteInit(p, "blocked")
				return
			}
			m.stepSafe(g)
		}
	}()
	m.epoch, m.gs, m.cur, m.inInit, m.race = se, sg, sc, si, race
	m.steps, m.memCells, m.nested = steps, cells, nested
	m.inited[p] = 2
}

// Verbose prints initialisation problems.
var Verbose bool

func (m *Machine) noteInit(p *ssa.Package, msg string) {
	if Verbose {
		fmt.Println("init", p.Pkg.Path(), ":", msg)
	}
}

// stepSafe executes one instruction; in initialisation code an unsupported
// instruction poisons its result instead of ending the path.
func (m *Machine) stepSafe(g *G) {
	depth := len(g.frames)
	f := g.frames[depth-1]
	blk, pc := f.blk, f.pc
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(endPath)
			if gp, isp := r.(goPanic); isp {
				e, ok = endPath{"unsupported", "panic in init: " + m.panicText(gp.val)}, true
			}
			if re, isr := r.(runtime.Error); isr {
				e, ok = endPath{"unsupported", "engine error in init: " + re.Error()}, true
			}
			if !ok || e.kind != "unsupported" {
				panic(r)
			}
			// drop frames of the failing call down to the innermost init
			// function and poison the result there
			k := len(g.frames)
			for k > 0 && !isInitFn(g.frames[k-1].cf.fn) {
				k--
			}
			if k == 0 {
				panic(r)
			}
			g.frames = g.frames[:k]
			f := g.frames[k-1]
			_ = blk
			_ = pc
			ci := &f.cf.blocks[f.blk].ins[f.pc]
			if Verbose {
				fmt.Println("poison:", f.cf.name, ci.in, e.msg)
			}
			if ci.dst >= 0 {
				f.regs[ci.dst] = Poison{e.msg}
			}
			if st, ok := ci.in.(*ssa.Store); ok {
				if gl, ok := st.Addr.(*ssa.Global); ok {
					p := m.globalPtr(gl)
					for i := range p.obj.slots {
						p.obj.slots[i] = Poison{e.msg}
					}
				}
			}
			switch ci.in.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return:
				g.frames = g.frames[:k-1]
				return
			}
			f.pc++
		}
	}()
	m.step(g)
}

func isInitFn(fn *ssa.Function) bool {
	return fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Parent() == nil
}

// callSync runs a call to completion on the current goroutine.
func (m *Machine) callSync(cl *Closure, args []Value) Value {
	if cl == nil {
		m.nilDeref()
	}
	if cl.nat != nil {
		return cl.nat(m, args)
	}
	cf := m.compile(cl.fn)
	if cf.intr != nil {
		if v, ok := cf.intr(m, &call{cl: cl, args: args, fn: cl.fn}); ok {
			return v
		}
	}
	g := m.cur
	m.nested++
	defer func() { m.nested-- }()
	f := m.pushCall(g, cl, args, -1)
	f.kont = true
	depth := len(g.frames)
	for !f.done {
		if g.status == gBlocked {
			m.unsupported("blocking operation inside %s called from a modelled function", cf.name)
		}
		if m.inInit {
			m.step(g)
		} else {
			m.step(g)
		}
		if len(g.frames) < depth && !f.done {
			// unwound by a panic
			break
		}
	}
	if !f.done {
		panic("callSync: frame lost")
	}
	return f.res
}

// ---- panics ----

func (m *Machine) goPanicStr(s string) {
	panic(goPanic{m.runtimeError(s)})
}

func (m *Machine) runtimeError(s string) Iface {
	// runtime.Error values are represented by a plain error string type
	t := m.P.runtimeErrT
	return Iface{t: t, v: mkStr(strings.TrimPrefix(s, "runtime error: "))}
}

func (m *Machine) panicText(v Iface) string {
	defer func() { recover() }()
	if v.t == nil {
		return "nil"
	}
	if s, ok := v.v.(*Str); ok {
		if s.isConc() {
			return s.s
		}
		return "<symbolic text>"
	}
	if t, ok := v.v.(*Term); ok {
		return t.String()
	}
	return v.t.String() + ": " + m.safeErrorText(v)
}

func (m *Machine) safeErrorText(v Iface) (out string) {
	out = "?"
	return
}

// startPanic begins unwinding goroutine g.
func (m *Machine) startPanic(g *G, val Iface) {
	rec := &panicRec{val: val}
	m.unwind(g, rec)
}

func (m *Machine) unwind(g *G, rec *panicRec) {
	for {
		if len(g.frames) == 0 {
			g.status = gDone
			m.uncaught(g, rec)
			return
		}
		f := g.frames[len(g.frames)-1]
		f.panicin = rec
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			m.runDeferred(g, d, rec)
			return
		}
		if f.kont {
			// cross the Go stack of a modelled function
			g.frames = g.frames[:len(g.frames)-1]
			panic(goPanic{rec.val})
		}
		g.frames = g.frames[:len(g.frames)-1]
	}
}

// runDeferred pushes the deferred call; its return resumes the unwinding.
func (m *Machine) runDeferred(g *G, d deferRec, rec *panicRec) {
	if d.cl != nil && d.cl.bi == nil && d.cl.nat == nil {
		cf := m.compile(d.cl.fn)
		if cf.intr == nil {
			f := m.pushCall(g, d.cl, d.args, -1)
			f.rec = rec
			f.again = true
			return
		}
	}
	m.callAny(d.cl, d.args)
	if rec != nil {
		m.unwind(g, rec)
	}
}

func (m *Machine) uncaught(g *G, rec *panicRec) {
	txt := m.panicText(rec.val)
	m.report("panic", "uncaught panic: "+txt+" in goroutine "+g.start, m.model)
	panic(endPath{"stop", "uncaught panic"})
}

// ret returns from the top frame with result v.
func (m *Machine) ret(g *G, v Value) {
	f := g.frames[len(g.frames)-1]
	g.frames = g.frames[:len(g.frames)-1]
	f.done = true
	f.res = v
	if f.kont {
		return
	}
	if f.rec != nil { // deferred call during a panic
		if len(g.frames) == 0 {
			panic("deferred call without frame")
		}
		p := g.frames[len(g.frames)-1]
		if f.rec.recovered {
			p.panicin = nil
			if rb := p.cf.fn.Recover; rb != nil {
				p.prev = p.blk
				p.blk = rb.Index
				p.pc = 0
				return
			}
			m.ret(g, m.zeroResult(p.cf.fn))
			return
		}
		m.unwind(g, f.rec)
		return
	}
	if len(g.frames) == 0 {
		g.status = gDone
		return
	}
	if f.again {
		return
	}
	p := g.frames[len(g.frames)-1]
	if f.dst >= 0 {
		p.regs[f.dst] = v
	}
	p.pc++
}

func (m *Machine) zeroResult(fn *ssa.Function) Value {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return Tuple{}
	case 1:
		return m.zero(rs.At(0).Type())
	}
	return m.zero(rs)
}

// step executes one instruction of g's top frame.
func (m *Machine) step(g *G) {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(goPanic); ok {
				m.startPanic(g, gp.val)
				return
			}
			panic(r)
		}
	}()
	// run a batch of instructions under one recover frame
	depth := m.nested
	for i := 0; i < 4096; i++ {
		f := g.frames[len(g.frames)-1]
		m.exec(g, f)
		if len(g.frames) == 0 || g.status != gRun || m.yieldReq {
			return
		}
		if depth > 0 && f.done && f.kont {
			return
		}
		if m.inInit {
			return
		}
	}
}
