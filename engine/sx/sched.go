package sx

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// VC is a vector clock indexed by goroutine.
type VC []uint32

func (v VC) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v VC) join(o VC) VC {
	n := make(VC, max(len(v), len(o)))
	copy(n, v)
	for i, x := range o {
		if x > n[i] {
			n[i] = x
		}
	}
	return n
}

func (g *G) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	n := append(VC(nil), g.vc...)
	n[g.id]++
	g.vc = n
}

// release publishes g's clock on a synchronisation object.
func (m *Machine) release(key interface{}) {
	if m.race == nil || m.cur == nil {
		return
	}
	g := m.cur
	m.vcs[key] = m.vcs[key].join(g.vc)
	g.tick()
}

// acquire joins the clock of a synchronisation object.
func (m *Machine) acquire(key interface{}) { m.acquireG(m.cur, key) }

func (m *Machine) acquireG(g *G, key interface{}) {
	if m.race == nil || g == nil {
		return
	}
	g.vc = g.vc.join(m.vcs[key])
}

// ---- data races ----

type raceState struct {
	sh   map[*Value]*shadow
	seen map[string]bool
}

type shadow struct {
	wg    int
	wc    uint32
	wsite raceSite
	rs    []readRec
}

type readRec struct {
	g    int
	c    uint32
	site raceSite
}

// raceSite is where an access happens: the innermost function outside the
// standard library and whether it belongs to the code under test.
type raceSite struct {
	f    *cfunc
	pc   token.Pos
	repo bool
}

func (m *Machine) raceSite() raceSite {
	g := m.cur
	for i := len(g.frames) - 1; i >= 0; i-- {
		f := g.frames[i]
		c := f.cf
		if c.origin == 0 {
			c.origin = 1
			pk := c.fn.Package()
			switch {
			case c.repo:
				c.origin = 2
			case pk != nil && (strings.Contains(strings.SplitN(pk.Pkg.Path(), "/", 2)[0], ".") || strings.HasPrefix(pk.Pkg.Path(), "verifh")):
				c.origin = 3
			}
		}
		if c.origin > 1 {
			return raceSite{c, c.blocks[f.blk].ins[f.pc].in.Pos(), c.origin == 2}
		}
	}
	return raceSite{}
}

func (m *Machine) siteText(s raceSite) string {
	if s.f == nil {
		return "?"
	}
	p := m.P.Prog.Fset.Position(s.pc)
	fn := p.Filename
	if i := strings.LastIndexByte(fn, '/'); i >= 0 {
		fn = fn[i+1:]
	}
	return fmt.Sprintf("%s(%s:%d)", s.f.fn, fn, p.Line)
}

func (r *raceState) access(m *Machine, p Ptr, n int, write bool) {
	if m.inInit || m.cur == nil || len(m.gs) < 2 || p.obj.epoch == 0 && !write {
		return
	}
	g := m.cur
	if len(g.vc) == 0 {
		g.tick()
	}
	site := m.raceSite()
	now := g.vc.at(g.id)
	for i := 0; i < n; i++ {
		k := p.off + i
		if k >= len(p.obj.slots) {
			return
		}
		key := &p.obj.slots[k]
		s := r.sh[key]
		if s == nil {
			s = &shadow{wg: -1}
			r.sh[key] = s
		}
		if s.wg >= 0 && s.wg != g.id && s.wc > g.vc.at(s.wg) && (site.repo || s.wsite.repo) {
			r.report(m, s.wsite, site, true, write)
		}
		if write {
			for _, rr := range s.rs {
				if rr.g != g.id && rr.c > g.vc.at(rr.g) && (site.repo || rr.site.repo) {
					r.report(m, rr.site, site, false, true)
				}
			}
			s.wg, s.wc, s.wsite = g.id, now, site
			s.rs = s.rs[:0]
			continue
		}
		found := false
		for x := range s.rs {
			if s.rs[x].g == g.id {
				found = true
				if s.rs[x].c != now {
					s.rs[x] = readRec{g.id, now, site}
				}
			}
		}
		if !found {
			s.rs = append(s.rs, readRec{g.id, now, site})
		}
	}
}

func (r *raceState) report(m *Machine, sa, sb raceSite, aw, bw bool) {
	a, b := m.siteText(sa), m.siteText(sb)
	k := a + "|" + b
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	w := func(x bool) string {
		if x {
			return "write"
		}
		return "read"
	}
	m.report("race", fmt.Sprintf("data race: %s at %s and %s at %s are not ordered", w(aw), a, w(bw), b), m.model)
}

// ---- channels ----

// Chan is a channel.
type Chan struct {
	id     int
	cap    int
	buf    []Value
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	et     types.Type
	epoch  int
}

type selState struct{ fired bool }

type waiter struct {
	g    *G
	sel  *selState
	val  Value // value to send
	wake func(v Value, ok bool)
}

func (m *Machine) newChan(n int, et types.Type) *Chan {
	m.nobj++
	if n < 0 {
		m.goPanicStr("makechan: size out of range")
	}
	return &Chan{id: m.nobj, cap: n, et: et, epoch: m.epoch}
}

func (m *Machine) chanLog(c *Chan) {
	if c.epoch != m.epoch {
		old := *c
		m.undo = append(m.undo, undoRec{fn: func() { *c = old }})
	}
}

// visible reports whether a visible operation may proceed now; otherwise the
// scheduler first decides who runs.
func (m *Machine) visible(g *G) bool {
	if !m.explore || m.inInit || m.nested > 0 {
		return true
	}
	if g.passed {
		g.passed = false
		return true
	}
	if m.preempts >= m.maxPre {
		return true
	}
	for _, o := range m.gs {
		if o != g && o.status == gRun {
			g.passed = true
			m.yieldReq = true
			return false
		}
	}
	return true
}

func pop(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel.fired || w.g.status == gDone {
			continue
		}
		return w
	}
	return nil
}

func peek(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		if w.sel.fired || w.g.status == gDone {
			*q = (*q)[1:]
			continue
		}
		return w
	}
	return nil
}

func (m *Machine) fire(w *waiter, v Value, ok bool) {
	w.sel.fired = true
	w.g.status = gRun
	w.g.why = ""
	w.wake(v, ok)
}

func (m *Machine) canSend(c *Chan) bool {
	return c != nil && (c.closed || len(c.buf) < c.cap || peek(&c.recvq) != nil)
}

func (m *Machine) canRecv(c *Chan) bool {
	return c != nil && (c.closed || len(c.buf) > 0 || peek(&c.sendq) != nil)
}

// doSend performs a send that canSend.
func (m *Machine) doSend(g *G, c *Chan, v Value) {
	if c.closed {
		m.goPanicStr("send on closed channel")
	}
	m.chanLog(c)
	if w := pop(&c.recvq); w != nil {
		m.release(c)
		m.acquireG(w.g, c)
		if m.race != nil { // rendezvous orders both ways
			g.vc = g.vc.join(w.g.vc)
			w.g.tick()
		}
		m.fire(w, v, true)
		return
	}
	m.acquireG(g, [2]interface{}{c, "r"})
	m.release(c)
	c.buf = append(append([]Value(nil), c.buf...), v)
}

// doRecv performs a receive that canRecv.
func (m *Machine) doRecv(g *G, c *Chan) (Value, bool) {
	m.chanLog(c)
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		m.acquireG(g, c)
		m.release([2]interface{}{c, "r"})
		if w := pop(&c.sendq); w != nil {
			c.buf = append(append([]Value(nil), c.buf...), w.val)
			if m.race != nil {
				m.vcs[c] = m.vcs[c].join(w.g.vc)
				m.acquireG(w.g, [2]interface{}{c, "r"})
				w.g.tick()
			}
			m.fire(w, nil, true)
		}
		return v, true
	}
	if w := pop(&c.sendq); w != nil {
		if m.race != nil {
			a, b := g.vc, w.g.vc
			g.vc = a.join(b)
			w.g.vc = b.join(a)
			g.tick()
			w.g.tick()
		}
		v := w.val
		m.fire(w, nil, true)
		return v, true
	}
	m.acquireG(g, c)
	return m.zero(c.et), false
}

func (m *Machine) closeChan(c *Chan) {
	if c == nil {
		m.goPanicStr("close of nil channel")
	}
	if c.closed {
		m.goPanicStr("close of closed channel")
	}
	m.chanLog(c)
	c.closed = true
	m.release(c)
	for {
		w := pop(&c.recvq)
		if w == nil {
			break
		}
		m.acquireG(w.g, c)
		m.fire(w, m.zero(c.et), false)
	}
	for {
		w := pop(&c.sendq)
		if w == nil {
			break
		}
		// the sender panics
		g := w.g
		w.sel.fired = true
		g.status = gRun
		g.wake = func() { m.goPanicStr("send on closed channel") }
	}
}

func (m *Machine) blockOn(g *G, why string) {
	if m.nested > 0 {
		m.unsupported("blocking operation inside a call from a modelled function")
	}
	g.status = gBlocked
	g.why = why
}

func (m *Machine) execSend(g *G, f *Frame, ci *cinstr, in *ssa.Send) {
	if !m.visible(g) {
		return
	}
	c := m.val(f, &ci.ops[0]).(*Chan)
	v := m.val(f, &ci.ops[1])
	if m.canSend(c) {
		m.doSend(g, c, v)
		f.pc++
		return
	}
	m.blockOn(g, "send")
	if c == nil {
		return
	}
	m.chanLog(c)
	c.sendq = append(c.sendq, &waiter{g: g, sel: &selState{}, val: v, wake: func(Value, bool) { f.pc++ }})
}

func (m *Machine) execRecv(g *G, f *Frame, ci *cinstr, in *ssa.UnOp) {
	if !m.visible(g) {
		return
	}
	c := m.val(f, &ci.ops[0]).(*Chan)
	set := func(v Value, ok bool) {
		if in.CommaOk {
			f.regs[ci.dst] = Tuple{v, m.T.Bool(ok)}
		} else {
			f.regs[ci.dst] = v
		}
		f.pc++
	}
	if m.canRecv(c) {
		set(m.doRecv(g, c))
		return
	}
	m.blockOn(g, "receive")
	if c == nil {
		return
	}
	m.chanLog(c)
	c.recvq = append(c.recvq, &waiter{g: g, sel: &selState{}, wake: set})
}

func (m *Machine) execSelect(g *G, f *Frame, ci *cinstr, in *ssa.Select) {
	if !m.visible(g) {
		return
	}
	n := len(in.States)
	chans := make([]*Chan, n)
	vals := make([]Value, n)
	var ready []int
	for i, st := range in.States {
		chans[i] = m.val(f, &ci.ops[2*i]).(*Chan)
		if st.Dir == types.SendOnly {
			vals[i] = m.val(f, &ci.ops[2*i+1])
			if m.canSend(chans[i]) {
				ready = append(ready, i)
			}
		} else if m.canRecv(chans[i]) {
			ready = append(ready, i)
		}
	}
	finish := func(k int, v Value, ok bool) {
		t := Tuple{m.T.Const(64, uint64(int64(k))), m.T.Bool(ok)}
		for i, st := range in.States {
			if st.Dir == types.SendOnly {
				continue
			}
			if i == k {
				t = append(t, v)
			} else {
				t = append(t, m.zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
		f.regs[ci.dst] = t
		f.pc++
	}
	if len(ready) > 0 {
		k := ready[0]
		if len(ready) > 1 {
			k = ready[m.choice(len(ready), "select")]
			m.schedLog = append(m.schedLog, fmt.Sprintf("g%d select case %d", g.id, k))
		}
		if in.States[k].Dir == types.SendOnly {
			m.doSend(g, chans[k], vals[k])
			finish(k, nil, false)
		} else {
			v, ok := m.doRecv(g, chans[k])
			finish(k, v, ok)
		}
		return
	}
	if !in.Blocking {
		finish(-1, nil, false)
		return
	}
	m.blockOn(g, "select")
	sel := &selState{}
	for i, st := range in.States {
		c := chans[i]
		if c == nil {
			continue
		}
		k := i
		m.chanLog(c)
		if st.Dir == types.SendOnly {
			c.sendq = append(c.sendq, &waiter{g: g, sel: sel, val: vals[i], wake: func(Value, bool) { finish(k, nil, false) }})
		} else {
			c.recvq = append(c.recvq, &waiter{g: g, sel: sel, wake: func(v Value, ok bool) { finish(k, v, ok) }})
		}
	}
}

// ---- goroutines ----

func (m *Machine) spawn(g *G, cl *Closure, args []Value, in *ssa.Go) {
	if m.inInit {
		return // background goroutines of packages are not modelled
	}
	if cl.fn == nil {
		m.unsupported("go with a builtin")
	}
	n := m.newG(cl, args)
	if m.race != nil {
		if len(g.vc) == 0 {
			g.tick()
		}
		n.vc = append(VC(nil), g.vc...)
		n.tick()
		g.tick()
	}
	for i := len(g.frames) - 1; i >= 0; i-- {
		if g.frames[i].cf.repo {
			n.repo = true
			break
		}
		if pk := g.frames[i].cf.fn.Package(); pk != nil && strings.HasPrefix(pk.Pkg.Path(), "verifh") {
			break
		}
	}
}

// ---- locks ----

type lockState struct {
	w    bool
	r    int
	wait []*G
}

func (m *Machine) lock(p Ptr) *lockState {
	l := m.locks[p]
	if l == nil {
		l = &lockState{}
		m.locks[p] = l
	}
	return l
}

// tryLock acquires or blocks; blocked calls are retried.
func (m *Machine) tryLock(k *call, p Ptr, write bool) bool {
	l := m.lock(p)
	if l.w || (write && l.r > 0) {
		g := k.g
		if g == nil {
			m.unsupported("contended lock inside a modelled function")
		}
		m.blockOn(g, "lock")
		l.wait = append(l.wait, g)
		k.block = true
		return false
	}
	if write {
		l.w = true
	} else {
		l.r++
	}
	m.acquire(p)
	return true
}

func (m *Machine) unlock(p Ptr, write bool) {
	l := m.lock(p)
	if write && !l.w || !write && l.r == 0 {
		m.goPanicStr("sync: unlock of unlocked mutex")
	}
	m.release(p)
	if write {
		l.w = false
	} else {
		l.r--
	}
	for _, g := range l.wait {
		g.status = gRun
	}
	l.wait = nil
}

// ---- timers ----

type timer struct {
	at    int64
	f     func()
	dead  bool
	seq   int
	fired bool
}

func (m *Machine) addTimer(d int64, f func()) *timer {
	t := &timer{at: m.now + max(d, 0), f: f, seq: len(m.timers)}
	m.timers = append(m.timers, t)
	return t
}

func (m *Machine) fireTimer() bool {
	var best *timer
	for _, t := range m.timers {
		if !t.dead && (best == nil || t.at < best.at) {
			best = t
		}
	}
	if best == nil {
		return false
	}
	best.dead, best.fired = true, true
	if best.at > m.now {
		m.now = best.at
	}
	best.f()
	return true
}

// ---- main loop ----

// runGs schedules until the main goroutine is done.
func (m *Machine) runGs(main *G) {
	cur := main
	for {
		if main.status == gDone {
			return
		}
		if cur.status == gRun && !m.yieldReq {
			m.cur = cur
			if cur.wake != nil {
				w := cur.wake
				cur.wake = nil
				func() {
					defer func() {
						if r := recover(); r != nil {
							if gp, ok := r.(goPanic); ok {
								m.startPanic(cur, gp.val)
								return
							}
							panic(r)
						}
					}()
					w()
				}()
				continue
			}
			if len(cur.frames) == 0 {
				cur.status = gDone
				continue
			}
			m.step(cur)
			continue
		}
		var opts []*G
		if m.yieldReq {
			m.yieldReq = false
			opts = append(opts, cur)
		}
		for _, g := range m.gs {
			if g.status == gRun && (g != cur || len(opts) == 0) {
				opts = append(opts, g)
			}
		}
		if len(opts) == 0 {
			if m.fireTimer() {
				continue
			}
			if q := m.quiescer(); q != nil {
				q.frozen = false
				q.status = gRun
				cur = q
				continue
			}
			m.cur = main
			m.report("deadlock", "blocked forever: "+m.stacks(), m.model)
			panic(endPath{"stop", "deadlock"})
		}
		k := 0
		if m.explore && len(opts) > 1 {
			k = m.choice(len(opts), "schedule")
			if opts[0] == cur && k > 0 {
				m.preempts++
			}
			m.schedLog = append(m.schedLog, fmt.Sprintf("run g%d (%s)", opts[k].id, short(opts[k].start)))
		} else if !m.explore && len(opts) > 1 && opts[0] == cur {
			k = 0
		}
		cur = opts[k]
	}
}

func short(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}

func (m *Machine) quiescer() *G {
	for _, g := range m.gs {
		if g.status == gBlocked && g.frozen {
			return g
		}
	}
	return nil
}

// stacks describes the blocked goroutines.
func (m *Machine) stacks() string {
	var out []string
	for _, g := range m.gs {
		if g.status == gBlocked {
			sv := m.cur
			m.cur = g
			out = append(out, fmt.Sprintf("g%d (%s) in %s", g.id, g.why, m.where()))
			m.cur = sv
		}
	}
	return strings.Join(out, "; ")
}

// libGoroutines counts live goroutines started by the code under test (or by
// its driver on its behalf).
func (m *Machine) libGoroutines() (n int, desc []string) {
	for _, g := range m.gs {
		if g.status == gDone || g.id == 0 {
			continue
		}
		repo := g.repo
		for _, f := range g.frames {
			if f.cf.repo {
				repo = true
			}
		}
		if repo {
			n++
			desc = append(desc, g.start)
		}
	}
	sort.Strings(desc)
	return
}
