package sx

import (
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// SampleObs is an observation of one path evaluated in one model.
type SampleObs struct {
	Name string
	Val  string
}

// Sample is a concrete instance of an explored path.
type Sample struct {
	Inputs []InputVal
	Obs    []SampleObs
}

// HarnessStats describes the exploration of one harness.
type HarnessStats struct {
	Name      string
	Paths     int64
	Infeas    int64
	Instrs    int64
	Branches  int64
	Asserts   int64
	AssertQ   int64
	Viol      []Violation
	Incompl   map[string]int64
	Samples   []Sample
	sampled   int64
	Pending   int
	Elapsed   time.Duration
	MaxPath   int64
	busy      time.Duration
	violCount map[string]int
	stopped   bool
	stack     []newPath
	load      time.Duration // of the paths begun, for the choice of the next one
	firstViol time.Time
}

// Result of a property check.
type Result2 struct {
	Harness  []*HarnessStats
	Solver   SolverStats
	Funcs    map[string]bool
	Blocks   map[*ssa.BasicBlock]bool
	FuncSet  map[*ssa.Function]bool
	Reached  map[string]int64
	Expected map[string]bool
	Assumes  map[string]bool
	Stubs    map[string]int64
	Wall     time.Duration
	TimedOut bool
}

// Config of an exploration.
type Config struct {
	Workers    int
	Deadline   time.Time
	Thorough   bool
	Seed       int64
	Samples    int
	CrossEvery int64
	Timeout    time.Duration
	Fallback   time.Duration
	MaxViol    int
	Known      func(harness, msg string) bool // violations listed as findings: they do not shorten the search
	AfterViol  time.Duration                  // how long a harness goes on after its first violation
	MaxSteps   int64
	PathTime   time.Duration
	Progress   func(string)
}

// resetPath prepares the machine for a new path.
func (m *Machine) resetPath(np newPath) {
	m.epoch++
	m.undo = m.undo[:0]
	m.prefix = np.Decs
	m.decs = make([]Decision, 0, len(np.Decs)+16)
	m.pc = nil
	m.model = NewModel()
	if np.Model != nil {
		m.model.vars, m.model.ufs = np.Model.vars, np.Model.ufs
	}
	m.gs = nil
	m.cur = nil
	m.inputs = nil
	m.obs = nil
	m.fresh = 0
	m.steps = 0
	m.memCells = 0
	m.ifaceN = 0
	m.locks = map[Ptr]*lockState{}
	m.vcs = map[interface{}]VC{}
	m.pools = map[Ptr][]Value{}
	m.side = map[interface{}]interface{}{}
	m.explore = false
	m.preempts = 0
	m.maxPre = 0
	m.schedLog = nil
	m.viol = nil
	m.incompl = nil
	m.race = nil
	m.yieldReq = false
	m.quiet = 0
	m.ended = ""
	m.inInit = false
	m.mapOrder = false
	m.timers = nil
	m.now = 0
	m.nested = 0
	m.asserts = 0
	m.locals = map[string]Value{}
	m.out = nil
}

// RunPath executes fn along one decision prefix to the end of a path.
func (m *Machine) RunPath(fn *ssa.Function, np newPath) (kind string) {
	m.resetPath(np)
	defer func() {
		for i := len(m.undo) - 1; i >= 0; i-- {
			u := m.undo[i]
			if u.fn != nil {
				u.fn()
			} else {
				u.o.slots[u.i] = u.v
			}
		}
		m.undo = m.undo[:0]
	}()
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(endPath); ok {
				kind = e.kind
				if kind == "unsupported" {
					m.incomplete(e.msg)
				}
				return
			}
			msg := fmt.Sprint(r)
			if gp, ok := r.(goPanic); ok {
				msg = "stray panic " + m.panicText(gp.val)
			}
			if os.Getenv("GOSYM_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "engine error: %s\n%s\n%s\n", msg, m.where(), debug.Stack())
			}
			kind = "engine"
			m.incomplete("engine error: " + msg + " in " + m.where())
		}
	}()
	g := m.newG(&Closure{fn: fn}, nil)
	m.cur = g
	m.runGs(g)
	return "done"
}

// stubFree reports whether the terms depend only on inputs.
func stubFree(ts []*Term) bool {
	for _, l := range leaves(ts) {
		if !strings.HasPrefix(l.name, "in") || strings.HasPrefix(l.name, "int!") {
			return false
		}
	}
	return true
}

func (m *Machine) sample() (Sample, bool) {
	if !stubFree(m.pc) {
		return Sample{}, false
	}
	s := Sample{Inputs: m.inputVals(m.model)}
	for _, i := range s.Inputs {
		if len(i.B) > 1<<17 {
			return Sample{}, false
		}
	}
	for _, o := range m.obs {
		s.Obs = append(s.Obs, SampleObs{o.Name, m.obsText(o)})
	}
	return s, true
}

func (m *Machine) obsText(o Obs) string {
	switch v := o.V.(type) {
	case string:
		return v
	case []*Term:
		if !stubFree(v) {
			return "?"
		}
		b := make([]byte, len(v))
		for i, t := range v {
			b[i] = byte(m.model.Eval(t))
		}
		return fmt.Sprintf("x%x", b)
	case *Str:
		if v.a != nil || v.tag != "" {
			return "?"
		}
		return m.obsText(Obs{V: append([]*Term{}, m.strBytes(v)...)})
	case *Term:
		if !stubFree([]*Term{v}) {
			return "?"
		}
		x := m.model.Eval(v)
		if b, ok := o.T.Underlying().(*types.Basic); ok {
			w, signed, _ := intWidth(b)
			if w == 0 {
				return fmt.Sprint(x == 1)
			}
			if signed {
				sh := 64 - uint(w)
				return fmt.Sprint(int64(x<<sh) >> sh)
			}
		}
		return fmt.Sprint(x)
	}
	return "?"
}

// Explore runs the harnesses to completion (or the deadline).
func Explore(p *Program, fns []*ssa.Function, cfg Config) *Result2 {
	t0 := time.Now()
	res := &Result2{Funcs: map[string]bool{}, Blocks: map[*ssa.BasicBlock]bool{}, FuncSet: map[*ssa.Function]bool{}, Reached: map[string]int64{},
		Expected: map[string]bool{}, Assumes: map[string]bool{}, Stubs: map[string]int64{}}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	left, active := 0, 0
	for i, f := range fns {
		res.Harness = append(res.Harness, &HarnessStats{Name: f.Name(), Incompl: map[string]int64{}, violCount: map[string]int{}})
		_ = i
	}
	for _, hs := range res.Harness {
		hs.stack = append(hs.stack, newPath{})
		left++
	}
	// pick takes the next path: the last of the harness that has had the least
	// time, or of the harness at hand while that is not far ahead.
	pick := func(at int) (int, newPath) {
		best := -1
		for i, hs := range res.Harness {
			if len(hs.stack) > 0 && (best < 0 || hs.load < res.Harness[best].load) {
				best = i
			}
		}
		if at >= 0 && len(res.Harness[at].stack) > 0 && res.Harness[at].load < res.Harness[best].load+4*time.Second {
			best = at
		}
		hs := res.Harness[best]
		np := hs.stack[len(hs.stack)-1]
		hs.stack = hs.stack[:len(hs.stack)-1]
		left--
		return best, np
	}
	rng := rand.New(rand.NewSource(cfg.Seed))
	newM := func() *Machine {
		m := NewMachine(p)
		m.Thorough = cfg.Thorough
		m.S.CrossEvery = cfg.CrossEvery
		if cfg.Timeout > 0 {
			m.S.Timeout = cfg.Timeout
		}
		if cfg.Fallback > 0 {
			m.S.Fallback = cfg.Fallback
		}
		if cfg.MaxSteps > 0 {
			m.MaxSteps = cfg.MaxSteps
		}
		return m
	}
	flush := func(m *Machine) {
		mu.Lock()
		defer mu.Unlock()
		res.Solver.Add(&m.S.Stats)
		for f := range m.Funcs {
			res.FuncSet[f] = true
			res.Funcs[f.String()] = true
		}
		for b := range m.Blocks {
			res.Blocks[b] = true
		}
		for k, v := range m.Reached {
			res.Reached[k] += v
		}
		for k := range m.Expected {
			res.Expected[k] = true
		}
		for k := range m.Assumes {
			res.Assumes[k] = true
		}
		for k, v := range m.Stubs {
			res.Stubs[k] += v
		}
		m.S.Close()
	}
	var wg sync.WaitGroup
	for w := 0; w < cfg.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m := newM()
			defer func() { flush(m) }()
			at := -1
			for {
				mu.Lock()
				for left == 0 && active > 0 {
					cond.Wait()
				}
				if left == 0 {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				var np newPath
				at, np = pick(at)
				hs := res.Harness[at]
				if !cfg.Deadline.IsZero() && time.Now().After(cfg.Deadline) {
					res.TimedOut = true
					hs.Pending += 1
					mu.Unlock()
					continue
				}
				if hs.stopped || cfg.AfterViol > 0 && !hs.firstViol.IsZero() && time.Since(hs.firstViol) > cfg.AfterViol {
					hs.Pending++
					mu.Unlock()
					continue
				}
				active++
				deadline := cfg.Deadline
				const charge = time.Second
				hs.load += charge
				mu.Unlock()
				tp := time.Now()
				br, aq := m.Branches, m.AssertQ
				m.S.Until = tp.Add(cfg.PathTime)
				if !deadline.IsZero() && deadline.Before(m.S.Until) {
					m.S.Until = deadline
				}
				if cfg.PathTime == 0 {
					m.S.Until = deadline
				}
				kind := m.RunPath(fns[at], np)
				d := time.Since(tp)
				mu.Lock()
				hs.busy += d
				hs.load += d - charge
				hs.Elapsed = time.Since(t0)
				hs.Instrs += m.steps
				if m.steps > hs.MaxPath {
					hs.MaxPath = m.steps
				}
				hs.Branches += m.Branches - br
				hs.AssertQ += m.AssertQ - aq
				hs.Asserts += m.asserts
				switch kind {
				case "assume":
					hs.Infeas++
				default:
					hs.Paths++
				}
				for _, s := range m.incompl {
					hs.Incompl[s]++
				}
				for _, v := range m.viol {
					key := v.Kind + "|" + v.Msg
					hs.violCount[key]++
					if hs.violCount[key] <= 4 {
						hs.Viol = append(hs.Viol, v)
					}
				}
				fresh := false
				for _, v := range m.viol {
					fresh = fresh || cfg.Known == nil || !cfg.Known(hs.Name, v.Msg)
				}
				if fresh && hs.firstViol.IsZero() {
					hs.firstViol = time.Now()
					if d := hs.firstViol.Add(4 * cfg.AfterViol); cfg.AfterViol > 0 && (cfg.Deadline.IsZero() || d.Before(cfg.Deadline)) {
						cfg.Deadline = d
					}
				}
				if cfg.MaxViol > 0 && len(hs.violCount) >= cfg.MaxViol {
					hs.stopped = true
				}
				if kind == "done" && len(m.viol) == 0 && cfg.Samples > 0 {
					hs.sampled++
					slot := -1
					if len(hs.Samples) < cfg.Samples {
						slot = len(hs.Samples)
					} else if j := rng.Int63n(hs.sampled); j < int64(cfg.Samples) {
						slot = int(j)
					}
					if slot >= 0 {
						mu.Unlock()
						s, ok := m.sample()
						mu.Lock()
						if ok {
							if slot >= len(hs.Samples) {
								hs.Samples = append(hs.Samples, s)
							} else {
								hs.Samples[slot] = s
							}
						}
					}
				}
				for _, o := range m.out {
					hs.stack = append(hs.stack, o)
					left++
				}
				m.out = nil
				active--
				mu.Unlock()
				cond.Broadcast()
				if m.T.next > 6000000 {
					flush(m)
					m = newM()
				}
			}
		}()
	}
	wg.Wait()
	res.Wall = time.Since(t0)
	return res
}

// IncomplList gives the reasons exploration was cut, most frequent first.
func (h *HarnessStats) IncomplList() []string {
	var ks []string
	for k := range h.Incompl {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if h.Incompl[ks[i]] != h.Incompl[ks[j]] {
			return h.Incompl[ks[i]] > h.Incompl[ks[j]]
		}
		return ks[i] < ks[j]
	})
	return ks
}

// Busy is the time workers spent on the harness.
func (h *HarnessStats) Busy() time.Duration { return h.busy }
