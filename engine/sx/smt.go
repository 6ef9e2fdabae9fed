package sx

import (
	"bufio"
	"fmt"
	"io"
	"math/bits"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Result of a query.
type Result int

// Results.
const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// SolverStats counts what a solver did.
type SolverStats struct {
	Queries, Sat, Unsat, Unknown, Fallbacks, CacheHits, CrossChecked, CrossDisagree int64
	Time                                                                            time.Duration
	MaxQuery                                                                        time.Duration
	IntQueries, IntBad                                                              int64
}

// Add accumulates.
func (s *SolverStats) Add(o *SolverStats) {
	s.Queries += o.Queries
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.Unknown += o.Unknown
	s.Fallbacks += o.Fallbacks
	s.CacheHits += o.CacheHits
	s.CrossChecked += o.CrossChecked
	s.CrossDisagree += o.CrossDisagree
	s.Time += o.Time
	s.IntQueries += o.IntQueries
	s.IntBad += o.IntBad
	s.MaxQuery = max(s.MaxQuery, o.MaxQuery)
}

// Solver drives one Z3 process over a pipe.
type Solver struct {
	Until    time.Time // no query starts later
	tt       *TT
	ints     *intSession
	cmd      *exec.Cmd
	in       *bufio.Writer
	inRaw    io.WriteCloser
	out      *bufio.Reader
	gen      uint32
	defs     int
	ufs      map[string]bool
	Stats    SolverStats
	Timeout  time.Duration
	Fallback time.Duration
	log      io.Writer
	cache    map[string]cached
	// every CrossEvery-th query is also put to cvc5
	CrossEvery int64
}

type cached struct {
	r Result
	m *Model
}

// SlowLog is called for slow queries.
var SlowLog func(d time.Duration, cs []*Term)

// Z3Path is the solver binary.
var Z3Path = "z3-new"

// NewSolver starts a solver for terms of tt.
func NewSolver(tt *TT) *Solver {
	s := &Solver{tt: tt, Timeout: 10 * time.Second, Fallback: 30 * time.Second, cache: map[string]cached{}}
	if f := os.Getenv("GOSYM_SMTLOG"); f != "" {
		w, _ := os.OpenFile(f, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
		s.log = w
	}
	return s
}

func (s *Solver) start() error {
	s.Close()
	s.gen++
	s.defs = 0
	s.ufs = map[string]bool{}
	c := exec.Command(Z3Path, "-in", "-smt2", "-memory:3000")
	in, err := c.StdinPipe()
	if err != nil {
		return err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return err
	}
	c.Stderr = c.Stdout
	if err := c.Start(); err != nil {
		return err
	}
	s.cmd, s.inRaw = c, in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.send("(set-option :print-success false)")
	s.send(fmt.Sprintf("(set-option :timeout %d)", s.Timeout.Milliseconds()))
	return nil
}

// Close ends the process.
func (s *Solver) Close() {
	if s.ints != nil {
		s.ints.s.Close()
	}
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(l string) {
	s.in.WriteString(l)
	s.in.WriteByte('\n')
	if s.log != nil {
		fmt.Fprintln(s.log, l)
	}
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func constLit(w uint8, v uint64) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	return "(_ bv" + strconv.FormatUint(v, 10) + " " + strconv.Itoa(int(w)) + ")"
}

func ref(x *Term) string {
	if x.op == OConst {
		return constLit(x.w, x.val)
	}
	return "t" + strconv.Itoa(int(x.id))
}

func ufSig(x *Term) string {
	var sb strings.Builder
	sb.WriteString("(declare-fun |" + x.name + "| (")
	for i, a := range x.args {
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(sortOf(a.w))
	}
	sb.WriteString(") " + sortOf(x.w) + ")")
	return sb.String()
}

func body(x *Term) string {
	var sb strings.Builder
	switch x.op {
	case OUDiv, OURem:
		// divide in the width the operands need
		if n := uint8(bits.Len64(max(x.args[0].umax, x.args[1].umax))); x.args[1].IsConst() && n < x.w {
			fmt.Fprintf(&sb, "(concat %s (%s ((_ extract %d 0) %s) %s))", constLit(x.w-n, 0), opNames[x.op], n-1, ref(x.args[0]), constLit(n, x.args[1].val))
			return sb.String()
		}
		fmt.Fprintf(&sb, "(%s %s %s)", opNames[x.op], ref(x.args[0]), ref(x.args[1]))
	case OExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", x.hi, x.lo, ref(x.args[0]))
	case OSExt:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", x.w-x.args[0].w, ref(x.args[0]))
	case OUF:
		sb.WriteString("(|" + x.name + "|")
		for _, a := range x.args {
			sb.WriteByte(' ')
			sb.WriteString(ref(a))
		}
		sb.WriteByte(')')
	case OConcat:
		// binary nesting
		n := len(x.args)
		for i := 0; i < n-1; i++ {
			sb.WriteString("(concat " + ref(x.args[i]) + " ")
		}
		sb.WriteString(ref(x.args[n-1]))
		for i := 0; i < n-1; i++ {
			sb.WriteByte(')')
		}
	default:
		sb.WriteByte('(')
		sb.WriteString(opNames[x.op])
		for _, a := range x.args {
			sb.WriteByte(' ')
			sb.WriteString(ref(a))
		}
		sb.WriteByte(')')
	}
	return sb.String()
}

// define emits definitions for x and everything below it.
func define(x *Term, done func(*Term) bool, mark func(*Term), ufDone map[string]bool, emit func(string)) {
	if x.op == OConst || done(x) {
		return
	}
	for _, a := range x.args {
		define(a, done, mark, ufDone, emit)
	}
	mark(x)
	switch x.op {
	case OVar:
		if n := uint8(bits.Len64(x.umax)); x.w > 1 && n < x.w {
			n = max(n, 1)
			emit("(declare-const n" + ref(x) + " " + sortOf(n) + ")")
			emit("(define-fun " + ref(x) + " () " + sortOf(x.w) + " (concat " + constLit(x.w-n, 0) + " n" + ref(x) + "))")
			break
		}
		emit("(declare-const " + ref(x) + " " + sortOf(x.w) + ")")
	case OUF:
		if !ufDone[x.name] {
			ufDone[x.name] = true
			emit(ufSig(x))
		}
		emit("(define-fun " + ref(x) + " () " + sortOf(x.w) + " " + body(x) + ")")
	default:
		emit("(define-fun " + ref(x) + " () " + sortOf(x.w) + " " + body(x) + ")")
	}
}

// leaves collects variables and function applications below the terms.
func leaves(ts []*Term) (out []*Term) {
	seen := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if x.op == OConst || seen[x] {
			return
		}
		seen[x] = true
		for _, a := range x.args {
			walk(a)
		}
		if x.op == OVar || x.op == OUF {
			out = append(out, x)
		}
	}
	for _, x := range ts {
		walk(x)
	}
	return
}

func rangeAsserts(ls []*Term) (out []string) {
	for _, x := range ls {
		if x.w == 0 {
			continue
		}
		if x.umin > 0 {
			out = append(out, "(assert (bvuge "+ref(x)+" "+constLit(x.w, x.umin)+"))")
		}
		if x.umax < mask(x.w) {
			out = append(out, "(assert (bvule "+ref(x)+" "+constLit(x.w, x.umax)+"))")
		}
	}
	return
}

func cacheKey(cs []*Term) string {
	b := make([]byte, 0, 4*len(cs))
	for _, c := range cs {
		b = append(b, byte(c.id), byte(c.id>>8), byte(c.id>>16), byte(c.id>>24))
	}
	return string(b)
}

// Check decides the conjunction of cs (sorted by id, without duplicates).
func (s *Solver) Check(cs []*Term) (Result, *Model) {
	k := cacheKey(cs)
	if c, ok := s.cache[k]; ok {
		s.Stats.CacheHits++
		return c.r, c.m
	}
	if !s.Until.IsZero() && time.Now().After(s.Until) {
		return Unknown, nil
	}
	r, m := s.check(cs)
	if r != Unknown {
		s.cache[k] = cached{r, m}
	}
	return r, m
}

func (s *Solver) check(cs []*Term) (Result, *Model) {
	t0 := time.Now()
	s.Stats.Queries++
	defer func() {
		d := time.Since(t0)
		s.Stats.Time += d
		s.Stats.MaxQuery = max(s.Stats.MaxQuery, d)
		if SlowLog != nil && d > 500*time.Millisecond {
			SlowLog(d, cs)
		}
	}()
	if r, m, ok := s.intCheck(cs); ok {
		s.Stats.IntQueries++
		if r == Unsat {
			s.Stats.Unsat++
		} else {
			s.Stats.Sat++
		}
		s.cross(cs, leaves(cs), r.String())
		return r, m
	}
	if s.cmd == nil || s.defs > 150000 {
		if err := s.start(); err != nil {
			s.Stats.Unknown++
			return Unknown, nil
		}
	}
	for _, c := range cs {
		define(c, func(x *Term) bool { return x.defined == s.gen }, func(x *Term) { x.defined = s.gen; s.defs++ }, s.ufs, s.send)
	}
	ls := leaves(cs)
	s.send("(push 1)")
	for _, l := range rangeAsserts(ls) {
		s.send(l)
	}
	for _, c := range cs {
		s.send("(assert " + ref(c) + ")")
	}
	s.send("(check-sat)")
	ans, err := s.line()
	if err != nil || (ans != "sat" && ans != "unsat") {
		if err == nil && ans == "unknown" {
			s.send("(pop 1)")
		} else {
			if os.Getenv("GOSYM_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "solver:", ans, err)
			}
			s.Close()
		}
		return s.fallback(cs, ls)
	}
	if ans == "unsat" {
		s.send("(pop 1)")
		s.Stats.Unsat++
		s.cross(cs, ls, "unsat")
		return Unsat, nil
	}
	m, err := s.getModel(ls)
	if err != nil {
		s.Close()
		s.Stats.Unknown++
		return Unknown, nil
	}
	s.send("(pop 1)")
	s.Stats.Sat++
	s.cross(cs, ls, "sat")
	return Sat, m
}

func (s *Solver) line() (string, error) {
	if err := s.in.Flush(); err != nil {
		return "", err
	}
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) getModel(ls []*Term) (*Model, error) {
	m := NewModel()
	if len(ls) == 0 {
		return m, nil
	}
	// leaves are ordered so that arguments of applications come first
	vals := map[*Term]uint64{}
	for i := 0; i < len(ls); i += 200 {
		part := ls[i:min(i+200, len(ls))]
		var sb strings.Builder
		sb.WriteString("(get-value (")
		for _, x := range part {
			sb.WriteString(ref(x) + " ")
		}
		sb.WriteString("))")
		s.send(sb.String())
		txt, err := s.sexpr()
		if err != nil {
			return nil, err
		}
		if err := parseValues(txt, part, vals); err != nil {
			return nil, err
		}
	}
	fillModel(m, ls, vals)
	return m, nil
}

func fillModel(m *Model, ls []*Term, vals map[*Term]uint64) {
	for _, x := range ls {
		if x.op == OVar {
			m.vars[x.name] = vals[x]
		}
	}
	for _, x := range ls {
		if x.op == OUF {
			as := make([]uint64, len(x.args))
			for j, a := range x.args {
				as[j] = m.Eval(a)
			}
			m.ufs[ufKey(x, as)] = vals[x]
		}
	}
	m.memo = map[*Term]uint64{}
}

func (s *Solver) sexpr() (string, error) {
	if err := s.in.Flush(); err != nil {
		return "", err
	}
	var sb strings.Builder
	depth, started := 0, false
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		sb.WriteString(l)
		for _, c := range l {
			if c == '(' {
				depth++
				started = true
			} else if c == ')' {
				depth--
			}
		}
		if started && depth <= 0 {
			return sb.String(), nil
		}
	}
}

func parseValues(txt string, part []*Term, vals map[*Term]uint64) error {
	if strings.Contains(txt, "(error") {
		return fmt.Errorf("%s", txt)
	}
	byRef := map[string]*Term{}
	for _, x := range part {
		byRef[ref(x)] = x
	}
	f := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt))
	for i := 0; i < len(f); i++ {
		x := byRef[f[i]]
		if x == nil || i+1 >= len(f) {
			continue
		}
		v := f[i+1]
		switch {
		case v == "true":
			vals[x] = 1
		case v == "false":
			vals[x] = 0
		case strings.HasPrefix(v, "#x"):
			n, err := strconv.ParseUint(v[2:], 16, 64)
			if err != nil {
				return err
			}
			vals[x] = n
		case strings.HasPrefix(v, "#b"):
			n, err := strconv.ParseUint(v[2:], 2, 64)
			if err != nil {
				return err
			}
			vals[x] = n
		case v == "(" && i+3 < len(f) && f[i+2] == "_" && strings.HasPrefix(f[i+3], "bv"):
			n, err := strconv.ParseUint(f[i+3][2:], 10, 64)
			if err != nil {
				return err
			}
			vals[x] = n
		default:
			return fmt.Errorf("bad value %q", v)
		}
	}
	return nil
}

// script renders the query as a stand-alone SMT-LIB script.
func script(cs, ls []*Term, get bool, check string) string {
	var sb strings.Builder
	sb.WriteString("(set-logic QF_UFBV)\n")
	done := map[*Term]bool{}
	ufs := map[string]bool{}
	for _, c := range cs {
		define(c, func(x *Term) bool { return done[x] }, func(x *Term) { done[x] = true }, ufs,
			func(l string) { sb.WriteString(l); sb.WriteByte('\n') })
	}
	for _, l := range rangeAsserts(ls) {
		sb.WriteString(l + "\n")
	}
	for _, c := range cs {
		sb.WriteString("(assert " + ref(c) + ")\n")
	}
	sb.WriteString(check + "\n")
	if get && len(ls) > 0 {
		sb.WriteString("(get-value (")
		for _, x := range ls {
			sb.WriteString(ref(x) + " ")
		}
		sb.WriteString("))\n")
	}
	return sb.String()
}

func oneShot(timeout time.Duration, input string, name string, args ...string) string {
	c := exec.Command(name, args...)
	c.Stdin = strings.NewReader(input)
	done := make(chan string, 1)
	go func() {
		b, _ := c.Output()
		done <- string(b)
	}()
	select {
	case o := <-done:
		return o
	case <-time.After(timeout):
		if c.Process != nil {
			c.Process.Kill()
		}
		<-done
		return ""
	}
}

// fallback puts a query the incremental solver gave up on to stand-alone
// solvers: z3's bit-vector tactic and cvc5 with and without the integer
// encoding; the first answer counts.
func (s *Solver) fallback(cs, ls []*Term) (Result, *Model) {
	s.Stats.Fallbacks++
	sc := script(cs, ls, true, "(check-sat)")
	type ans struct{ txt string }
	ch := make(chan ans, 3)
	secs := s.Fallback
	tl := fmt.Sprintf("--tlimit=%d", secs.Milliseconds())
	run := func(name string, args ...string) {
		ch <- ans{oneShot(secs+time.Second, sc, name, args...)}
	}
	ms := "-T:" + strconv.Itoa(int(secs.Seconds()))
	go run(Z3Path, "-in", "-smt2", ms)
	go run("cvc5", "--lang=smt2", "--produce-models", tl, "-q")
	go run("cvc5", "--lang=smt2", "--produce-models", "--solve-bv-as-int=sum", tl, "-q")
	for i := 0; i < 3; i++ {
		a := <-ch
		l, rest, _ := strings.Cut(a.txt, "\n")
		switch strings.TrimSpace(l) {
		case "unsat":
			s.Stats.Unsat++
			return Unsat, nil
		case "sat":
			vals := map[*Term]uint64{}
			if len(ls) > 0 && parseValues(rest, ls, vals) != nil {
				continue
			}
			m := NewModel()
			fillModel(m, ls, vals)
			ok := true
			for _, c := range cs {
				if m.Eval(c) != 1 {
					ok = false
				}
			}
			if !ok {
				continue
			}
			s.Stats.Sat++
			return Sat, m
		}
	}
	s.Stats.Unknown++
	return Unknown, nil
}

// cross re-decides a sample of the queries with cvc5.
func (s *Solver) cross(cs, ls []*Term, want string) {
	if s.CrossEvery == 0 || s.Stats.Queries%s.CrossEvery != 0 {
		return
	}
	out := oneShot(5*time.Second, script(cs, ls, false, "(check-sat)"), "cvc5", "--lang=smt2", "-q", "--tlimit=4000")
	out = strings.TrimSpace(out)
	if out != "sat" && out != "unsat" {
		return
	}
	s.Stats.CrossChecked++
	if out != want {
		s.Stats.CrossDisagree++
	}
}
