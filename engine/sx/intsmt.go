package sx

import (
	"fmt"
	"math/big"
	"os"
	"strconv"
	"strings"
)

// Queries made of comparisons and sums only (orders between sequence numbers,
// offsets, lengths) are translated exactly to integer arithmetic, where chains
// of inequalities are decided without bit-blasting. Every sum is reduced
// modulo 2^w explicitly, so the translation has the same models.

type intSession struct {
	s    *Solver
	done map[*Term]bool
	okay map[*Term]int8 // 1 translatable, 2 not

}

func pow2(w uint8) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(w)) }

// signedCoef reads a constant as the small signed number it stands for.
func signedCoef(w uint8, v uint64) *big.Int {
	x := new(big.Int).SetUint64(v)
	if v > mask(w)/2 {
		x.Sub(x, pow2(w))
	}
	return x
}

// linTerm splits an addend into coefficient and term.
func linTerm(x *Term) (*big.Int, *Term) {
	if x.IsConst() {
		return signedCoef(x.w, x.val), nil
	}
	if x.op == OMul && len(x.args) == 2 {
		a, b := x.args[0], x.args[1]
		if b.IsConst() {
			a, b = b, a
		}
		if a.IsConst() && !b.IsConst() {
			return signedCoef(x.w, a.val), b
		}
	}
	return big.NewInt(1), x
}

// sumRange bounds a sum before reduction.
func sumRange(x *Term) (lo, hi *big.Int) {
	lo, hi = new(big.Int), new(big.Int)
	args := x.args
	if x.op == OMul {
		args = []*Term{x}
	}
	for _, a := range args {
		c, t := linTerm(a)
		if t == nil {
			lo.Add(lo, c)
			hi.Add(hi, c)
			continue
		}
		p := new(big.Int).Mul(c, new(big.Int).SetUint64(t.umin))
		q := new(big.Int).Mul(c, new(big.Int).SetUint64(t.umax))
		if p.Cmp(q) > 0 {
			p, q = q, p
		}
		lo.Add(lo, p)
		hi.Add(hi, q)
	}
	return
}

func (n *intSession) ok(x *Term) bool {
	if x.op == OConst {
		return true
	}
	if r := n.okay[x]; r != 0 {
		return r == 1
	}
	r := true
	args := x.args
	switch x.op {
	case OVar, ONot, OAnd, OOr, OIte, OEq:
	case OUlt, OUle, OSlt, OSle:
	case OConcat, OExtract:
	case OAdd, OMul:
		if x.op == OMul {
			if c, t := linTerm(x); t == nil || t == x || c.BitLen() > 40 {
				r = false
			}
		}
		lo, hi := sumRange(x)
		m := pow2(x.w)
		lim := new(big.Int).Mul(m, big.NewInt(4))
		if hi.Cmp(lim) > 0 || lo.Cmp(new(big.Int).Neg(lim)) < 0 {
			r = false
		}
		args = nil
		for _, a := range x.args {
			if _, t := linTerm(a); t != nil {
				args = append(args, t)
			}
		}
		if x.op == OMul {
			args = nil
			if _, t := linTerm(x); t != nil && t != x {
				args = []*Term{t}
			}
		}
	default:
		r = false
	}
	for _, a := range args {
		r = r && n.ok(a)
	}
	if r {
		n.okay[x] = 1
	} else {
		n.okay[x] = 2
	}
	return r
}

// wants tells whether the queries are about orders between wide values.
func (n *intSession) wants(cs []*Term) bool {
	cnt := 0
	seen := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if x.op == OConst || seen[x] || cnt >= 3 {
			return
		}
		seen[x] = true
		switch x.op {
		case OUlt, OUle, OSlt, OSle, OEq:
			if x.args[0].w >= 32 && !x.args[0].IsConst() && !x.args[1].IsConst() {
				cnt++
			}
		}
		for _, a := range x.args {
			if a.w == 0 || a.op == OIte || a.op == OAdd {
				walk(a)
			}
		}
		if x.op == OUlt || x.op == OUle || x.op == OSlt || x.op == OSle || x.op == OEq {
			for _, a := range x.args {
				walk(a)
			}
		}
	}
	for _, c := range cs {
		walk(c)
	}
	if cnt < 3 {
		return false
	}
	for _, c := range cs {
		if !n.ok(c) {
			if debugInt {
				n.explain(c)
			}
			return false
		}
	}
	return true
}

var debugInt = os.Getenv("GOSYM_INT") != ""

func (n *intSession) explain(x *Term) {
	for _, a := range x.args {
		if a.op != OConst && n.okay[a] == 2 {
			n.explain(a)
			return
		}
	}
	fmt.Fprintf(os.Stderr, "not int: %s w%d %.200s\n", opNames[x.op], x.w, x.String())
}

func bigLit(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func intRef(x *Term) string {
	if x.op == OConst {
		if x.w == 0 {
			return constLit(0, x.val)
		}
		return strconv.FormatUint(x.val, 10)
	}
	return "t" + strconv.Itoa(int(x.id))
}

// signedRef is the two's complement reading.
func signedRef(x *Term) string {
	if x.IsConst() {
		return bigLit(signedCoef(x.w, x.val))
	}
	if x.umax <= mask(x.w)/2 {
		return intRef(x)
	}
	return fmt.Sprintf("(ite (>= %s %s) (- %s %s) %s)", intRef(x), pow2(x.w-1), intRef(x), pow2(x.w), intRef(x))
}

func (n *intSession) define(x *Term) {
	if x.op == OConst || n.done[x] {
		return
	}
	n.done[x] = true
	n.s.defs++
	if x.op == OVar {
		if x.w == 0 {
			n.s.send("(declare-const " + intRef(x) + " Bool)")
			return
		}
		n.s.send("(declare-const " + intRef(x) + " Int)")
		n.s.send(fmt.Sprintf("(assert (and (<= %d %s) (<= %s %d)))", x.umin, intRef(x), intRef(x), x.umax))
		return
	}
	var b string
	refs := func() string {
		var sb strings.Builder
		for _, a := range x.args {
			n.define(a)
			sb.WriteByte(' ')
			sb.WriteString(intRef(a))
		}
		return sb.String()
	}
	switch x.op {
	case ONot:
		b = "(not" + refs() + ")"
	case OAnd:
		b = "(and" + refs() + ")"
	case OOr:
		b = "(or" + refs() + ")"
	case OIte:
		b = "(ite" + refs() + ")"
	case OEq:
		b = "(=" + refs() + ")"
	case OUlt:
		b = "(<" + refs() + ")"
	case OUle:
		b = "(<=" + refs() + ")"
	case OSlt, OSle:
		refs()
		op := "<"
		if x.op == OSle {
			op = "<="
		}
		b = fmt.Sprintf("(%s %s %s)", op, signedRef(x.args[0]), signedRef(x.args[1]))
	case OExtract:
		b = refs()
		if x.lo > 0 {
			b = fmt.Sprintf("(div %s %s)", b, pow2(x.lo))
		}
		if x.hi+1 < x.args[0].w {
			b = fmt.Sprintf("(mod %s %s)", b, pow2(x.w))
		}
	case OConcat:
		refs()
		var sb strings.Builder
		sb.WriteString("(+")
		sh := x.w
		for _, a := range x.args {
			sh -= a.w
			fmt.Fprintf(&sb, " (* %s %s)", pow2(sh), intRef(a))
		}
		sb.WriteString(" 0)")
		b = sb.String()
	case OAdd, OMul:
		args := x.args
		if x.op == OMul {
			args = []*Term{x}
		}
		var sb strings.Builder
		sb.WriteString("(+ 0")
		for _, a := range args {
			c, t := linTerm(a)
			if t == nil {
				sb.WriteString(" " + bigLit(c))
				continue
			}
			n.define(t)
			if c.IsInt64() && c.Int64() == 1 {
				sb.WriteString(" " + intRef(t))
			} else {
				fmt.Fprintf(&sb, " (* %s %s)", bigLit(c), intRef(t))
			}
		}
		sb.WriteString(")")
		lo, hi := sumRange(x)
		m := pow2(x.w)
		raw := "r" + intRef(x)
		n.s.send("(define-fun " + raw + " () Int " + sb.String() + ")")
		b = raw
		// k such that 0 <= raw - k*2^w < 2^w
		fl := func(v *big.Int) int64 { q := new(big.Int); q.Div(v, m); return q.Int64() }
		for k, top := fl(lo), fl(hi); k <= top; k++ {
			red := raw
			if k != 0 {
				red = fmt.Sprintf("(- %s %s)", raw, bigLit(new(big.Int).Mul(m, big.NewInt(k))))
			}
			if k == fl(lo) {
				b = red
			} else {
				b = fmt.Sprintf("(ite (>= %s %s) %s %s)", raw, bigLit(new(big.Int).Mul(m, big.NewInt(k))), red, b)
			}
		}
	}
	sort := "Int"
	if x.w == 0 {
		sort = "Bool"
	}
	n.s.send("(define-fun " + intRef(x) + " () " + sort + " " + b + ")")
}

// intCheck decides a query over the integers; ok is false if it does not
// apply or gives no answer.
func (s *Solver) intCheck(cs []*Term) (r Result, m *Model, ok bool) {
	n := s.ints
	if n == nil {
		n = &intSession{s: &Solver{tt: s.tt, Timeout: s.Timeout, log: s.log}, done: map[*Term]bool{}, okay: map[*Term]int8{}}
		s.ints = n
	}
	if !n.wants(cs) {
		return
	}
	if n.s.cmd == nil || n.s.defs > 50000 {
		n.done = map[*Term]bool{}
		if n.s.start() != nil {
			return
		}
	}
	for _, c := range cs {
		n.define(c)
	}
	n.s.send("(push 1)")
	for _, c := range cs {
		n.s.send("(assert " + intRef(c) + ")")
	}
	n.s.send("(check-sat)")
	ans, err := n.s.line()
	if err != nil || (ans != "sat" && ans != "unsat") {
		n.s.Close()
		return
	}
	if ans == "unsat" {
		n.s.send("(pop 1)")
		return Unsat, nil, true
	}
	ls := leaves(cs)
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, x := range ls {
		sb.WriteString(intRef(x) + " ")
	}
	sb.WriteString("))")
	n.s.send(sb.String())
	txt, err := n.s.sexpr()
	if err != nil {
		n.s.Close()
		return
	}
	n.s.send("(pop 1)")
	vals := map[*Term]uint64{}
	byRef := map[string]*Term{}
	for _, x := range ls {
		byRef[intRef(x)] = x
	}
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt))
	for i := 0; i+1 < len(f); i++ {
		x := byRef[f[i]]
		if x == nil {
			continue
		}
		switch v := f[i+1]; v {
		case "true":
			vals[x] = 1
		case "false":
			vals[x] = 0
		default:
			u, err := strconv.ParseUint(v, 10, 64)
			if err != nil {
				return
			}
			vals[x] = u
		}
	}
	m = NewModel()
	fillModel(m, ls, vals)
	for _, c := range cs {
		if m.Eval(c) != 1 {
			s.Stats.IntBad++
			return Unknown, nil, false
		}
	}
	return Sat, m, true
}
