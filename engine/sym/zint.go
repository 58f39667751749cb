package sym

import (
	"context"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"

	"verifengine/poly"
	"verifengine/smt"
	"verifengine/term"
)

// Integer reasoning about multiword arithmetic. Expressions built by the harness
// (vZ handles) are integers; every machine word is translated to a polynomial over
// the input words, carries and high halves of products. Identities are decided by
// cancelling polynomials; carries that do not cancel and range claims are decided
// by linear integer arithmetic queries over the defining constraints.

type zexpr struct {
	op   byte // w c + - * < (shift) ? (ite)
	w    []*term.Term
	a, b *zexpr
	k    *big.Int
	sh   uint
	cond *term.Term
}

type zcmp struct {
	lt   bool // a < b, else a == b
	a, b *zexpr
	neg  bool
}

type zstate struct {
	h    []*zexpr
	asm  []zcmp
	fact []zcmp // proved claims
}

func (m *Machine) zst() *zstate {
	if z, ok := m.extra["z"].(*zstate); ok {
		return z
	}
	z := &zstate{}
	m.extra["z"] = z
	return z
}

func (m *Machine) zNew(e *zexpr) Value {
	z := m.zst()
	z.h = append(z.h, e)
	return m.C.Const(uint64(len(z.h)-1), 64)
}

func (m *Machine) zArg(v Value) *zexpr {
	t := v.(*term.Term)
	if !t.IsConst() {
		fail("symbolic vZ handle")
	}
	return m.zst().h[t.K]
}

func (m *Machine) zIntrinsic(name string, args []Value) (Value, bool) {
	switch name {
	case "vZW":
		return m.zNew(&zexpr{op: 'w', w: m.SliceWords(args[0].(Slice))}), true
	case "vZB":
		return m.zNew(&zexpr{op: 'w', w: m.SliceBytes(args[0].(Slice))}), true
	case "vZC":
		return m.zNew(&zexpr{op: 'c', k: big.NewInt(m.constArg(args[0]))}), true
	case "vZHex":
		k, ok := new(big.Int).SetString(m.strArg(args[0]), 16)
		if !ok {
			fail("vZHex")
		}
		return m.zNew(&zexpr{op: 'c', k: k}), true
	case "vZAdd", "vZSub", "vZMul":
		op := map[string]byte{"vZAdd": '+', "vZSub": '-', "vZMul": '*'}[name]
		return m.zNew(&zexpr{op: op, a: m.zArg(args[0]), b: m.zArg(args[1])}), true
	case "vZShl":
		return m.zNew(&zexpr{op: '<', a: m.zArg(args[0]), sh: uint(m.constArg(args[1]))}), true
	case "vZIte":
		return m.zNew(&zexpr{op: '?', cond: args[0].(*term.Term), a: m.zArg(args[1]), b: m.zArg(args[2])}), true
	case "vZAssumeLt":
		m.zst().asm = append(m.zst().asm, zcmp{lt: true, a: m.zArg(args[0]), b: m.zArg(args[1])})
		return nil, true
	case "vZAssumeEq":
		m.zst().asm = append(m.zst().asm, zcmp{a: m.zArg(args[0]), b: m.zArg(args[1])})
		return nil, true
	case "vZAssertLt":
		m.zAssert(zcmp{lt: true, a: m.zArg(args[0]), b: m.zArg(args[1])}, nil, m.strArg(args[2]))
		return nil, true
	case "vZAssertEq":
		m.zAssert(zcmp{a: m.zArg(args[0]), b: m.zArg(args[1])}, nil, m.strArg(args[2]))
		return nil, true
	case "vZAssertMod":
		p := m.zArg(args[2])
		if p.op != 'c' {
			v, ok := m.zConst(p)
			if !ok {
				fail("vZAssertMod: modulus not constant")
			}
			p = &zexpr{op: 'c', k: v}
		}
		m.zAssert(zcmp{a: m.zArg(args[0]), b: m.zArg(args[1])}, p.k, m.strArg(args[3]))
		return nil, true
	}
	return nil, false
}

// zConst evaluates an expression without variables.
func (m *Machine) zConst(e *zexpr) (*big.Int, bool) {
	switch e.op {
	case 'c':
		return e.k, true
	case 'w':
		r := new(big.Int)
		for i := len(e.w) - 1; i >= 0; i-- {
			if !e.w[i].IsConst() {
				return nil, false
			}
			r.Lsh(r, uint(e.w[i].W))
			r.Or(r, new(big.Int).SetUint64(e.w[i].K))
		}
		return r, true
	case '<':
		a, ok := m.zConst(e.a)
		if !ok {
			return nil, false
		}
		return new(big.Int).Lsh(a, e.sh), true
	case '+', '-', '*':
		a, ok1 := m.zConst(e.a)
		b, ok2 := m.zConst(e.b)
		if !ok1 || !ok2 {
			return nil, false
		}
		switch e.op {
		case '+':
			return new(big.Int).Add(a, b), true
		case '-':
			return new(big.Int).Sub(a, b), true
		}
		return new(big.Int).Mul(a, b), true
	}
	return nil, false
}

func (m *Machine) zEval(ev *term.Evaluator, e *zexpr) *big.Int {
	switch e.op {
	case 'c':
		return e.k
	case 'w':
		r := new(big.Int)
		for i := len(e.w) - 1; i >= 0; i-- {
			r.Lsh(r, uint(e.w[i].W))
			r.Or(r, new(big.Int).SetUint64(ev.Eval(e.w[i])))
		}
		return r
	case '<':
		return new(big.Int).Lsh(m.zEval(ev, e.a), e.sh)
	case '?':
		if ev.Eval(e.cond) != 0 {
			return m.zEval(ev, e.a)
		}
		return m.zEval(ev, e.b)
	}
	a, b := m.zEval(ev, e.a), m.zEval(ev, e.b)
	switch e.op {
	case '+':
		return new(big.Int).Add(a, b)
	case '-':
		return new(big.Int).Sub(a, b)
	}
	return new(big.Int).Mul(a, b)
}

func zHolds(c zcmp, mod, a, b *big.Int) bool {
	if c.lt {
		return a.Cmp(b) < 0
	}
	if mod != nil {
		d := new(big.Int).Sub(a, b)
		return d.Mod(d, mod).Sign() == 0
	}
	return a.Cmp(b) == 0
}

func (e *zexpr) terms(out []*term.Term) []*term.Term {
	out = append(out, e.w...)
	if e.cond != nil {
		out = append(out, e.cond)
	}
	if e.a != nil {
		out = e.a.terms(out)
	}
	if e.b != nil {
		out = e.b.terms(out)
	}
	return out
}

// ---- translation ----

type intTr struct {
	m     *Machine
	c     *term.Ctx
	sp    *poly.Space
	fix   map[int32]bool
	memo  map[int32]poly.Poly
	atom  map[int32]int32
	termA []*term.Term // atom -> term
	subst map[int32]poly.Poly // monomial (single atom) -> value
	prods map[[2]int32][2]*term.Term
	nodes map[int32]*term.Term
	order []*term.Term
	opaque map[int32]bool // wide products used without their high half
	qdef   map[int32]poly.Poly // opaque atom -> product
	lemDone map[int32]bool
	coneT map[int32]bool
	sums  []sumBound
	zeroC map[int32]int // carry decision cache: 0 unknown 1 zero 2 one 3 undecided
	ups   map[int32]uint64 // bounds of top words from the assumptions
	stats struct{ lia int }
}

// upper bounds the value of a word.
func (x *intTr) upper(t *term.Term) uint64 {
	if x.ups == nil {
		x.ups = map[int32]uint64{}
		for _, a := range x.m.zst().asm {
			if !a.lt || a.a.op != 'w' || len(a.a.w) == 0 {
				continue
			}
			top := a.a.w[len(a.a.w)-1]
			b, ok := x.m.zConst(a.b)
			if !ok || b.Sign() <= 0 || top.Op != term.Var {
				continue
			}
			n := uint(0)
			for _, w := range a.a.w[:len(a.a.w)-1] {
				n += uint(w.W)
			}
			u := new(big.Int).Rsh(new(big.Int).Sub(b, big1), n)
			if o, ok := x.ups[top.ID]; u.IsUint64() && (!ok || u.Uint64() < o) {
				x.ups[top.ID] = u.Uint64()
			}
		}
	}
	u := x.c.Upper(t)
	if v, ok := x.ups[t.ID]; ok && v < u {
		return v
	}
	return u
}

var big1 = big.NewInt(1)

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big1, n) }

func newIntTr(m *Machine, fix map[int32]bool) *intTr {
	return &intTr{m: m, c: m.C, sp: poly.NewSpace(), fix: fix, memo: map[int32]poly.Poly{}, atom: map[int32]int32{}, subst: map[int32]poly.Poly{}, prods: map[[2]int32][2]*term.Term{}, nodes: map[int32]*term.Term{}, zeroC: map[int32]int{}, opaque: map[int32]bool{}, qdef: map[int32]poly.Poly{}}
}

// findOpaque marks the products whose high half is not used by the terms.
func (x *intTr) findOpaque(ts []*term.Term) {
	hi := map[[2]int32]bool{}
	var muls []*term.Term
	for _, t := range term.Collect(ts, map[int32]bool{}) {
		if t.Op == term.MulHi {
			hi[[2]int32{t.Args[0].ID, t.Args[1].ID}] = true
			hi[[2]int32{t.Args[1].ID, t.Args[0].ID}] = true
		}
		if t.Op == term.Mul && t.W == 64 {
			muls = append(muls, t)
		}
	}
	for _, t := range muls {
		if !hi[[2]int32{t.Args[0].ID, t.Args[1].ID}] {
			if zDebug {
				fmt.Println("  opaque", t.Op, t.ID, t.Args[0].Op, t.Args[1].Op, t.Args[1].K)
			}
			x.opaque[t.ID] = true
		}
	}
}

func (x *intTr) atomPoly(t *term.Term) poly.Poly {
	if v, ok := x.fix[t.ID]; ok && t.W == 1 {
		if v {
			return poly.Int(1)
		}
		return poly.Int(0)
	}
	a, ok := x.atom[t.ID]
	if !ok {
		a = x.sp.NewAtom(fmt.Sprintf("%s%d", t.Op, t.ID), t.W == 1)
		if t.Op == term.Var {
			x.sp.Names[a] = t.Name
		}
		x.atom[t.ID] = a
		x.termA = append(x.termA, t)
	}
	return x.sp.Atom(a)
}

// carry returns the polynomial of the carry bit of a+b+ci.
func (x *intTr) carry(a, b, ci *term.Term) poly.Poly {
	return x.P(x.c.AdcC(a, b, ci))
}

func (x *intTr) P(t *term.Term) poly.Poly {
	if p, ok := x.memo[t.ID]; ok {
		return p
	}
	p := x.p1(t)
	x.memo[t.ID] = p
	if _, ok := x.nodes[t.ID]; !ok {
		x.nodes[t.ID] = t
		x.order = append(x.order, t)
	}
	return p
}

func (x *intTr) top(t *term.Term, lo uint8) poly.Poly { // t >> lo
	if lo == 0 {
		return x.P(t)
	}
	if lo >= t.W {
		return poly.Int(0)
	}
	return x.atomPoly2(x.c.Extract(t, lo, t.W-lo))
}

// atomPoly2 is the polynomial of a top extract (which may have been rewritten).
func (x *intTr) atomPoly2(t *term.Term) poly.Poly {
	if t.Op == term.Extract && t.K+uint64(t.W) == uint64(t.Args[0].W) {
		if _, ok := x.nodes[t.ID]; !ok {
			x.nodes[t.ID] = t
			x.order = append(x.order, t)
			x.P(t.Args[0])
		}
		return x.atomPoly(t)
	}
	return x.P(t)
}

func (x *intTr) p1(t *term.Term) poly.Poly {
	c, sp := x.c, x.sp
	A := t.Args
	if t.W == 1 {
		if v, ok := x.fix[t.ID]; ok {
			if v {
				return poly.Int(1)
			}
			return poly.Int(0)
		}
	}
	switch t.Op {
	case term.Const:
		return poly.Const(new(big.Int).SetUint64(t.K))
	case term.Var:
		return x.atomPoly(t)
	case term.Add, term.Adc:
		ci := c.Bool(false)
		if t.Op == term.Adc {
			ci = A[2]
		}
		s := poly.Add(poly.Add(x.P(A[0]), x.P(A[1])), x.P(ci))
		return poly.AddMul(s, new(big.Int).Neg(pow2(uint(t.W))), x.carry(A[0], A[1], ci))
	case term.Sub, term.Sbb:
		bi := c.Bool(false)
		if t.Op == term.Sbb {
			bi = A[2]
		}
		s := poly.Sub(poly.Sub(x.P(A[0]), x.P(A[1])), x.P(bi))
		return poly.AddMul(s, pow2(uint(t.W)), x.P(c.SbbB(A[0], A[1], bi)))
	case term.AdcC:
		if A[2].IsZero() && A[1].IsConst() && A[1].K != 0 {
			// a+K carries iff not a < 2^w-K
			u := c.Ult(A[0], c.Const(-A[1].K, A[0].W))
			return poly.Sub(poly.Int(1), x.P(u))
		}
		x.P(A[0])
		x.P(A[1])
		x.P(A[2])
		return x.atomPoly(t)
	case term.SbbB:
		x.P(A[0])
		x.P(A[1])
		x.P(A[2])
		return x.atomPoly(t)
	case term.Ult, term.Eq, term.Slt:
		x.P(A[0])
		x.P(A[1])
		return x.atomPoly(t)
	case term.Mul:
		pr := sp.Mul(x.P(A[0]), x.P(A[1]))
		ua, ub := new(big.Int).SetUint64(c.Upper(A[0])), new(big.Int).SetUint64(c.Upper(A[1]))
		if new(big.Int).Mul(ua, ub).BitLen() <= int(t.W) {
			return pr
		}
		if x.opaque[t.ID] {
			a := x.atomPoly(t)
			x.qdef[x.atom[t.ID]] = pr
			return a
		}
		if t.W == 64 {
			return poly.AddMul(pr, new(big.Int).Neg(pow2(64)), x.P(c.MulHi(A[0], A[1])))
		}
		return x.atomPoly(t)
	case term.MulHi:
		x.P(A[0])
		x.P(A[1])
		return x.atomPoly(t)
	case term.Concat:
		return poly.AddMul(x.P(A[1]), pow2(uint(A[1].W)), x.P(A[0]))
	case term.Extract:
		lo := uint8(t.K)
		src := A[0]
		x.P(src)
		var hi poly.Poly
		if lo+t.W < src.W {
			hi = x.top(src, lo+t.W)
		} else {
			return x.atomPoly(t)
		}
		return poly.AddMul(x.top(src, lo), new(big.Int).Neg(pow2(uint(t.W))), hi)
	case term.SExt:
		s := x.P(A[0])
		sign := s
		if A[0].W > 1 {
			sign = x.P(c.Extract(A[0], A[0].W-1, 1))
		}
		k := new(big.Int).Sub(pow2(uint(t.W)), pow2(uint(A[0].W)))
		return poly.AddMul(s, k, sign)
	case term.Ite:
		cd := x.P(A[0])
		if v, ok := cd.ConstVal(); ok {
			if v.Sign() != 0 {
				return x.P(A[1])
			}
			return x.P(A[2])
		}
		b := x.P(A[2])
		return poly.Add(b, sp.Mul(cd, poly.Sub(x.P(A[1]), b)))
	case term.Not:
		return poly.Sub(poly.Const(new(big.Int).SetUint64(term.Mask(t.W))), x.P(A[0]))
	case term.And:
		if t.W == 1 {
			return sp.Mul(x.P(A[0]), x.P(A[1]))
		}
	case term.Or:
		if t.W == 1 {
			a, b := x.P(A[0]), x.P(A[1])
			return poly.Sub(poly.Add(a, b), sp.Mul(a, b))
		}
	case term.Xor:
		if t.W == 1 {
			a, b := x.P(A[0]), x.P(A[1])
			return poly.AddMul(poly.Add(a, b), big.NewInt(-2), sp.Mul(a, b))
		}
	}
	for _, a := range A {
		if a.W > 0 {
			x.P(a)
		}
	}
	return x.atomPoly(t)
}

func (x *intTr) Z(e *zexpr) poly.Poly {
	switch e.op {
	case 'c':
		return poly.Const(e.k)
	case 'w':
		r := poly.Poly{}
		sh := uint(0)
		for _, w := range e.w {
			r = poly.AddMul(r, pow2(sh), x.P(w))
			sh += uint(w.W)
		}
		return r
	case '<':
		return poly.Scale(x.Z(e.a), pow2(e.sh))
	case '?':
		cd := x.P(e.cond)
		b := x.Z(e.b)
		return poly.Add(b, x.sp.Mul(cd, poly.Sub(x.Z(e.a), b)))
	}
	a, b := x.Z(e.a), x.Z(e.b)
	switch e.op {
	case '+':
		return poly.Add(a, b)
	case '-':
		return poly.Sub(a, b)
	}
	return x.sp.Mul(a, b)
}

// upper bound of a non-negative handle from the assumptions, or nil
func (m *Machine) zUpper(e *zexpr) *big.Int {
	z := m.zst()
	same := func(f *zexpr) bool {
		if f == e {
			return true
		}
		if f.op != 'w' || e.op != 'w' || len(f.w) != len(e.w) {
			return false
		}
		for i := range f.w {
			if f.w[i] != e.w[i] {
				return false
			}
		}
		return true
	}
	for _, l := range [][]zcmp{z.asm, z.fact} {
		for _, a := range l {
			if a.lt && same(a.a) {
				if v, ok := m.zConst(a.b); ok {
					return new(big.Int).Sub(v, big1)
				}
			}
		}
	}
	switch e.op {
	case 'c':
		if e.k.Sign() >= 0 {
			return e.k
		}
	case 'w':
		n := uint(0)
		for _, w := range e.w {
			n += uint(w.W)
		}
		return new(big.Int).Sub(pow2(n), big1)
	case '+', '*':
		a, b := m.zUpper(e.a), m.zUpper(e.b)
		if a == nil || b == nil {
			return nil
		}
		if e.op == '+' {
			return new(big.Int).Add(a, b)
		}
		return new(big.Int).Mul(a, b)
	case '<':
		if a := m.zUpper(e.a); a != nil {
			return new(big.Int).Lsh(a, e.sh)
		}
	}
	return nil
}

// ---- LIA queries ----

type liaQ struct {
	x     *intTr
	sb    strings.Builder
	decl  map[string]bool
	seen  map[int32]bool
	depth map[int32]int
	real  bool
	atoms []*term.Term // terms declared
}

func (x *intTr) newQ() *liaQ {
	return &liaQ{x: x, decl: map[string]bool{}, seen: map[int32]bool{}}
}

func bigS(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

// tv declares the variable of a term with its range.
func (q *liaQ) tv(t *term.Term) string {
	if t.IsConst() {
		return new(big.Int).SetUint64(t.K).String()
	}
	if v, ok := q.x.fix[t.ID]; ok && t.W == 1 {
		if v {
			return "1"
		}
		return "0"
	}
	if t.Op == term.Not && t.W == 1 {
		return "(- 1 " + q.tv(t.Args[0]) + ")"
	}
	n := fmt.Sprintf("t%d", t.ID)
	if !q.decl[n] {
		q.decl[n] = true
		q.atoms = append(q.atoms, t)
		up := q.x.upper(t)
		if t.W == 1 {
			up = 1
		}
		if t.Op == term.MulHi {
			ua, ub := new(big.Int).SetUint64(q.x.upper(t.Args[0])), new(big.Int).SetUint64(q.x.upper(t.Args[1]))
			h := new(big.Int).Rsh(new(big.Int).Mul(ua, ub), 64)
			up = h.Uint64()
		}
		fmt.Fprintf(&q.sb, "(declare-const %s Int)(assert (<= 0 %s %d))\n", n, n, up)
		if a, ok := q.x.atom[t.ID]; ok {
			if s, ok := q.x.subst[q.x.sp.Mono([]poly.Factor{{Atom: a, Exp: 1}})]; ok {
				if v, ok := s.ConstVal(); ok {
					fmt.Fprintf(&q.sb, "(assert (= %s %s))\n", n, bigS(v))
				}
			}
		}
	}
	return n
}

// prod declares the product variable of two terms.
func (q *liaQ) prod(a, b *term.Term) string {
	if a.IsConst() || b.IsConst() {
		return "(* " + q.tv(a) + " " + q.tv(b) + ")"
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	n := fmt.Sprintf("p%d_%d", a.ID, b.ID)
	if !q.decl[n] {
		q.decl[n] = true
		ua, ub := new(big.Int).SetUint64(q.x.upper(a)), new(big.Int).SetUint64(q.x.upper(b))
		fmt.Fprintf(&q.sb, "(declare-const %s Int)(assert (<= 0 %s %s))\n", n, n, new(big.Int).Mul(ua, ub))
		q.x.prods[[2]int32{a.ID, b.ID}] = [2]*term.Term{a, b}
	}
	return n
}

func (q *liaQ) mono(i int32) string {
	fs := q.x.sp.Monos[i]
	if len(fs) == 1 && fs[0].Exp == 1 {
		return q.tv(q.x.termA[fs[0].Atom])
	}
	if len(fs) == 2 && fs[0].Exp == 1 && fs[1].Exp == 1 {
		a, b := q.x.termA[fs[0].Atom], q.x.termA[fs[1].Atom]
		if a.W > 1 && b.W > 1 {
			return q.prod(a, b)
		}
	}
	if len(fs) == 1 && fs[0].Exp == 2 {
		a := q.x.termA[fs[0].Atom]
		return q.prod(a, a)
	}
	n := fmt.Sprintf("m%d", i)
	if !q.decl[n] {
		q.decl[n] = true
		// bool factors exactly, others bounded
		var conds []string
		up := big.NewInt(1)
		var words []*term.Term
		for _, f := range fs {
			t := q.x.termA[f.Atom]
			if t.W == 1 {
				conds = append(conds, fmt.Sprintf("(= %s 1)", q.tv(t)))
			} else {
				for e := int32(0); e < f.Exp; e++ {
					words = append(words, t)
					up.Mul(up, new(big.Int).SetUint64(q.x.upper(t)))
				}
			}
		}
		val := ""
		switch len(words) {
		case 0:
			val = "1"
		case 1:
			val = q.tv(words[0])
		case 2:
			val = q.prod(words[0], words[1])
		default:
			w := n + "w"
			fmt.Fprintf(&q.sb, "(declare-const %s Int)(assert (<= 0 %s %s))\n", w, w, up)
			val = w
		}
		if len(conds) == 0 {
			fmt.Fprintf(&q.sb, "(define-fun %s () Int %s)\n", n, val)
		} else {
			fmt.Fprintf(&q.sb, "(define-fun %s () Int (ite (and true %s) %s 0))\n", n, strings.Join(conds, " "), val)
		}
	}
	return n
}

func (q *liaQ) poly(p poly.Poly) string {
	ks := p.Keys()
	if len(ks) == 0 {
		return "0"
	}
	parts := make([]string, 0, len(ks))
	for _, k := range ks {
		if k == 0 {
			parts = append(parts, bigS(p[k]))
			continue
		}
		parts = append(parts, "(* "+bigS(p[k])+" "+q.mono(k)+")")
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

// def emits the defining constraint of t and of its operands up to depth d.
func (q *liaQ) def(t *term.Term, d int) {
	if q.depth == nil {
		q.depth = map[int32]int{}
	}
	if o, ok := q.depth[t.ID]; ok && o >= d {
		return
	}
	q.depth[t.ID] = d
	if t.IsConst() {
		return
	}
	first := !q.seen[t.ID]
	q.seen[t.ID] = true
	c := q.x.c
	A := t.Args
	fixed := false
	if t.W == 1 {
		_, fixed = q.x.fix[t.ID]
	}
	if first {
		tv := q.tv(t)
		w := uint(t.W)
		switch t.Op {
		case term.Add, term.Adc, term.AdcC:
			ci := c.Bool(false)
			if t.Op != term.Add {
				ci = A[2]
			}
			cy := c.AdcC(A[0], A[1], ci)
			if t.Op == term.AdcC {
				w = uint(A[0].W)
				cy = t
			}
			s := fmt.Sprintf("(- (+ %s %s %s) (* %s %s))", q.tv(A[0]), q.tv(A[1]), q.tv(ci), pow2(w), q.tv(cy))
			if t.Op == term.AdcC {
				fmt.Fprintf(&q.sb, "(assert (<= 0 %s %s))\n", s, new(big.Int).Sub(pow2(w), big1))
			} else {
				fmt.Fprintf(&q.sb, "(assert (= %s %s))\n", tv, s)
			}
		case term.Sub, term.Sbb, term.SbbB, term.Ult:
			bi := c.Bool(false)
			if t.Op == term.Sbb || t.Op == term.SbbB {
				bi = A[2]
			}
			bo := t
			if t.Op == term.Sub || t.Op == term.Sbb {
				bo = c.SbbB(A[0], A[1], bi)
			} else {
				w = uint(A[0].W)
			}
			s := fmt.Sprintf("(+ (- %s %s %s) (* %s %s))", q.tv(A[0]), q.tv(A[1]), q.tv(bi), pow2(w), q.tv(bo))
			if bo == t {
				fmt.Fprintf(&q.sb, "(assert (<= 0 %s %s))\n", s, new(big.Int).Sub(pow2(w), big1))
			} else {
				fmt.Fprintf(&q.sb, "(assert (= %s %s))\n", tv, s)
			}
		case term.Eq:
			fmt.Fprintf(&q.sb, "(assert (= (= %s 1) (= %s %s)))\n", tv, q.tv(A[0]), q.tv(A[1]))
		case term.Mul:
			p := q.prod(A[0], A[1])
			if t.W == 64 {
				fmt.Fprintf(&q.sb, "(assert (= %s (- %s (* %s %s))))\n", tv, p, pow2(64), q.tv(c.MulHi(A[0], A[1])))
			}
		case term.MulHi:
			p := q.prod(A[0], A[1])
			fmt.Fprintf(&q.sb, "(assert (<= 0 (- %s (* %s %s)) %s))\n", p, pow2(64), tv, new(big.Int).Sub(pow2(64), big1))
		case term.Concat:
			fmt.Fprintf(&q.sb, "(assert (= %s (+ (* %s %s) %s)))\n", tv, pow2(uint(A[1].W)), q.tv(A[0]), q.tv(A[1]))
		case term.SExt:
			if A[0].W == 1 {
				fmt.Fprintf(&q.sb, "(assert (= %s (* %s %s)))\n", tv, new(big.Int).Sub(pow2(w), big1), q.tv(A[0]))
			}
		case term.Ite:
			fmt.Fprintf(&q.sb, "(assert (= %s (ite (= %s 1) %s %s)))\n", tv, q.tv(A[0]), q.tv(A[1]), q.tv(A[2]))
		case term.Not:
			if t.W > 1 {
				fmt.Fprintf(&q.sb, "(assert (= (+ %s %s) %s))\n", tv, q.tv(A[0]), new(big.Int).Sub(pow2(w), big1))
			}
		case term.And:
			if t.W == 1 {
				fmt.Fprintf(&q.sb, "(assert (= (= %s 1) (and (= %s 1) (= %s 1))))\n", tv, q.tv(A[0]), q.tv(A[1]))
			}
		case term.Or:
			if t.W == 1 {
				fmt.Fprintf(&q.sb, "(assert (= (= %s 1) (or (= %s 1) (= %s 1))))\n", tv, q.tv(A[0]), q.tv(A[1]))
			}
		case term.Xor:
			if t.W == 1 {
				fmt.Fprintf(&q.sb, "(assert (= (= %s 1) (not (= %s %s))))\n", tv, q.tv(A[0]), q.tv(A[1]))
			}
		case term.Extract:
			n, lo := uint(t.K)+uint(t.W), uint(t.K)
			h, l := "0", "0"
			if n < uint(A[0].W) {
				h = fmt.Sprintf("h%d", t.ID)
				fmt.Fprintf(&q.sb, "(declare-const %s Int)(assert (<= 0 %s %s))\n", h, h, new(big.Int).Sub(pow2(uint(A[0].W)-n), big1))
			}
			if lo > 0 {
				l = fmt.Sprintf("l%d", t.ID)
				fmt.Fprintf(&q.sb, "(declare-const %s Int)(assert (<= 0 %s %s))\n", l, l, new(big.Int).Sub(pow2(lo), big1))
			}
			fmt.Fprintf(&q.sb, "(assert (= %s (+ (* %s %s) (* %s %s) %s)))\n", q.tv(A[0]), pow2(n), h, pow2(lo), tv, l)
		}
		_ = fixed
	}
	if d <= 0 {
		return
	}
	if t.Op == term.Ite {
		if v, ok := q.x.P(A[0]).ConstVal(); ok {
			if v.Sign() != 0 {
				q.def(A[1], d-1)
			} else {
				q.def(A[2], d-1)
			}
			return
		}
	}
	for _, a := range A {
		if a.W > 0 {
			q.def(a, d-1)
		}
	}
	switch t.Op {
	case term.Add:
		q.def(c.AdcC(A[0], A[1], c.Bool(false)), d-1)
	case term.Adc:
		q.def(c.AdcC(A[0], A[1], A[2]), d-1)
	case term.Sub:
		q.def(c.SbbB(A[0], A[1], c.Bool(false)), d-1)
	case term.Sbb:
		q.def(c.SbbB(A[0], A[1], A[2]), d-1)
	case term.Mul:
		if t.W == 64 && !A[0].IsConst() {
			q.def(c.MulHi(A[0], A[1]), d-1)
		}
	case term.MulHi:
		q.def(c.Mul(A[0], A[1]), d-1)
	}
}

// fixed emits the constraints of the split conditions and of assumptions.
func (q *liaQ) context(full bool) {
	var ids []int
	for id := range q.x.fix {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	if !full {
		ids = nil
	}
	for _, id := range ids {
		if t := q.x.m.fixTerm[int32(id)]; t != nil {
			q.def(t, 40)
		}
	}
	z := q.x.m.zst()
	for _, l := range [][]zcmp{z.asm, z.fact} {
		for _, a := range l {
			if !full && (a.a.op != 'w' || !x0leaf(q.x, a.a.w)) {
				continue
			}
			pa, pb := q.x.reduce(q.x.Z(a.a)), q.x.reduce(q.x.Z(a.b))
			op := "="
			if a.lt {
				op = "<"
			}
			s := fmt.Sprintf("(assert (%s %s %s))\n", op, q.poly(pa), q.poly(pb))
			q.sb.WriteString(s)
		}
	}
	for _, t := range q.x.m.PC {
		if !full {
			break
		}
		if _, ok := q.x.fix[t.ID]; ok {
			continue
		}
		q.def(t, 40)
		fmt.Fprintf(&q.sb, "(assert (= %s 1))\n", q.tv(t))
	}
}

func x0leaf(x *intTr, ws []*term.Term) bool {
	for _, w := range ws {
		if w.Op != term.Var && w.Op != term.Const {
			return false
		}
	}
	return true
}

// links states the expanded form of composite products and of factor words.
func (q *liaQ) links() {
	for {
		n := len(q.x.prods)
		var ks [][2]int32
		for k := range q.x.prods {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i][0] < ks[j][0] || ks[i][0] == ks[j][0] && ks[i][1] < ks[j][1] })
		for _, k := range ks {
			name := fmt.Sprintf("p%d_%d", k[0], k[1])
			if !q.decl[name] || q.decl["link"+name] {
				continue
			}
			q.decl["link"+name] = true
			ab := q.x.prods[k]
			if q.x.leaf(ab[0]) && q.x.leaf(ab[1]) {
				continue
			}
			s := q.poly(q.x.reduce(q.x.sp.Mul(q.x.P(ab[0]), q.x.P(ab[1]))))
			fmt.Fprintf(&q.sb, "(assert (= %s %s))\n", name, s)
		}
		if len(q.x.prods) == n {
			break
		}
	}
}

func (x *intTr) leaf(t *term.Term) bool {
	if t.Op == term.Var {
		return true
	}
	_, ok := x.atom[t.ID]
	return ok
}

// reduce applies the substitutions found so far.
func (x *intTr) reduce(p poly.Poly) poly.Poly {
	if len(x.subst) == 0 {
		return p
	}
	for iter := 0; iter < 40; iter++ {
		ch := false
		r := poly.Poly{}
		for k, v := range p {
			fs := x.sp.Monos[k]
			hit := -1
			if len(fs) > 1 || len(fs) == 1 && fs[0].Exp > 1 {
				if s, ok := x.subst[k]; ok {
					ch = true
					for k2, v2 := range s {
						r = addTerm(r, k2, new(big.Int).Mul(v, v2))
					}
					continue
				}
			}
			for i, f := range fs {
				if _, ok := x.subst[x.sp.Mono([]poly.Factor{{Atom: f.Atom, Exp: 1}})]; ok {
					hit = i
					break
				}
			}
			if hit < 0 {
				r = addTerm(r, k, v)
				continue
			}
			ch = true
			q := poly.Const(v)
			for i, f := range fs {
				fp := x.sp.Atom(f.Atom)
				if i == hit {
					fp = x.subst[x.sp.Mono([]poly.Factor{{Atom: f.Atom, Exp: 1}})]
				}
				for e := int32(0); e < f.Exp; e++ {
					q = x.sp.Mul(q, fp)
				}
			}
			for k2, v2 := range q {
				r = addTerm(r, k2, v2)
			}
		}
		p = r
		if !ch {
			return p
		}
	}
	return p
}

func addTerm(r poly.Poly, k int32, v *big.Int) poly.Poly {
	if o, ok := r[k]; ok {
		n := new(big.Int).Add(o, v)
		if n.Sign() == 0 {
			delete(r, k)
		} else {
			r[k] = n
		}
	} else {
		r[k] = v
	}
	return r
}

var zDebug = os.Getenv("VERIF_ZDEBUG") != ""

// solve runs the query on several solvers.
func (q *liaQ) solve(timeout time.Duration, want bool) (res smt.Result, mdl map[int32]*big.Int) {
	if zDebug {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > 2*time.Second {
				f := fmt.Sprintf("/tmp/zslow/%d.smt2", q.sb.Len())
				os.MkdirAll("/tmp/zslow", 0o755)
				os.WriteFile(f, []byte(q.sb.String()+"(check-sat)\n"), 0o644)
				fmt.Printf("    slow %v %.1fs %s\n", res, d.Seconds(), f)
			}
		}()
	}
	q.x.stats.lia++
	var gv []string
	var vs []*term.Term
	if want {
		for _, t := range q.atoms {
			if t.Op == term.Var {
				gv = append(gv, fmt.Sprintf("t%d", t.ID))
				vs = append(vs, t)
			}
		}
	}
	kinds := []string{"z3", "cvc5"}
	if q.real {
		kinds = []string{"cvc5lra", "z3"}
	}
	type ans struct {
		r    smt.Result
		vals string
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan ans, len(kinds))
	s := q.sb.String()
	if zDebug {
		os.WriteFile("/tmp/zq.smt2", []byte(s+"(check-sat)\n"), 0o644)
	}
	for _, k := range kinds {
		go func(k string) {
			r, v, err := smt.RawOneShotCtx(ctx, k, s, gv, timeout)
			if err != nil && zDebug {
				fmt.Println("lia error", k, err)
			}
			ch <- ans{r, v}
		}(k)
	}
	for range kinds {
		a := <-ch
		if a.r == smt.Unknown {
			continue
		}
		if a.r == smt.Sat {
			md := map[int32]*big.Int{}
			for i, p := range smt.ParseValues(a.vals) {
				if i < len(vs) {
					if v, ok := new(big.Int).SetString(strings.Trim(p[1], "() "), 10); ok {
						md[vs[i].ID] = v
					}
				}
			}
			return a.r, md
		}
		return a.r, nil
	}
	return smt.Unknown, nil
}

// ---- deciding ----

// dropped carries: try to show that boolean atom a is constant.
func (x *intTr) decideBool(a int32) bool {
	t := x.termA[a]
	if x.zeroC[t.ID] != 0 {
		return x.zeroC[t.ID] != 3
	}
	x.zeroC[t.ID] = 3
	if t.Op == term.AdcC && x.chainZero(t) {
		x.zeroC[t.ID] = 1
		x.subst[x.sp.Mono([]poly.Factor{{Atom: a, Exp: 1}})] = poly.Int(0)
		return true
	}
	for _, d := range []int{2, 5, 12} {
		for val := 0; val < 2; val++ {
			q := x.newQ()
			q.def(t, d)
			if t.Op == term.AdcC {
				q.def(x.c.Adc(t.Args[0], t.Args[1], t.Args[2]), d)
			}
			fmt.Fprintf(&q.sb, "(assert (= %s %d))\n", q.tv(t), 1-val)
			r, _ := q.solve(10*time.Second, false)
			if r == smt.Unsat {
				x.zeroC[t.ID] = 1 + val
				x.subst[x.sp.Mono([]poly.Factor{{Atom: a, Exp: 1}})] = poly.Int(int64(val))
				return true
			}
			if r == smt.Sat && d >= 12 {
				continue
			}
		}
	}
	return false
}

// chainZero shows that the carry out of a whole addition is zero from bounds on
// the values added.
func (x *intTr) chainZero(t *term.Term) bool {
	var as, bs []*term.Term
	c := t
	for {
		as = append([]*term.Term{c.Args[0]}, as...)
		bs = append([]*term.Term{c.Args[1]}, bs...)
		ci := c.Args[2]
		if ci.Op == term.AdcC && ci.Args[0].W == c.Args[0].W {
			c = ci
			continue
		}
		break
	}
	w := uint(t.Args[0].W)
	sum := x.P(c.Args[2])
	q := x.newQ()
	for k := range as {
		for _, v := range []*term.Term{as[k], bs[k]} {
			sum = poly.AddMul(sum, pow2(w*uint(k)), x.P(v))
		}
	}
	sum = x.reduce(sum)
	for _, l := range [][]*term.Term{as, bs} {
		for _, v := range l {
			if !v.IsConst() && !x.leaf(v) {
				fmt.Fprintf(&q.sb, "(assert (= %s %s))\n", q.tv(v), q.poly(x.reduce(x.P(v))))
			}
		}
	}
	q.context(false)
	q.rows(sum)
	fmt.Fprintf(&q.sb, "(assert (>= %s %s))\n", q.poly(sum), pow2(w*uint(len(as))))
	q.relax()
	r, _ := q.solve(5*time.Second, false)
	if zDebug {
		fmt.Printf("  chain of %d words: %v (%d terms)\n", len(as), r, len(sum))
	}
	return r == smt.Unsat
}

// sumBound is a whole sum, known to be below 2^bits, whose words are factors.
type sumBound struct {
	out  []*term.Term
	bits uint
}

// sumBounds bounds the sums whose carry is fixed on this split.
func (x *intTr) sumBounds() []sumBound {
	if x.sums != nil {
		return x.sums
	}
	x.sums = []sumBound{}
	var ids []int
	for id := range x.fix {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	for _, id := range ids {
		t := x.m.fixTerm[int32(id)]
		if t == nil || t.Op != term.AdcC {
			continue
		}
		var out []*term.Term
		w := uint(t.Args[0].W)
		for c := t; ; {
			out = append([]*term.Term{x.c.Adc(c.Args[0], c.Args[1], c.Args[2])}, out...)
			ci := c.Args[2]
			if ci.Op != term.AdcC || uint(ci.Args[0].W) != w {
				break
			}
			c = ci
		}
		n := w * uint(len(out))
		sum := poly.Poly{}
		for k, o := range out {
			sum = poly.AddMul(sum, pow2(w*uint(k)), x.P(o))
		}
		sum = x.reduce(sum)
		below := func(k uint) bool {
			q := x.newQ()
			q.context(false)
			q.fixFacts()
			fmt.Fprintf(&q.sb, "(assert (>= %s %s))\n", q.poly(sum), pow2(k))
			q.relax()
			r, _ := q.solve(5*time.Second, false)
			return r == smt.Unsat
		}
		lo, hi := uint(0), n // below(hi) holds
		for hi-lo > 1 {
			k := (lo + hi) / 2
			if below(k) {
				hi = k
			} else {
				lo = k
			}
		}
		if hi < n {
			x.sums = append(x.sums, sumBound{out, hi})
			if zDebug {
				fmt.Printf("  sum of %d words below 2^%d\n", len(out), hi)
			}
		}
	}
	return x.sums
}

// sumRows states w*S <= (2^k-1)*w for the bounded sums S and the words w they are
// multiplied with.
func (q *liaQ) sumRows() {
	x := q.x
	for _, sb := range x.sumBounds() {
		isOut := map[*term.Term]bool{}
		for _, o := range sb.out {
			isOut[o] = true
		}
		part := map[int32]*term.Term{}
		for _, t := range x.order {
			if t.Op != term.Mul && t.Op != term.MulHi {
				continue
			}
			for i := 0; i < 2; i++ {
				if isOut[t.Args[i]] && !t.Args[1-i].IsConst() {
					part[t.Args[1-i].ID] = t.Args[1-i]
				}
			}
		}
		for _, id := range sortedTerms(part) {
			w := part[id]
			s := ""
			for k, o := range sb.out {
				s += fmt.Sprintf(" (* %s %s)", pow2(uint(o.W)*uint(k)), q.prod(o, w))
			}
			fmt.Fprintf(&q.sb, "(assert (<= 0 (+ 0%s) (* %s %s)))\n", s, new(big.Int).Sub(pow2(sb.bits), big1), q.tv(w))
		}
		s := ""
		for k, o := range sb.out {
			s += fmt.Sprintf(" (* %s %s)", pow2(uint(o.W)*uint(k)), q.tv(o))
		}
		fmt.Fprintf(&q.sb, "(assert (<= 0 (+ 0%s) %s))\n", s, new(big.Int).Sub(pow2(sb.bits), big1))
	}
}

func sortedTerms(m map[int32]*term.Term) []int32 {
	var ks []int32
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

// coneZero shows that a carry is zero from the ranges of all words it depends on.
func (x *intTr) coneZero(a int32) bool {
	t := x.termA[a]
	if x.coneT[t.ID] || t.Op != term.AdcC {
		return false
	}
	if x.coneT == nil {
		x.coneT = map[int32]bool{}
	}
	x.coneT[t.ID] = true
	ok := false
	for try := 0; try < 2 && !ok; try++ {
		if try == 1 && len(x.sumBounds()) == 0 {
			break
		}
		q := x.newQ()
		q.def(t, 60)
		if try == 1 {
			q.sumRows()
		}
		fmt.Fprintf(&q.sb, "(assert (= %s 1))\n", q.tv(t))
		q.relax()
		r, _ := q.solve(5*time.Second, false)
		if zDebug {
			fmt.Printf("  cone of %d (%d): %v (%d bytes)\n", t.ID, try, r, q.sb.Len())
		}
		ok = r == smt.Unsat
	}
	if !ok {
		return false
	}
	x.zeroC[t.ID] = 1
	x.subst[x.sp.Mono([]poly.Factor{{Atom: a, Exp: 1}})] = poly.Int(0)
	return true
}

// chainFact states the value of a carry or borrow out of a whole addition or
// subtraction in terms of the values added.
func (q *liaQ) chainFact(t *term.Term) poly.Poly {
	x := q.x
	if t.Op != term.AdcC && t.Op != term.SbbB && t.Op != term.Ult {
		return nil
	}
	var as, bs []*term.Term
	c := t
	ci := x.c.Bool(false)
	w := uint(t.Args[0].W)
	sub := t.Op != term.AdcC
	for {
		as = append([]*term.Term{c.Args[0]}, as...)
		bs = append([]*term.Term{c.Args[1]}, bs...)
		if c.Op == term.Ult {
			ci = x.c.Bool(false)
			break
		}
		ci = c.Args[2]
		if uint(ci.W) != 1 || len(ci.Args) == 0 {
			break
		}
		if (!sub && ci.Op == term.AdcC || sub && (ci.Op == term.SbbB || ci.Op == term.Ult)) && uint(ci.Args[0].W) == w {
			c = ci
			continue
		}
		break
	}
	n := w * uint(len(as))
	sum := x.P(ci)
	if sub {
		sum = poly.Scale(sum, big.NewInt(-1))
	}
	for k := range as {
		sum = poly.AddMul(sum, pow2(w*uint(k)), x.P(as[k]))
		f := pow2(w * uint(k))
		if sub {
			f.Neg(f)
		}
		sum = poly.AddMul(sum, f, x.P(bs[k]))
	}
	o := pow2(n)
	if !sub {
		o.Neg(o)
	}
	sum = x.reduce(poly.AddMul(sum, o, x.P(t)))
	ss := q.poly(sum)
	fmt.Fprintf(&q.sb, "(assert (<= 0 %s %s))\n", ss, new(big.Int).Sub(pow2(n), big1))
	return sum
}

// valueFacts states the carries of d, and those their values depend on, by whole
// additions and subtractions.
func (q *liaQ) valueFacts(d poly.Poly) []poly.Poly {
	x := q.x
	done := map[int32]bool{}
	work := x.boolsOf(d)
	ps := []poly.Poly{d}
	for len(work) > 0 && len(ps) < 40 {
		a := work[0]
		work = work[1:]
		if done[a] {
			continue
		}
		done[a] = true
		if p := q.chainFact(x.termA[a]); p != nil {
			ps = append(ps, p)
			work = append(work, x.boolsOf(p)...)
		}
	}
	return ps
}

func (q *liaQ) fixFacts() {
	var ids []int
	for id := range q.x.fix {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	for _, id := range ids {
		if t := q.x.m.fixTerm[int32(id)]; t != nil {
			q.chainFact(t)
		}
	}
}

// rows states, for every assumption V < K on input words and every word w that
// occurs multiplied with them, 0 <= w*V <= max(w)*(K-1).
func (q *liaQ) rows(ps ...poly.Poly) {
	x := q.x
	cand := map[int32]bool{}
	for _, p := range ps {
		for k := range p {
			fs := x.sp.Monos[k]
			if len(fs) == 2 || len(fs) == 1 && fs[0].Exp == 2 {
				for _, f := range fs {
					if !x.sp.Bools[f.Atom] {
						cand[f.Atom] = true
					}
				}
			}
		}
	}
	for _, at := range sortedAtoms(cand) {
		w := x.termA[at]
		for _, a := range x.m.zst().asm {
			if !a.lt || a.a.op != 'w' || w.W < 2 {
				continue
			}
			b, ok := x.m.zConst(a.b)
			if !ok {
				continue
			}
			pr := x.reduce(x.sp.Mul(x.sp.Atom(at), x.Z(a.a)))
			up := new(big.Int).Mul(new(big.Int).SetUint64(x.upper(w)), new(big.Int).Sub(b, big1))
			s := q.poly(pr)
			fmt.Fprintf(&q.sb, "(assert (<= 0 %s %s))\n", s, up)
			fmt.Fprintf(&q.sb, "(assert (<= %s (* %s %s)))\n", s, new(big.Int).Sub(b, big1), q.tv(w))
		}
	}
}

func sortedAtoms(m map[int32]bool) []int32 {
	var r []int32
	for a := range m {
		r = append(r, a)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// expandMod replaces opaque products by their definition modulo 2^w until few
// terms are left; it returns the result and whether anything was replaced.
func (x *intTr) expandMod(p poly.Poly, mod *big.Int) (poly.Poly, bool) {
	r := p.Mod(mod)
	if mod.BitLen() > 65 {
		return r, false
	}
	ch := false
	for n := 0; n < 3; n++ {
		best := int32(-1)
		for k := range r {
			for _, f := range x.sp.Monos[k] {
				if _, ok := x.qdef[f.Atom]; ok && f.Atom > best {
					best = f.Atom
				}
			}
		}
		if best < 0 {
			break
		}
		ch = true
		nr := poly.Poly{}
		for k, v := range r {
			q := poly.Const(v)
			for _, f := range x.sp.Monos[k] {
				fp := x.sp.Atom(f.Atom)
				if f.Atom == best {
					fp = x.reduce(x.qdef[best])
				}
				for e := int32(0); e < f.Exp; e++ {
					q = x.sp.Mul(q, fp).Mod(mod)
				}
			}
			for k2, v2 := range q {
				nr = addTerm(nr, k2, v2)
			}
		}
		r = nr.Mod(mod)
		if len(r) > 2000 {
			break
		}
	}
	return r, ch
}

// lemmas finds words whose value is forced by divisibility: the polynomial of a
// w-bit word, reduced modulo 2^w coefficientwise, lies within [0,2^w). The solver
// confirms each before it is used for elimination.
func (x *intTr) lemmas() {
	for i := 0; i < len(x.order); i++ {
		x.lemma(x.order[i])
	}
}

func (x *intTr) lemma(t *term.Term) {
	if x.lemDone == nil {
		x.lemDone = map[int32]bool{}
	}
	var w *term.Term
	switch t.Op {
	case term.AdcC:
		w = x.c.Adc(t.Args[0], t.Args[1], t.Args[2])
	case term.SbbB:
		w = x.c.Sbb(t.Args[0], t.Args[1], t.Args[2])
	case term.Add, term.Adc, term.Sub, term.Sbb:
		w = t
	}
	if w == nil || x.lemDone[w.ID] || w.IsConst() {
		return
	}
	x.lemDone[w.ID] = true
	p := x.reduce(x.P(w))
	if len(p) > 4000 {
		return
	}
	mod := pow2(uint(w.W))
	r, exp := x.expandMod(p, mod)
	if len(r) > 3 || len(r) == len(p) {
		return
	}
	up := new(big.Int)
	for k, v := range r {
		for _, f := range x.sp.Monos[k] {
			if !x.sp.Bools[f.Atom] {
				return
			}
		}
		up.Add(up, v)
	}
	if up.Cmp(mod) >= 0 {
		return
	}
	e := poly.Sub(p, r)
	if e.IsZero() {
		return
	}
	z := e
	if !exp {
		z = poly.Poly{}
		for k, v := range e {
			z[k] = new(big.Int).Quo(v, mod)
		}
	}
	// w = r + mod*Q with 0 <= w < mod and 0 <= r < mod: Q must be zero
	q := x.newQ()
	q.sb.WriteString("(declare-const Q Int)\n")
	rs := q.poly(r)
	fmt.Fprintf(&q.sb, "(assert (<= 0 (+ (* %s Q) %s) %s))\n(assert (not (= Q 0)))\n", mod, rs, new(big.Int).Sub(mod, big1))
	if res, _ := q.solve(10*time.Second, false); res != smt.Unsat {
		return
	}
	// pivot: unit coefficient, single derived atom (else a product of inputs), latest
	best, bestDeg := int32(-1), 0
	for k, v := range z {
		fs := x.sp.Monos[k]
		deg := 0
		for _, f := range fs {
			deg += int(f.Exp)
		}
		if deg == 0 || deg > 2 || new(big.Int).Abs(v).Cmp(big1) != 0 {
			continue
		}
		if deg == 2 && (x.sp.Bools[fs[0].Atom] || x.sp.Bools[fs[len(fs)-1].Atom]) {
			continue
		}
		if deg == 1 {
			if x.termA[fs[0].Atom].Op == term.Var {
				continue
			}
			if _, ok := x.qdef[fs[0].Atom]; ok {
				continue
			}
			// must not occur in other monomials
			occ := false
			for k2 := range z {
				if k2 == k {
					continue
				}
				for _, f := range x.sp.Monos[k2] {
					if f.Atom == fs[0].Atom {
						occ = true
					}
				}
			}
			if occ {
				continue
			}
		}
		if best < 0 || (deg < bestDeg) != exp && deg != bestDeg || deg == bestDeg && k > best {
			best, bestDeg = k, deg
		}
	}
	if best < 0 {
		return
	}
	v := z[best]
	rest := z.Clone()
	delete(rest, best)
	// v*best + rest = 0
	if v.Sign() > 0 {
		rest = poly.Scale(rest, big.NewInt(-1))
	}
	x.subst[best] = rest
	if zDebug {
		fmt.Printf("  lemma: %v := %d terms\n", x.sp.String(poly.Poly{best: big1}), len(rest))
	}
}

func (x *intTr) boolsOf(p poly.Poly) []int32 {
	seen := map[int32]bool{}
	for k := range p {
		for _, f := range x.sp.Monos[k] {
			if x.sp.Bools[f.Atom] {
				seen[f.Atom] = true
			}
		}
	}
	var r []int32
	for a := range seen {
		r = append(r, a)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// zeroMod tries to show p == 0 (mod m, if not nil).
func (x *intTr) zeroMod(p poly.Poly, mod *big.Int) bool {
	red := func() bool {
		p = x.reduce(p)
		if mod != nil {
			return p.Mod(mod).IsZero()
		}
		return p.IsZero()
	}
	if red() {
		return true
	}
	// carries that appear
	q := p
	if mod != nil {
		q = p.Mod(mod)
	}
	x.lemmas()
	if red() {
		return true
	}
	if q = p; mod != nil {
		q = p.Mod(mod)
	}
	if zDebug {
		fmt.Printf("  after lemmas: %d terms %s\n", len(q), x.sp.String(q))
	}
	x.sweep(q, true)
	if red() {
		return true
	}
	x.sweep(q, false)
	return red()
}

// sweep goes through the terms in order of evaluation, deciding the carries that
// occur in d and looking for forced words.
func (x *intTr) sweep(d poly.Poly, light bool) {
	x.lemmas()
	d = x.reduce(d)
	want := map[int32]bool{}
	for _, a := range x.boolsOf(d) {
		if t := x.termA[a]; t.Op == term.AdcC || t.Op == term.SbbB || t.Op == term.Ult {
			want[t.ID] = true
		}
	}
	if light {
		// carries consumed by a longer addition are live
		for _, t := range x.order {
			if t.Op == term.AdcC || t.Op == term.Adc || t.Op == term.SbbB || t.Op == term.Sbb {
				delete(want, t.Args[2].ID)
			}
		}
	}
	for i := 0; i < len(x.order); i++ {
		t := x.order[i]
		if !want[t.ID] {
			continue
		}
		if !light {
			x.decideBool(x.atom[t.ID])
		} else if t.Op == term.AdcC && x.zeroC[t.ID] == 0 {
			if x.chainZero(t) {
				x.zeroC[t.ID] = 1
				x.subst[x.sp.Mono([]poly.Factor{{Atom: x.atom[t.ID], Exp: 1}})] = poly.Int(0)
			}
		}
	}
}

type zRes struct {
	ok    bool
	cand  []map[int32]*big.Int
	note  string
	query bool
}

// check one claim under a split.
func (x *intTr) claim(cl zcmp, mod *big.Int, timeout time.Duration) (res zRes) {
	m := x.m
	defer func() {
		if zDebug {
			fmt.Printf("  claim ok=%v atoms=%d lia=%d subst=%d %s\n", res.ok, len(x.termA), x.stats.lia, len(x.subst), res.note)
		}
	}()
	pa, pb := x.Z(cl.a), x.Z(cl.b)
	d := poly.Sub(pa, pb)
	if !cl.lt {
		if x.zeroMod(d, mod) {
			return zRes{ok: true}
		}
	} else {
		// carries in the difference
		x.sweep(d, true)
	}
	d = x.reduce(d)
	if bs := x.boolsOf(d); len(bs) <= 12 {
		for _, a := range bs {
			x.coneZero(a)
		}
		d = x.reduce(d)
		if d.IsZero() && !cl.lt {
			return zRes{ok: true, query: true}
		}
	}
	if zDebug {
		fmt.Printf("  residual: %d terms: %s\n", len(d), x.sp.String(d))
	}
	short := 10 * time.Second
	for _, step := range []struct {
		depth int
		to    time.Duration
	}{{-1, short}, {0, short}, {6, short}, {60, short}, {60, timeout}} {
		depth, timeout := step.depth, step.to
		q := x.newQ()
		if depth < 0 {
			q.context(false)
			q.fixFacts()
			ps := q.valueFacts(d)
			for _, t := range x.order {
				if t.Op == term.MulHi || t.Op == term.Mul {
					for _, a := range t.Args[:2] {
						if !a.IsConst() && !x.leaf(a) {
							if n := fmt.Sprintf("val%d", a.ID); !q.decl[n] {
								q.decl[n] = true
								fmt.Fprintf(&q.sb, "(assert (= %s %s))\n", q.tv(a), q.poly(x.reduce(x.P(a))))
							}
							if b := t.Args[0].ID ^ t.Args[1].ID ^ a.ID; b != a.ID && !t.Args[0].IsConst() && !t.Args[1].IsConst() {
								q.prod(t.Args[0], t.Args[1])
							}
						}
					}
				}
			}
			q.sumRows()
			q.links()
			q.rows(ps...)
			q.goal(cl, d, mod)
			if mod == nil {
				q.relax()
			}
			r, _ := q.solve(timeout, false)
			if zDebug {
				if r == smt.Unknown {
					os.WriteFile(fmt.Sprintf("/tmp/zv%d.smt2", q.sb.Len()), []byte(q.sb.String()+"(check-sat)\n"), 0o644)
				}
				fmt.Printf("  lia values: %v (%d bytes)\n", r, q.sb.Len())
			}
			if r == smt.Unsat {
				return zRes{ok: true, query: true}
			}
			continue
		}
		q.context(depth > 0)
		q.fixFacts()
		outs := cl.a.terms(nil)
		outs = cl.b.terms(outs)
		for _, t := range outs {
			q.def(t, depth)
		}
		for _, a := range x.boolsOf(d) {
			q.def(x.termA[a], depth)
		}
		// telescoped values of the words involved
		for _, t := range outs {
			if !t.IsConst() && !x.leaf(t) {
				fmt.Fprintf(&q.sb, "(assert (= %s %s))\n", q.tv(t), q.poly(x.reduce(x.P(t))))
			}
		}
		seen := map[int32]bool{}
		factor := func(t *term.Term) {
			if seen[t.ID] || t.IsConst() || x.leaf(t) {
				return
			}
			seen[t.ID] = true
			fmt.Fprintf(&q.sb, "(assert (= %s %s))\n", q.tv(t), q.poly(x.reduce(x.P(t))))
		}
		for _, t := range x.order {
			if t.Op == term.MulHi || t.Op == term.Mul {
				factor(t.Args[0])
				factor(t.Args[1])
			}
		}
		// products of bounded values
		for _, e := range m.zst().h {
			if e.op == '*' {
				if _, ok := m.zConst(e); ok {
					continue
				}
				if u := m.zUpper(e); u != nil {
					s := q.poly(x.reduce(x.Z(e)))
					fmt.Fprintf(&q.sb, "(assert (<= 0 %s %s))\n", s, u)
				}
			}
		}
		q.links()
		q.rows(d)
		q.goal(cl, d, mod)
		r, md := q.solve(timeout, true)
		if zDebug {
			fmt.Printf("  lia depth %d: %v (%d bytes)\n", depth, r, q.sb.Len())
		}
		if r == smt.Unsat {
			return zRes{ok: true, query: true}
		}
		if md != nil {
			res.cand = append(res.cand, md)
		}
	}
	return res
}

// relax makes everything but the bits real.
func (q *liaQ) relax() {
	for _, t := range q.atoms {
		if t.W == 1 {
			n := fmt.Sprintf("t%d", t.ID)
			fmt.Fprintf(&q.sb, "(assert (or (= %s 0) (= %s 1)))\n", n, n)
		}
	}
	s := strings.ReplaceAll(strings.ReplaceAll(q.sb.String(), " Int)", " Real)"), " () Int ", " () Real ")
	ls := strings.Split(s, "\n")
	for i, l := range ls {
		if strings.HasPrefix(l, "(define-fun") && strings.HasSuffix(l, " 0))") {
			l = strings.TrimSuffix(l, " 0))") + " 0.0))"
			if strings.HasSuffix(l, " 1 0.0))") {
				l = strings.TrimSuffix(l, " 1 0.0))") + " 1.0 0.0))"
			}
			ls[i] = l
		}
	}
	s = strings.Join(ls, "\n")
	q.sb.Reset()
	q.sb.WriteString("(set-logic QF_LRA)\n" + s)
	q.real = true
}

// goal states the negation of the claim on the difference d.
func (q *liaQ) goal(cl zcmp, d poly.Poly, mod *big.Int) {
	sd := q.poly(d)
	switch {
	case cl.lt:
		fmt.Fprintf(&q.sb, "(assert (>= %s 0))\n", sd)
	case mod != nil:
		fmt.Fprintf(&q.sb, "(declare-const QQ Int)(declare-const RR Int)(assert (= %s (+ (* %s QQ) RR)))(assert (< 0 RR %s))\n", q.poly(d.Mod(mod)), mod, mod)
	default:
		fmt.Fprintf(&q.sb, "(assert (not (= %s 0)))\n", sd)
	}
}

// zAssert decides the claim; failures carry inputs that break it.
func (m *Machine) zAssert(cl zcmp, mod *big.Int, label string) {
	m.Asserts++
	if m.pos < len(m.prefix) {
		m.Asserts--
		m.zst().fact = append(m.zst().fact, factOf(cl, mod)...)
		return
	}
	t0 := time.Now()
	ts := cl.b.terms(cl.a.terms(nil))
	for _, a := range m.zst().asm {
		ts = a.b.terms(a.a.terms(ts))
	}
	// concrete search first: cheap, and the only source of counterexamples for products
	if f := m.zSearch(cl, mod, nil, 300); f != nil {
		m.zFail(f, label)
	}
	// split on the conditions of selections
	seen := map[int32]bool{}
	var conds []*term.Term
	for _, t := range term.Collect(ts, map[int32]bool{}) {
		if t.Op == term.Ite && t.W > 1 {
			cd := t.Args[0]
			for cd.Op == term.Not {
				cd = cd.Args[0]
			}
			if !seen[cd.ID] {
				seen[cd.ID] = true
				conds = append(conds, cd)
			}
		}
		if t.Op == term.SExt && t.Args[0].W == 1 {
			cd := t.Args[0]
			for cd.Op == term.Not {
				cd = cd.Args[0]
			}
			if !seen[cd.ID] {
				seen[cd.ID] = true
				conds = append(conds, cd)
			}
		}
	}
	if m.fixTerm == nil {
		m.fixTerm = map[int32]*term.Term{}
	}
	if len(conds) > 6 {
		conds = nil
	}
	base := map[int32]bool{}
	for _, p := range m.PC {
		v := true
		for p.Op == term.Not {
			p = p.Args[0]
			v = !v
		}
		if p.Op != term.And && p.Op != term.Or {
			base[p.ID] = v
			m.fixTerm[p.ID] = p
		}
	}
	all := true
	for s := 0; s < 1<<uint(len(conds)); s++ {
		fix := map[int32]bool{}
		for k, v := range base {
			fix[k] = v
		}
		skip := false
		for i, cd := range conds {
			v := s>>uint(i)&1 == 1
			if o, ok := base[cd.ID]; ok && o != v {
				skip = true
			}
			fix[cd.ID] = v
			m.fixTerm[cd.ID] = cd
		}
		if skip {
			continue
		}
		x := newIntTr(m, fix)
		if mod == nil || mod.Bit(0) == 1 {
			x.findOpaque(ts)
		}
		res := x.claim(cl, mod, m.opts.AssertTimeout)
		if res.ok {
			continue
		}
		all = false
		for _, md := range res.cand {
			if f := m.zSearch(cl, mod, md, 1); f != nil {
				m.zFail(f, label)
			}
		}
		if f := m.zSearch(cl, mod, nil, 60000); f != nil {
			m.zFail(f, label)
		}
		if f := m.zRare(x, cl, mod, ts); f != nil {
			m.zFail(f, label)
		}
		m.Unknowns = append(m.Unknowns, label)
		break
	}
	if zDebug {
		fmt.Printf("zassert %q: %v %.2fs splits=%d\n", label, all, time.Since(t0).Seconds(), 1<<uint(len(conds)))
	}
	if all {
		m.Proved++
	}
	m.zst().fact = append(m.zst().fact, factOf(cl, mod)...)
}

func factOf(cl zcmp, mod *big.Int) []zcmp {
	if mod != nil {
		return nil
	}
	return []zcmp{cl}
}

func (m *Machine) zFail(md *term.Model, label string) {
	m.Failures = append(m.Failures, &Failure{Label: label, Kind: "assert", Values: m.inputValues(md), Stack: m.stackString()})
	panic(pathEnd{"assert failed: " + label})
}

// zSearch evaluates the claim at chosen inputs (structured words, or the model
// of an LIA query) and returns inputs that satisfy the path and break the claim.
func (m *Machine) zSearch(cl zcmp, mod *big.Int, given map[int32]*big.Int, n int) *term.Model {
	z := m.zst()
	rng := rand.New(rand.NewSource(int64(len(z.h))*7919 + int64(n)))
	var consts []uint64
	seenC := map[uint64]bool{}
	addC := func(v uint64) {
		if !seenC[v] {
			seenC[v] = true
			consts = append(consts, v)
		}
	}
	ts := cl.b.terms(cl.a.terms(nil))
	for _, t := range term.Collect(ts, map[int32]bool{}) {
		if t.IsConst() && t.W == 64 {
			addC(t.K)
		}
	}
	// bounds of assumptions: candidate whole values
	var caps []*big.Int
	for _, a := range z.asm {
		if v, ok := m.zConst(a.b); ok && a.lt {
			caps = append(caps, v)
		}
	}
	deadline := time.Now().Add(20 * time.Second)
	for it := 0; it < n; it++ {
		if time.Now().After(deadline) {
			return nil
		}
		md := &term.Model{V: map[int32]uint64{}}
		mode := rng.Intn(6)
		style := map[string]int{}
		word := func(name string) uint64 {
			st, ok := style[name]
			if !ok {
				st = rng.Intn(6)
				style[name] = st
			}
			if mode == 0 {
				st = 0
			}
			switch st {
			case 0:
				return rng.Uint64()
			case 1:
				return ^uint64(0)
			case 2:
				switch rng.Intn(4) {
				case 0:
					return 0
				case 1:
					return ^uint64(0)
				case 2:
					return 1
				}
				return rng.Uint64()
			case 3:
				if len(consts) > 0 {
					return consts[rng.Intn(len(consts))] + uint64(rng.Intn(3)) - 1
				}
				return 0
			case 4:
				return uint64(rng.Intn(3)) - 1
			}
			if rng.Intn(3) == 0 {
				return rng.Uint64()
			}
			return ^uint64(0) * uint64(rng.Intn(2))
		}
		for _, in := range m.Inputs {
			if in.T == nil {
				continue
			}
			if given != nil {
				if v, ok := given[in.T.ID]; ok {
					md.V[in.T.ID] = v.Uint64()
				}
				continue
			}
			base := in.Name
			if i := strings.IndexByte(base, '#'); i > 0 {
				base = base[:i]
			}
			md.V[in.T.ID] = word(base) & term.Mask(in.T.W)
		}
		if given == nil {
			// respect assumptions: reduce whole values below their bounds
			for _, a := range z.asm {
				if !a.lt || a.a.op != 'w' {
					continue
				}
				bv, ok := m.zConst(a.b)
				if !ok || bv.Sign() <= 0 {
					continue
				}
				allVar := true
				for _, w := range a.a.w {
					if w.Op != term.Var {
						allVar = false
					}
				}
				if !allVar {
					continue
				}
				v := new(big.Int)
				sh := uint(0)
				for _, w := range a.a.w {
					v.Or(v, new(big.Int).Lsh(new(big.Int).SetUint64(md.V[w.ID]), sh))
					sh += uint(w.W)
				}
				if v.Cmp(bv) >= 0 || rng.Intn(8) == 0 {
					switch rng.Intn(5) {
					case 0:
						v.Sub(bv, big.NewInt(int64(1+rng.Intn(3))))
					case 1:
						v.SetInt64(int64(rng.Intn(3)))
					case 2:
						v.Rsh(bv, 1)
						v.Add(v, big.NewInt(int64(rng.Intn(3)-1)))
					default:
						v.Mod(v, bv)
					}
					if v.Sign() < 0 {
						v.SetInt64(0)
					}
					sh = 0
					for _, w := range a.a.w {
						md.V[w.ID] = new(big.Int).And(new(big.Int).Rsh(v, sh), new(big.Int).SetUint64(term.Mask(w.W))).Uint64()
						sh += uint(w.W)
					}
				}
			}
		}
		ev := m.C.NewEval(md)
		ok := true
		for _, t := range m.PC {
			if ev.Eval(t) == 0 {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		for _, a := range z.asm {
			if !zHolds(a, nil, m.zEval(ev, a.a), m.zEval(ev, a.b)) {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		if !zHolds(cl, mod, m.zEval(ev, cl.a), m.zEval(ev, cl.b)) {
			return md
		}
	}
	return nil
}

// zRare asks for inputs on which a carry that random operands do not produce
// occurs, and evaluates the claim there.
func (m *Machine) zRare(x *intTr, cl zcmp, mod *big.Int, ts []*term.Term) *term.Model {
	rng := rand.New(rand.NewSource(77))
	var cs []*term.Term
	for _, t := range x.order {
		if (t.Op == term.AdcC || t.Op == term.SbbB) && x.zeroC[t.ID] != 1 {
			cs = append(cs, t)
		}
	}
	hit := map[int32]bool{}
	for i := 0; i < 64; i++ {
		md := &term.Model{V: map[int32]uint64{}}
		for _, in := range m.Inputs {
			if in.T != nil {
				md.V[in.T.ID] = rng.Uint64() & term.Mask(in.T.W)
			}
		}
		ev := m.C.NewEval(md)
		for _, t := range cs {
			if ev.Eval(t) != 0 {
				hit[t.ID] = true
			}
		}
	}
	deadline := time.Now().Add(90 * time.Second)
	n := 0
	for _, t := range cs {
		if hit[t.ID] || n > 60 || time.Now().After(deadline) {
			continue
		}
		n++
		q := x.newQ()
		q.context(true)
		q.def(t, 400)
		fmt.Fprintf(&q.sb, "(assert (= %s 1))\n", q.tv(t))
		r, md := q.solve(4*time.Second, true)
		if zDebug {
			fmt.Printf("  rare carry %d: %v (%d bytes)\n", t.ID, r, q.sb.Len())
		}
		if md != nil {
			if f := m.zSearch(cl, mod, md, 1); f != nil {
				return f
			}
		}
	}
	return nil
}
