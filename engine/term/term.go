// Package term implements hash-consed bit-vector terms (width <= 64; width 0 is
// the uninterpreted token sort), with simplification, concrete evaluation and
// SMT-LIB output.
package term

import (
	"fmt"
	"math/bits"
)

type Op uint8

const (
	Const Op = iota
	Var
	Add
	Sub
	Mul
	MulHi
	Adc  // sum of a,b,cin
	AdcC // carry out of a+b+cin (width 1)
	Sbb  // a-b-bin
	SbbB // borrow out
	And
	Or
	Xor
	Not
	Shl // variable shifts
	Lshr
	Ashr
	UDiv
	URem
	SDiv
	SRem
	Extract // K = low bit
	Concat  // Args[0] high, Args[1] low
	SExt
	Eq
	Ult
	Slt
	Ite
	UF  // Name, Args ; W result (0 = token)
	Tab // K = table id ; Args[0] index
)

var opName = [...]string{"const", "var", "add", "sub", "mul", "mulhi", "adc", "adcc", "sbb", "sbbb", "and", "or", "xor", "not", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem", "extract", "concat", "sext", "eq", "ult", "slt", "ite", "uf", "tab"}

func (o Op) String() string { return opName[o] }

type Term struct {
	Op   Op
	W    uint8
	ID   int32
	K    uint64
	Name string
	Args []*Term
	// evaluation memo
	ev  uint64
	evE uint32
}

type key struct {
	op         Op
	w          uint8
	k          uint64
	name       string
	a0, a1, a2 int32
}

type Table struct {
	W    uint8
	Data []uint64
}

type Ctx struct {
	tab    map[key]*Term
	ufs    map[string]*Term
	next   int32
	epoch  uint32
	Vars   []*Term
	Tables []*Table
	// UF evaluation hook for concrete evaluation; nil => hash based
	tabIdx map[string]int
	// Coarse keeps words whole: no splitting of operations under extraction.
	Coarse bool
	known  map[int32]*Term
}

func NewCtx() *Ctx {
	return &Ctx{tab: make(map[key]*Term, 1<<12), ufs: map[string]*Term{}, tabIdx: map[string]int{}, next: 1}
}

func (c *Ctx) NumTerms() int { return int(c.next) }

func Mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (t *Term) IsConst() bool { return t.Op == Const }
func (t *Term) IsZero() bool  { return t.Op == Const && t.K == 0 }
func (t *Term) IsOne() bool   { return t.Op == Const && t.K == 1 }
func (t *Term) IsTrue() bool  { return t.Op == Const && t.W == 1 && t.K == 1 }
func (t *Term) IsFalse() bool { return t.Op == Const && t.W == 1 && t.K == 0 }

func (c *Ctx) mk(op Op, w uint8, k uint64, name string, args ...*Term) *Term {
	ky := key{op: op, w: w, k: k, name: name}
	switch len(args) {
	case 3:
		ky.a2 = args[2].ID
		fallthrough
	case 2:
		ky.a1 = args[1].ID
		fallthrough
	case 1:
		ky.a0 = args[0].ID
	case 0:
	default:
		panic("mk arity")
	}
	if t, ok := c.tab[ky]; ok {
		if c.known != nil {
			if v, ok := c.known[t.ID]; ok {
				return v
			}
		}
		return t
	}
	t := &Term{Op: op, W: w, K: k, Name: name, ID: c.next, Args: append([]*Term(nil), args...)}
	c.next++
	c.tab[ky] = t
	return t
}

func (c *Ctx) Const(v uint64, w uint8) *Term {
	return c.mk(Const, w, v&Mask(w), "")
}
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.Const(1, 1)
	}
	return c.Const(0, 1)
}

func (c *Ctx) Var(name string, w uint8) *Term {
	n := len(c.tab)
	t := c.mk(Var, w, 0, name)
	if len(c.tab) != n {
		c.Vars = append(c.Vars, t)
	}
	return t
}

func (c *Ctx) UF(name string, w uint8, args ...*Term) *Term {
	s := fmt.Sprintf("%s/%d", name, w)
	b := make([]byte, 0, len(s)+4*len(args))
	b = append(b, s...)
	b = append(b, 0)
	for _, a := range args {
		b = append(b, byte(a.ID), byte(a.ID>>8), byte(a.ID>>16), byte(a.ID>>24))
	}
	ks := string(b)
	if t, ok := c.ufs[ks]; ok {
		return t
	}
	t := &Term{Op: UF, W: w, Name: name, ID: c.next, Args: append([]*Term(nil), args...)}
	c.next++
	c.ufs[ks] = t
	return t
}

func (c *Ctx) AddTable(w uint8, data []uint64) int {
	b := make([]byte, 0, 8*len(data)+1)
	b = append(b, w)
	for _, d := range data {
		for i := 0; i < 8; i++ {
			b = append(b, byte(d>>(8*i)))
		}
	}
	if i, ok := c.tabIdx[string(b)]; ok {
		return i
	}
	c.Tables = append(c.Tables, &Table{w, append([]uint64(nil), data...)})
	c.tabIdx[string(b)] = len(c.Tables) - 1
	return len(c.Tables) - 1
}

// TabLookup returns table[idx]; idx must be in range (out of range reads yield 0).
func (c *Ctx) TabLookup(id int, idx *Term) *Term {
	tb := c.Tables[id]
	if idx.IsConst() {
		if idx.K < uint64(len(tb.Data)) {
			return c.Const(tb.Data[idx.K], tb.W)
		}
		return c.Const(0, tb.W)
	}
	// drop high zero bits of index
	for idx.Op == Concat && idx.Args[0].IsZero() && (idx.Args[1].W >= 63 || uint64(len(tb.Data)) <= uint64(1)<<idx.Args[1].W) {
		idx = idx.Args[1]
	}
	return c.mk(Tab, tb.W, uint64(id), "", idx)
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func (c *Ctx) order(a, b *Term) (*Term, *Term) {
	// constants last
	if a.IsConst() && !b.IsConst() {
		return b, a
	}
	if b.IsConst() {
		return a, b
	}
	if a.ID > b.ID {
		return b, a
	}
	return a, b
}

func chk(a, b *Term) {
	if a.W != b.W {
		panic(fmt.Sprintf("width mismatch %d %d (%v %v)", a.W, b.W, a.Op, b.Op))
	}
}

func (c *Ctx) Add(a, b *Term) *Term {
	chk(a, b)
	a, b = c.order(a, b)
	if b.IsConst() {
		if a.IsConst() {
			return c.Const(a.K+b.K, a.W)
		}
		if b.K == 0 {
			return a
		}
		if a.Op == Add && a.Args[1].IsConst() {
			return c.Add(a.Args[0], c.Const(a.Args[1].K+b.K, a.W))
		}
		if b.K == Mask(a.W) {
			if x := zextBit(a); x != nil {
				return c.SExt(c.Not(x), a.W)
			}
		}
	}
	if a.W == 1 {
		return c.Xor(a, b)
	}
	return c.mk(Add, a.W, 0, "", a, b)
}

func (c *Ctx) Sub(a, b *Term) *Term {
	chk(a, b)
	if a == b {
		return c.Const(0, a.W)
	}
	if b.IsConst() {
		if a.IsConst() {
			return c.Const(a.K-b.K, a.W)
		}
		if b.K == 0 {
			return a
		}
		if a.W < 64 || true {
			return c.Add(a, c.Const(-b.K, a.W))
		}
	}
	if a.W == 1 {
		return c.Xor(a, b)
	}
	if a.Op == Add && a.Args[1] == b {
		return a.Args[0]
	}
	if a.Op == Add && a.Args[0] == b {
		return a.Args[1]
	}
	if a.IsConst() && a.K == 0 {
		if x := zextBit(b); x != nil {
			return c.SExt(x, a.W)
		}
	}
	return c.mk(Sub, a.W, 0, "", a, b)
}

// zextBit returns x if t is a zero extended bit x.
func zextBit(t *Term) *Term {
	if t.Op == Concat && t.Args[0].IsConst() && t.Args[0].K == 0 && t.Args[1].W == 1 {
		return t.Args[1]
	}
	return nil
}

// maskBit returns x if t is all bits equal to bit x.
func maskBit(t *Term) *Term {
	if t.Op == SExt && t.Args[0].W == 1 {
		return t.Args[0]
	}
	return nil
}

// iteBits moves a bitwise operation of two values selected by the same condition inwards.
func (c *Ctx) iteBits(op Op, a, b *Term) *Term {
	if a.W == 1 || a.Op != Ite || b.Op != Ite || a.Args[0] != b.Args[0] {
		return nil
	}
	f := c.And
	switch op {
	case Or:
		f = c.Or
	case Xor:
		f = c.Xor
	}
	return c.Ite(a.Args[0], f(a.Args[1], b.Args[1]), f(a.Args[2], b.Args[2]))
}

// iteXor: x ^ (cond ? x^y : 0) is cond ? y : x
func (c *Ctx) iteXor(x, t *Term) *Term {
	if t.W == 1 || t.Op != Ite {
		return nil
	}
	u, v := t.Args[1], t.Args[2]
	has := func(u *Term) bool {
		return u.Op == Xor && (u.Args[0] == x || u.Args[1] == x)
	}
	zero := func(u *Term) bool { return u.IsConst() && u.K == 0 }
	if has(u) && (zero(v) || has(v)) || has(v) && zero(u) {
		return c.Ite(t.Args[0], c.Xor(x, u), c.Xor(x, v))
	}
	return nil
}

func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.Const(0, a.W), a) }

func (c *Ctx) Mul(a, b *Term) *Term {
	chk(a, b)
	a, b = c.order(a, b)
	if b.IsConst() {
		if a.IsConst() {
			return c.Const(a.K*b.K, a.W)
		}
		if b.K == 0 {
			return b
		}
		if b.K == 1 {
			return a
		}
		if b.K&(b.K-1) == 0 {
			return c.ShlK(a, uint(bits.TrailingZeros64(b.K)))
		}
		if b.K == Mask(a.W) {
			return c.Neg(a)
		}
	}
	return c.mk(Mul, a.W, 0, "", a, b)
}

func (c *Ctx) MulHi(a, b *Term) *Term {
	chk(a, b)
	if a.W != 64 {
		panic("mulhi width")
	}
	a, b = c.order(a, b)
	if b.IsConst() {
		if a.IsConst() {
			h, _ := bits.Mul64(a.K, b.K)
			return c.Const(h, 64)
		}
		if b.K <= 1 {
			return c.Const(0, 64)
		}
	}
	return c.mk(MulHi, 64, 0, "", a, b)
}

func (c *Ctx) Adc(a, b, cin *Term) *Term {
	chk(a, b)
	if cin.IsZero() {
		return c.Add(a, b)
	}
	a, b = c.order(a, b)
	if a.IsConst() && b.IsConst() {
		if cin.IsConst() {
			return c.Const(a.K+b.K+cin.K, a.W)
		}
		if a.IsZero() && b.IsZero() {
			return c.ZExt(cin, a.W)
		}
	}
	return c.mk(Adc, a.W, 0, "", a, b, cin)
}

func (c *Ctx) AdcC(a, b, cin *Term) *Term {
	chk(a, b)
	a, b = c.order(a, b)
	if a.IsConst() && b.IsConst() && cin.IsConst() {
		if a.W == 64 {
			_, co := bits.Add64(a.K, b.K, cin.K)
			return c.Const(co, 1)
		}
		return c.Const((a.K+b.K+cin.K)>>a.W, 1)
	}
	if b.IsZero() && cin.IsZero() {
		return c.Const(0, 1)
	}
	if c.Upper(a)+1 <= Mask(a.W) && c.Upper(a) < Mask(a.W) && b.IsZero() {
		return c.Const(0, 1)
	}
	// both have headroom
	if s, co := bits.Add64(c.Upper(a), c.Upper(b), c.Upper(cin)); co == 0 && s <= Mask(a.W) {
		return c.Const(0, 1)
	}
	return c.mk(AdcC, 1, uint64(a.W), "", a, b, cin)
}

func (c *Ctx) Sbb(a, b, bin *Term) *Term {
	chk(a, b)
	if bin.IsZero() {
		if b.IsConst() && !a.IsConst() && b.K != 0 {
			return c.mk(Sbb, a.W, 0, "", a, b, bin)
		}
		return c.Sub(a, b)
	}
	if a.IsConst() && b.IsConst() && bin.IsConst() {
		return c.Const(a.K-b.K-bin.K, a.W)
	}
	if a == b {
		return c.SExt(bin, a.W)
	}
	return c.mk(Sbb, a.W, 0, "", a, b, bin)
}

func (c *Ctx) SbbB(a, b, bin *Term) *Term {
	chk(a, b)
	if a.IsConst() && b.IsConst() && bin.IsConst() {
		if a.K < b.K || (a.K == b.K && bin.K == 1) {
			return c.Const(1, 1)
		}
		return c.Const(0, 1)
	}
	if b.IsZero() && bin.IsZero() {
		return c.Const(0, 1)
	}
	if a == b {
		return bin
	}
	if bin.IsZero() {
		return c.Ult(a, b)
	}
	return c.mk(SbbB, 1, uint64(a.W), "", a, b, bin)
}

// Upper returns a cheap unsigned upper bound.
func (c *Ctx) Upper(t *Term) uint64 {
	switch t.Op {
	case Const:
		return t.K
	case Concat:
		if t.Args[0].IsConst() && t.Args[0].K == 0 {
			return c.Upper(t.Args[1])
		}
		if t.Args[1].IsConst() {
			return c.Upper(t.Args[0])<<t.Args[1].W | t.Args[1].K
		}
	case And:
		u := Mask(t.W)
		for _, a := range t.Args {
			if a.Op == Const || a.Op == Concat {
				if x := c.Upper(a); x < u {
					u = x
				}
			}
		}
		return u
	case MulHi:
		h, _ := bits.Mul64(c.upper1(t.Args[0]), c.upper1(t.Args[1]))
		return h
	case Ite:
		x, y := c.upper1(t.Args[1]), c.upper1(t.Args[2])
		if x > y {
			return x
		}
		return y
	}
	return Mask(t.W)
}

func (c *Ctx) upper1(t *Term) uint64 {
	if t.Op == Const || t.Op == Concat {
		return c.Upper(t)
	}
	return Mask(t.W)
}

// ---- bit pieces ----

// pieces flattens a term to low-to-high list of pieces
func pieces(t *Term, out []*Term) []*Term {
	if t.Op == Concat {
		out = pieces(t.Args[1], out)
		return pieces(t.Args[0], out)
	}
	return append(out, t)
}

func (c *Ctx) fromPieces(ps []*Term) *Term {
	// merge adjacent
	var st []*Term
	for _, p := range ps {
		if len(st) > 0 {
			l := st[len(st)-1]
			if m := c.mergePiece(l, p); m != nil {
				st[len(st)-1] = m
				continue
			}
		}
		st = append(st, p)
	}
	// right-nested: Concat(high..., low): build from low: Concat(p_n, Concat(p_{n-1}, ... p0))
	r := st[0]
	for _, p := range st[1:] {
		r = c.mk(Concat, r.W+p.W, 0, "", p, r)
	}
	return r
}

func (c *Ctx) mergePiece(lo, hi *Term) *Term {
	if lo.IsConst() && hi.IsConst() {
		return c.Const(lo.K|hi.K<<lo.W, lo.W+hi.W)
	}
	if lo.Op == Extract && hi.Op == Extract && lo.Args[0] == hi.Args[0] && lo.K+uint64(lo.W) == hi.K {
		return c.Extract(lo.Args[0], uint8(lo.K), lo.W+hi.W)
	}
	if lo.Op == Ite && hi.Op == Ite && lo.Args[0] == hi.Args[0] {
		return c.Ite(lo.Args[0], c.Concat(hi.Args[1], lo.Args[1]), c.Concat(hi.Args[2], lo.Args[2]))
	}
	return nil
}

func (c *Ctx) Concat(hi, lo *Term) *Term {
	if hi.W+lo.W > 64 {
		panic("concat too wide")
	}
	if hi.Op != Concat && lo.Op != Concat {
		if m := c.mergePiece(lo, hi); m != nil {
			return m
		}
		return c.mk(Concat, hi.W+lo.W, 0, "", hi, lo)
	}
	ps := pieces(lo, nil)
	ps = pieces(hi, ps)
	return c.fromPieces(ps)
}

func (c *Ctx) ZExt(t *Term, w uint8) *Term {
	if t.W == w {
		return t
	}
	if t.W > w {
		return c.Extract(t, 0, w)
	}
	return c.Concat(c.Const(0, w-t.W), t)
}

func (c *Ctx) SExt(t *Term, w uint8) *Term {
	if t.W == w {
		return t
	}
	if t.W > w {
		return c.Extract(t, 0, w)
	}
	if t.IsConst() {
		return c.Const(uint64(sext(t.K, t.W)), w)
	}
	if t.Op == Concat && t.Args[0].IsConst() && (t.Args[0].K>>(t.Args[0].W-1)) == 0 {
		return c.ZExt(t, w)
	}
	return c.mk(SExt, w, 0, "", t)
}

func (c *Ctx) Extract(t *Term, lo, w uint8) *Term {
	if lo == 0 && w == t.W {
		return t
	}
	if lo+w > t.W {
		panic("extract range")
	}
	switch t.Op {
	case Const:
		return c.Const(t.K>>lo, w)
	case Extract:
		return c.Extract(t.Args[0], uint8(t.K)+lo, w)
	case Concat:
		h, l := t.Args[0], t.Args[1]
		if lo >= l.W {
			return c.Extract(h, lo-l.W, w)
		}
		if lo+w <= l.W {
			return c.Extract(l, lo, w)
		}
		return c.Concat(c.Extract(h, 0, lo+w-l.W), c.Extract(l, lo, l.W-lo))
	}
	if c.Coarse && t.Op != SExt {
		return c.mk(Extract, w, uint64(lo), "", t)
	}
	switch t.Op {
	case And:
		return c.And(c.Extract(t.Args[0], lo, w), c.Extract(t.Args[1], lo, w))
	case Or:
		return c.Or(c.Extract(t.Args[0], lo, w), c.Extract(t.Args[1], lo, w))
	case Xor:
		return c.Xor(c.Extract(t.Args[0], lo, w), c.Extract(t.Args[1], lo, w))
	case Not:
		return c.Not(c.Extract(t.Args[0], lo, w))
	case Ite:
		return c.Ite(t.Args[0], c.Extract(t.Args[1], lo, w), c.Extract(t.Args[2], lo, w))
	case SExt:
		x := t.Args[0]
		if lo+w <= x.W {
			return c.Extract(x, lo, w)
		}
		if lo == 0 {
			return c.SExt(x, w)
		}
		if lo >= x.W-1 {
			return c.SExt(c.Extract(x, x.W-1, 1), w)
		}
	case Tab:
		tb := c.Tables[t.K]
		d := make([]uint64, len(tb.Data))
		for i := range d {
			d[i] = (tb.Data[i] >> lo) & Mask(w)
		}
		return c.TabLookup(c.AddTable(w, d), t.Args[0])
	case Add, Sub, Mul:
		if lo == 0 && w <= 32 {
			x, y := c.Extract(t.Args[0], 0, w), c.Extract(t.Args[1], 0, w)
			switch t.Op {
			case Add:
				return c.Add(x, y)
			case Sub:
				return c.Sub(x, y)
			default:
				return c.Mul(x, y)
			}
		}
	}
	return c.mk(Extract, w, uint64(lo), "", t)
}

func (c *Ctx) ShlK(t *Term, n uint) *Term {
	if n >= uint(t.W) {
		return c.Const(0, t.W)
	}
	if n == 0 {
		return t
	}
	return c.Concat(c.Extract(t, 0, t.W-uint8(n)), c.Const(0, uint8(n)))
}
func (c *Ctx) LshrK(t *Term, n uint) *Term {
	if n >= uint(t.W) {
		return c.Const(0, t.W)
	}
	if n == 0 {
		return t
	}
	return c.ZExt(c.Extract(t, uint8(n), t.W-uint8(n)), t.W)
}
func (c *Ctx) AshrK(t *Term, n uint) *Term {
	if n >= uint(t.W) {
		n = uint(t.W) - 1
	}
	if n == 0 {
		return t
	}
	return c.SExt(c.Extract(t, uint8(n), t.W-uint8(n)), t.W)
}
func (c *Ctx) Rotl(t *Term, n uint) *Term {
	n %= uint(t.W)
	if n == 0 {
		return t
	}
	k := t.W - uint8(n)
	return c.Concat(c.Extract(t, 0, k), c.Extract(t, k, uint8(n)))
}

// shifts: amount as a term of the same width or other width (>= W semantic: zero)
func (c *Ctx) Shl(t, n *Term) *Term {
	if n.IsConst() {
		if n.K > 64 {
			return c.Const(0, t.W)
		}
		return c.ShlK(t, uint(n.K))
	}
	return c.mk(Shl, t.W, 0, "", t, c.shAmt(n, t.W))
}
func (c *Ctx) Lshr(t, n *Term) *Term {
	if n.IsConst() {
		if n.K > 64 {
			return c.Const(0, t.W)
		}
		return c.LshrK(t, uint(n.K))
	}
	return c.mk(Lshr, t.W, 0, "", t, c.shAmt(n, t.W))
}
func (c *Ctx) Ashr(t, n *Term) *Term {
	if n.IsConst() {
		k := n.K
		if k > 64 {
			k = 64
		}
		return c.AshrK(t, uint(k))
	}
	return c.mk(Ashr, t.W, 0, "", t, c.shAmt(n, t.W))
}

// shAmt makes the amount have width w, saturating
func (c *Ctx) shAmt(n *Term, w uint8) *Term {
	if n.W == w {
		return n
	}
	if n.W < w {
		return c.ZExt(n, w)
	}
	big := c.Ult(c.Const(uint64(w), n.W), n)
	return c.Ite(big, c.Const(uint64(w), w), c.Extract(n, 0, w))
}

// split a and b to aligned pieces
func (c *Ctx) align(a, b *Term) (pa, pb []*Term) {
	xa, xb := pieces(a, nil), pieces(b, nil)
	i, j := 0, 0
	for i < len(xa) && j < len(xb) {
		x, y := xa[i], xb[j]
		switch {
		case x.W == y.W:
			pa, pb = append(pa, x), append(pb, y)
			i++
			j++
		case x.W < y.W:
			pa, pb = append(pa, x), append(pb, c.Extract(y, 0, x.W))
			xb[j] = c.Extract(y, x.W, y.W-x.W)
			i++
		default:
			pa, pb = append(pa, c.Extract(x, 0, y.W)), append(pb, y)
			xa[i] = c.Extract(x, y.W, x.W-y.W)
			j++
		}
	}
	return
}

// hasConstPiece: contains constant piece
func hasConstPiece(t *Term) bool {
	for t.Op == Concat {
		if t.Args[0].IsConst() {
			return true
		}
		t = t.Args[1]
	}
	return t.IsConst()
}

func isNotOf(a, b *Term) bool {
	return (a.Op == Not && a.Args[0] == b) || (b.Op == Not && b.Args[0] == a)
}

// constant as alternating runs of 0/1 pieces
func (c *Ctx) constRuns(k uint64, w uint8) []*Term {
	var r []*Term
	i := uint8(0)
	for i < w {
		b := (k >> i) & 1
		j := i
		for j < w && (k>>j)&1 == b {
			j++
		}
		v := uint64(0)
		if b == 1 {
			v = Mask(j - i)
		}
		r = append(r, c.Const(v, j-i))
		i = j
	}
	return r
}

func (c *Ctx) bitwisePieces(op Op, a, b *Term) *Term {
	// called when at least one side has constant pieces
	var xa, xb []*Term
	exp := func(t *Term) []*Term {
		var o []*Term
		for _, p := range pieces(t, nil) {
			if p.IsConst() {
				o = append(o, c.constRuns(p.K, p.W)...)
			} else {
				o = append(o, p)
			}
		}
		return o
	}
	xa, xb = exp(a), exp(b)
	if len(xa) == 1 && len(xb) == 1 {
		return nil
	}
	i, j := 0, 0
	var out []*Term
	for i < len(xa) && j < len(xb) {
		x, y := xa[i], xb[j]
		if x.W < y.W {
			xb[j] = c.Extract(y, x.W, y.W-x.W)
			y = c.Extract(y, 0, x.W)
			i++
		} else if x.W > y.W {
			xa[i] = c.Extract(x, y.W, x.W-y.W)
			x = c.Extract(x, 0, y.W)
			j++
		} else {
			i++
			j++
		}
		switch op {
		case And:
			out = append(out, c.And(x, y))
		case Or:
			out = append(out, c.Or(x, y))
		case Xor:
			out = append(out, c.Xor(x, y))
		}
	}
	var fl []*Term
	for _, o := range out {
		fl = pieces(o, fl)
	}
	return c.fromPieces(fl)
}

func (c *Ctx) And(a, b *Term) *Term {
	chk(a, b)
	a, b = c.order(a, b)
	if a == b {
		return a
	}
	if b.IsConst() {
		if a.IsConst() {
			return c.Const(a.K&b.K, a.W)
		}
		if b.K == 0 {
			return b
		}
		if b.K == Mask(a.W) {
			return a
		}
		return c.bitwisePieces(And, a, b)
	}
	if isNotOf(a, b) {
		return c.Const(0, a.W)
	}
	if a.W > 1 {
		if x := maskBit(a); x != nil {
			return c.Ite(x, b, c.Const(0, a.W))
		}
		if x := maskBit(b); x != nil {
			return c.Ite(x, a, c.Const(0, a.W))
		}
		if r := c.iteBits(And, a, b); r != nil {
			return r
		}
	}
	if hasConstPiece(a) || hasConstPiece(b) {
		if r := c.bitwisePieces(And, a, b); r != nil {
			return r
		}
	}
	return c.mk(And, a.W, 0, "", a, b)
}

func (c *Ctx) Or(a, b *Term) *Term {
	chk(a, b)
	a, b = c.order(a, b)
	if a == b {
		return a
	}
	if b.IsConst() {
		if a.IsConst() {
			return c.Const(a.K|b.K, a.W)
		}
		if b.K == 0 {
			return a
		}
		if b.K == Mask(a.W) {
			return b
		}
		return c.bitwisePieces(Or, a, b)
	}
	if r := c.iteBits(Or, a, b); r != nil {
		return r
	}
	if isNotOf(a, b) {
		return c.Const(Mask(a.W), a.W)
	}
	if hasConstPiece(a) || hasConstPiece(b) {
		if r := c.bitwisePieces(Or, a, b); r != nil {
			return r
		}
	}
	return c.mk(Or, a.W, 0, "", a, b)
}

func (c *Ctx) Xor(a, b *Term) *Term {
	chk(a, b)
	a, b = c.order(a, b)
	if a == b {
		return c.Const(0, a.W)
	}
	if b.IsConst() {
		if a.IsConst() {
			return c.Const(a.K^b.K, a.W)
		}
		if b.K == 0 {
			return a
		}
		if b.K == Mask(a.W) {
			return c.Not(a)
		}
		if c.Coarse {
			return c.mk(Xor, a.W, 0, "", a, b)
		}
		if r := c.bitwisePieces(Xor, a, b); r != nil {
			return r
		}
	}
	if r := c.iteXor(a, b); r != nil {
		return r
	}
	if r := c.iteXor(b, a); r != nil {
		return r
	}
	if r := c.iteBits(Xor, a, b); r != nil {
		return r
	}
	if isNotOf(a, b) {
		return c.Const(Mask(a.W), a.W)
	}
	if a.Op == Not && b.Op == Not {
		return c.Xor(a.Args[0], b.Args[0])
	}
	if a.Op == Xor && (a.Args[0] == b || a.Args[1] == b) {
		if a.Args[0] == b {
			return a.Args[1]
		}
		return a.Args[0]
	}
	if b.Op == Xor && (b.Args[0] == a || b.Args[1] == a) {
		if b.Args[0] == a {
			return b.Args[1]
		}
		return b.Args[0]
	}
	if hasConstPiece(a) || hasConstPiece(b) {
		if r := c.bitwisePieces(Xor, a, b); r != nil {
			return r
		}
	}
	return c.mk(Xor, a.W, 0, "", a, b)
}

func (c *Ctx) Not(a *Term) *Term {
	switch a.Op {
	case Const:
		return c.Const(^a.K, a.W)
	case Not:
		return a.Args[0]
	case SExt:
		if x := maskBit(a); x != nil {
			return c.SExt(c.Not(x), a.W)
		}
	case Concat:
		if hasConstPiece(a) {
			ps := pieces(a, nil)
			for i := range ps {
				ps[i] = c.Not(ps[i])
			}
			return c.fromPieces(ps)
		}
	}
	return c.mk(Not, a.W, 0, "", a)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	chk(a, b)
	if a == b {
		return c.Bool(true)
	}
	a, b = c.order(a, b)
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.K == b.K)
	}
	if a.W == 1 {
		if b.IsConst() {
			if b.K == 1 {
				return a
			}
			return c.Not(a)
		}
		return c.Not(c.Xor(a, b))
	}
	if a.W > 0 && (a.Op == Concat || b.Op == Concat) && (hasConstPiece(a) || b.IsConst()) {
		// piecewise
		pa, pb := c.align(a, b)
		if len(pa) > 1 {
			r := c.Bool(true)
			for i := range pa {
				r = c.And(r, c.Eq(pa[i], pb[i]))
				if r.IsFalse() {
					return r
				}
			}
			return r
		}
	}
	if b.IsConst() {
		switch a.Op {
		case Xor:
			if a.Args[1].IsConst() {
				return c.Eq(a.Args[0], c.Const(b.K^a.Args[1].K, a.W))
			}
			if b.K == 0 {
				return c.Eq(a.Args[0], a.Args[1])
			}
		case Add:
			if a.Args[1].IsConst() {
				return c.Eq(a.Args[0], c.Const(b.K-a.Args[1].K, a.W))
			}
		case Not:
			return c.Eq(a.Args[0], c.Const(^b.K, a.W))
		case Ite:
			if a.Args[1].IsConst() && a.Args[2].IsConst() {
				t, f := a.Args[1].K == b.K, a.Args[2].K == b.K
				switch {
				case t && f:
					return c.Bool(true)
				case t:
					return a.Args[0]
				case f:
					return c.Not(a.Args[0])
				default:
					return c.Bool(false)
				}
			}
		case SExt:
			x := a.Args[0]
			if uint64(sext(b.K&Mask(x.W), x.W))&Mask(a.W) == b.K {
				return c.Eq(x, c.Const(b.K, x.W))
			}
			return c.Bool(false)
		}
		if b.K == 0 && a.Op == Or {
			return c.And(c.Eq(a.Args[0], b), c.Eq(a.Args[1], b))
		}
		if b.K > c.Upper(a) {
			return c.Bool(false)
		}
	}
	return c.mk(Eq, 1, 0, "", a, b)
}

func (c *Ctx) Ult(a, b *Term) *Term {
	chk(a, b)
	if a == b {
		return c.Bool(false)
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.K < b.K)
	}
	if b.IsZero() {
		return c.Bool(false)
	}
	if b.IsConst() && c.Upper(a) < b.K {
		return c.Bool(true)
	}
	if a.IsConst() && c.Upper(b) <= a.K {
		return c.Bool(false)
	}
	if b.IsOne() {
		return c.Eq(a, c.Const(0, a.W))
	}
	if a.IsZero() {
		return c.Not(c.Eq(b, a))
	}
	if a.W == 1 {
		return c.And(c.Not(a), b)
	}
	// strip common zero high parts
	if a.Op == Concat && a.Args[0].IsZero() {
		k := a.Args[1].W
		if b.IsConst() && b.K <= Mask(k) {
			return c.Ult(a.Args[1], c.Const(b.K, k))
		}
		if b.Op == Concat && b.Args[0].IsZero() && b.Args[1].W == k {
			return c.Ult(a.Args[1], b.Args[1])
		}
	}
	if b.Op == Concat && b.Args[0].IsZero() && a.IsConst() && a.K <= Mask(b.Args[1].W) {
		return c.Ult(c.Const(a.K, b.Args[1].W), b.Args[1])
	}
	return c.mk(Ult, 1, 0, "", a, b)
}
func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *Ctx) Slt(a, b *Term) *Term {
	chk(a, b)
	if a == b {
		return c.Bool(false)
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(sext(a.K, a.W) < sext(b.K, b.W))
	}
	top := func(t *Term) bool { // known non-negative
		return c.Upper(t) <= Mask(t.W)>>1
	}
	if top(a) && top(b) {
		return c.Ult(a, b)
	}
	// sign extended narrow vs const
	if b.IsZero() {
		return c.Extract(a, a.W-1, 1)
	}
	return c.mk(Slt, 1, 0, "", a, b)
}
func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	chk(a, b)
	if cond.IsConst() {
		if cond.K == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if cond.Op == Not {
		return c.Ite(cond.Args[0], b, a)
	}
	if a.W == 1 {
		if a.IsTrue() && b.IsFalse() {
			return cond
		}
		if a.IsFalse() && b.IsTrue() {
			return c.Not(cond)
		}
		if a.IsTrue() {
			return c.Or(cond, b)
		}
		if a.IsFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.IsFalse() {
			return c.And(cond, a)
		}
	}
	return c.mk(Ite, a.W, 0, "", cond, a, b)
}

func (c *Ctx) UDiv(a, b *Term) *Term {
	chk(a, b)
	if b.IsConst() && b.K != 0 {
		if a.IsConst() {
			return c.Const(a.K/b.K, a.W)
		}
		if b.K&(b.K-1) == 0 {
			return c.LshrK(a, uint(bits.TrailingZeros64(b.K)))
		}
	}
	return c.mk(UDiv, a.W, 0, "", a, b)
}
func (c *Ctx) URem(a, b *Term) *Term {
	chk(a, b)
	if b.IsConst() && b.K != 0 {
		if a.IsConst() {
			return c.Const(a.K%b.K, a.W)
		}
		if b.K&(b.K-1) == 0 {
			return c.And(a, c.Const(b.K-1, a.W))
		}
	}
	return c.mk(URem, a.W, 0, "", a, b)
}
func (c *Ctx) SDiv(a, b *Term) *Term {
	chk(a, b)
	if a.IsConst() && b.IsConst() && b.K != 0 {
		return c.Const(uint64(sext(a.K, a.W)/sext(b.K, b.W)), a.W)
	}
	if c.Upper(a) <= Mask(a.W)>>1 && c.Upper(b) <= Mask(a.W)>>1 {
		return c.UDiv(a, b)
	}
	return c.mk(SDiv, a.W, 0, "", a, b)
}
func (c *Ctx) SRem(a, b *Term) *Term {
	chk(a, b)
	if a.IsConst() && b.IsConst() && b.K != 0 {
		return c.Const(uint64(sext(a.K, a.W)%sext(b.K, b.W)), a.W)
	}
	if c.Upper(a) <= Mask(a.W)>>1 && c.Upper(b) <= Mask(a.W)>>1 {
		return c.URem(a, b)
	}
	return c.mk(SRem, a.W, 0, "", a, b)
}

// ---- evaluation ----

// Model assigns values to variables and (optionally) UF applications by term ID.
type Model struct {
	V map[int32]uint64
	// Def computes default for unassigned variable
	Def func(t *Term) uint64
	// Salt for hash-based UF interpretation
	Salt uint64
}

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

func hashName(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

type Evaluator struct {
	c *Ctx
	m *Model
	e uint32
}

func (c *Ctx) NewEval(m *Model) *Evaluator {
	c.epoch++
	return &Evaluator{c, m, c.epoch}
}

// Eval evaluates t. Only one evaluator may be active at a time per Ctx.
func (e *Evaluator) Eval(t *Term) uint64 {
	if t.evE == e.e {
		return t.ev
	}
	// iterative post-order to avoid deep recursion
	stack := []*Term{t}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		if x.evE == e.e {
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		for _, a := range x.Args {
			if a.evE != e.e {
				stack = append(stack, a)
				ready = false
			}
		}
		if !ready {
			continue
		}
		stack = stack[:len(stack)-1]
		x.ev = e.comp(x)
		x.evE = e.e
	}
	return t.ev
}

func (e *Evaluator) comp(t *Term) uint64 {
	a := func(i int) uint64 { return t.Args[i].ev }
	m := Mask(t.W)
	switch t.Op {
	case Const:
		return t.K
	case Var:
		if v, ok := e.m.V[t.ID]; ok {
			return v & m
		}
		if e.m.Def != nil {
			return e.m.Def(t) & m
		}
		return 0
	case UF:
		if v, ok := e.m.V[t.ID]; ok {
			return v & m
		}
		h := mix(hashName(t.Name), e.m.Salt)
		for i := range t.Args {
			h = mix(h, a(i))
		}
		if t.W == 0 {
			return h
		}
		return h & m
	}
	r := EvalOp(e.c, t, a)
	return r & m
}

// EvalOp computes the value of a (non-leaf) operator given argument values.
func EvalOp(c *Ctx, t *Term, a func(int) uint64) uint64 {
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.Op {
	case Add:
		return a(0) + a(1)
	case Sub:
		return a(0) - a(1)
	case Mul:
		return a(0) * a(1)
	case MulHi:
		h, _ := bits.Mul64(a(0), a(1))
		return h
	case Adc:
		return a(0) + a(1) + a(2)
	case AdcC:
		if t.K == 64 {
			_, co := bits.Add64(a(0), a(1), a(2))
			return co
		}
		return (a(0) + a(1) + a(2)) >> t.K
	case Sbb:
		return a(0) - a(1) - a(2)
	case SbbB:
		_, bo := bits.Sub64(a(0), a(1), a(2))
		return bo
	case And:
		return a(0) & a(1)
	case Or:
		return a(0) | a(1)
	case Xor:
		return a(0) ^ a(1)
	case Not:
		return ^a(0)
	case Shl:
		if a(1) >= 64 {
			return 0
		}
		return a(0) << a(1)
	case Lshr:
		if a(1) >= 64 {
			return 0
		}
		return a(0) >> a(1)
	case Ashr:
		n := a(1)
		if n >= 64 {
			n = 63
		}
		return uint64(sext(a(0), t.W) >> n)
	case UDiv:
		if a(1) == 0 {
			return Mask(t.W)
		}
		return a(0) / a(1)
	case URem:
		if a(1) == 0 {
			return a(0)
		}
		return a(0) % a(1)
	case SDiv:
		x, y := sext(a(0), t.W), sext(a(1), t.W)
		if y == 0 {
			if x >= 0 {
				return ^uint64(0)
			}
			return 1
		}
		if y == -1 {
			return uint64(-x)
		}
		return uint64(x / y)
	case SRem:
		x, y := sext(a(0), t.W), sext(a(1), t.W)
		if y == 0 {
			return uint64(x)
		}
		if y == -1 {
			return 0
		}
		return uint64(x % y)
	case Extract:
		return a(0) >> t.K
	case Concat:
		return a(0)<<t.Args[1].W | a(1)
	case SExt:
		return uint64(sext(a(0), t.Args[0].W))
	case Eq:
		return b2u(a(0) == a(1))
	case Ult:
		return b2u(a(0) < a(1))
	case Slt:
		w := t.Args[0].W
		return b2u(sext(a(0), w) < sext(a(1), w))
	case Ite:
		if a(0) == 1 {
			return a(1)
		}
		return a(2)
	case Tab:
		d := c.Tables[t.K].Data
		if i := a(0); i < uint64(len(d)) {
			return d[i]
		}
		return 0
	}
	panic("evalop " + t.Op.String())
}

// Collect returns all subterms in topological order (args first).
func Collect(roots []*Term, seen map[int32]bool) []*Term {
	var out []*Term
	var stack []*Term
	for _, r := range roots {
		if seen[r.ID] {
			continue
		}
		stack = append(stack[:0], r)
		for len(stack) > 0 {
			x := stack[len(stack)-1]
			if seen[x.ID] {
				stack = stack[:len(stack)-1]
				continue
			}
			ready := true
			for _, a := range x.Args {
				if !seen[a.ID] {
					stack = append(stack, a)
					ready = false
				}
			}
			if !ready {
				continue
			}
			stack = stack[:len(stack)-1]
			seen[x.ID] = true
			out = append(out, x)
		}
	}
	return out
}

func (t *Term) String() string {
	return t.str(4)
}
func (t *Term) str(d int) string {
	switch t.Op {
	case Const:
		return fmt.Sprintf("%#x:%d", t.K, t.W)
	case Var:
		return t.Name
	}
	if d == 0 {
		return fmt.Sprintf("#%d", t.ID)
	}
	s := "(" + t.Op.String()
	if t.Op == UF {
		s += ":" + t.Name
	}
	if t.Op == Extract {
		s += fmt.Sprintf("[%d+%d]", t.K, t.W)
	}
	for i, a := range t.Args {
		if i > 6 {
			s += " ..."
			break
		}
		s += " " + a.str(d-1)
	}
	return s + ")"
}

// Rebuild applies the operation of t to other arguments.
func (c *Ctx) Rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case Const, Var:
		return t
	case Add:
		return c.Add(a[0], a[1])
	case Sub:
		return c.Sub(a[0], a[1])
	case Mul:
		return c.Mul(a[0], a[1])
	case MulHi:
		return c.MulHi(a[0], a[1])
	case Adc:
		return c.Adc(a[0], a[1], a[2])
	case AdcC:
		return c.AdcC(a[0], a[1], a[2])
	case Sbb:
		return c.Sbb(a[0], a[1], a[2])
	case SbbB:
		return c.SbbB(a[0], a[1], a[2])
	case And:
		return c.And(a[0], a[1])
	case Or:
		return c.Or(a[0], a[1])
	case Xor:
		return c.Xor(a[0], a[1])
	case Not:
		return c.Not(a[0])
	case Shl:
		return c.Shl(a[0], a[1])
	case Lshr:
		return c.Lshr(a[0], a[1])
	case Ashr:
		return c.Ashr(a[0], a[1])
	case UDiv:
		return c.UDiv(a[0], a[1])
	case URem:
		return c.URem(a[0], a[1])
	case SDiv:
		return c.SDiv(a[0], a[1])
	case SRem:
		return c.SRem(a[0], a[1])
	case Extract:
		return c.Extract(a[0], uint8(t.K), t.W)
	case Concat:
		return c.Concat(a[0], a[1])
	case SExt:
		return c.SExt(a[0], t.W)
	case Eq:
		return c.Eq(a[0], a[1])
	case Ult:
		return c.Ult(a[0], a[1])
	case Slt:
		return c.Slt(a[0], a[1])
	case Ite:
		return c.Ite(a[0], a[1], a[2])
	case UF:
		return c.UF(t.Name, t.W, a...)
	case Tab:
		return c.TabLookup(int(t.K), a[0])
	}
	panic("rebuild")
}

// Last is the value t had in the most recent evaluation that reached it.
func (t *Term) Last() uint64 {
	if t.Op == Const {
		return t.K
	}
	return t.ev
}

// Know records that t always has value v; later constructions of t give the constant.
func (c *Ctx) Know(t *Term, v uint64) {
	if c.known == nil {
		c.known = map[int32]*Term{}
	}
	c.known[t.ID] = c.Const(v, t.W)
}
