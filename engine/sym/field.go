package sym

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"go/types"
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"verifengine/smt"

	"verifengine/term"
)

// Field layer. The arithmetic of a prime field is replaced by operations on opaque
// words, each standing for an element of GF(p) (Montgomery form: value = words/R).
// Every such tuple of words has a normal form over the inputs: a sum of products of
// powers of bases, a base being an input element or an interned sum. Equality is
// decided by expanding to polynomials over GF(p); it is an identity, so it holds for
// every input for which no denominator vanishes. A difference is shown by an input.

type fexp map[string]*big.Int // product of exponent bits ("" = 1) -> coefficient

type fmono struct {
	k *big.Int
	f map[int32]fexp
}

type fpoly map[string]*fmono

type fbase struct {
	atom  bool
	words []*term.Term
	below *big.Int
	poly  fpoly
	key   string
}

type fval struct {
	words []*term.Term
	p     fpoly
	below *big.Int
	key   string
}

type fieldState struct {
	m     *Machine
	p     *big.Int
	pm1   *big.Int
	n     int
	r     *big.Int
	rinv  *big.Int
	pw    []uint64
	bases []fbase
	bidx  map[string]int32
	val   map[int32]*fval // first word -> value
	bits  map[string]*term.Term
	exp   map[int32]map[string]*big.Int // expanded bases
	atoms []int32
	imag  map[int32][]*term.Term
	imags [][]*term.Term
}

func wordsBig(w []uint64) *big.Int {
	r := new(big.Int)
	for i := len(w) - 1; i >= 0; i-- {
		r.Lsh(r, 64)
		r.Or(r, new(big.Int).SetUint64(w[i]))
	}
	return r
}

func bigWords(x *big.Int, n int) []uint64 {
	r := make([]uint64, n)
	b := new(big.Int).Set(x)
	m := new(big.Int).SetUint64(^uint64(0))
	for i := range r {
		r[i] = new(big.Int).And(b, m).Uint64()
		b.Rsh(b, 64)
	}
	return r
}

func newField(m *Machine, p []uint64) *fieldState {
	f := &fieldState{m: m, p: wordsBig(p), n: len(p), pw: p, bidx: map[string]int32{}, val: map[int32]*fval{}, bits: map[string]*term.Term{}, imag: map[int32][]*term.Term{}, exp: map[int32]map[string]*big.Int{}}
	f.pm1 = new(big.Int).Sub(f.p, big.NewInt(1))
	f.r = new(big.Int).Lsh(big.NewInt(1), uint(64*f.n))
	f.rinv = new(big.Int).ModInverse(f.r, f.p)
	return f
}

// ---- exponents ----

func eConst(k int64) fexp { return fexp{"": big.NewInt(k)} }

func (a fexp) add(b fexp, n int64) fexp {
	r := fexp{}
	for k, v := range a {
		r[k] = v
	}
	for k, v := range b {
		x := new(big.Int).Mul(v, big.NewInt(n))
		if o, ok := r[k]; ok {
			x.Add(x, o)
		}
		if x.Sign() == 0 {
			delete(r, k)
		} else {
			r[k] = x
		}
	}
	return r
}

// wide: some product has many factors (a ladder that mixes its bits).
func (a fexp) wide(b fexp) bool {
	for k := range a {
		for l := range b {
			if strings.Count(k, ",")+strings.Count(l, ",") > 20 {
				return true
			}
		}
	}
	return false
}

func (a fexp) mul(b fexp) fexp {
	if len(a)*len(b) > 20000 || len(a)*len(b) > 64 && a.wide(b) {
		fail("exponent has too many terms")
	}
	r := fexp{}
	for k, v := range a {
		for l, w := range b {
			set := map[string]bool{}
			for _, s := range strings.Split(k+","+l, ",") {
				if s != "" {
					set[s] = true
				}
			}
			var ss []string
			for s := range set {
				ss = append(ss, s)
			}
			sort.Strings(ss)
			n := strings.Join(ss, ",")
			x := new(big.Int).Mul(v, w)
			if o := r[n]; o != nil {
				x.Add(x, o)
			}
			if x.Sign() == 0 {
				delete(r, n)
			} else {
				r[n] = x
			}
		}
	}
	return r
}

func (a fexp) key() string {
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%s:%x;", k, a[k])
	}
	return sb.String()
}

// isConst gives the exponent when it has no bits.
func (a fexp) isConst() (*big.Int, bool) {
	switch len(a) {
	case 0:
		return new(big.Int), true
	case 1:
		v, ok := a[""]
		return v, ok
	}
	return nil, false
}

// ---- sums of products ----

func (m *fmono) mkey() string {
	ks := make([]int, 0, len(m.f))
	for b := range m.f {
		ks = append(ks, int(b))
	}
	sort.Ints(ks)
	var sb strings.Builder
	for _, b := range ks {
		fmt.Fprintf(&sb, "%d^%s|", b, m.f[int32(b)].key())
	}
	return sb.String()
}

func (s *fieldState) fconst(k *big.Int) fpoly {
	k = new(big.Int).Mod(k, s.p)
	if k.Sign() == 0 {
		return fpoly{}
	}
	return fpoly{"": {k, map[int32]fexp{}}}
}

func (s *fieldState) add(a, b fpoly, n int64) fpoly {
	r := fpoly{}
	for k, v := range a {
		r[k] = v
	}
	for k, v := range b {
		x := new(big.Int).Mul(v.k, big.NewInt(n))
		if o, ok := r[k]; ok {
			x.Add(x, o.k)
		}
		if x.Mod(x, s.p).Sign() == 0 {
			delete(r, k)
		} else {
			r[k] = &fmono{x, v.f}
		}
	}
	return r
}

func (s *fieldState) scale(a fpoly, k *big.Int) fpoly {
	r := fpoly{}
	for i, v := range a {
		x := new(big.Int).Mul(v.k, k)
		if x.Mod(x, s.p).Sign() != 0 {
			r[i] = &fmono{x, v.f}
		}
	}
	return r
}

func (a fpoly) keyString() string {
	ks := make([]string, 0, len(a))
	for k := range a {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%x*%s+", a[k].k, k)
	}
	h := sha256.Sum256([]byte(sb.String()))
	return hex.EncodeToString(h[:])
}

// single writes a as one product, interning a sum as a base.
func (s *fieldState) single(a fpoly) *fmono {
	if len(a) == 1 {
		for _, m := range a {
			return m
		}
	}
	if x, ok := s.expandN(a, 40); ok && len(x) > 1 {
		a = fpoly{}
		for k, v := range x {
			m := &fmono{v, map[int32]fexp{}}
			for ; len(k) > 0; k = k[6:] {
				m.f[int32(binary.BigEndian.Uint32([]byte(k[:4])))] = eConst(int64(k[4])<<8 + int64(k[5]))
			}
			a[m.mkey()] = m
		}
	}
	// common factors with constant exponents
	com := map[int32]*big.Int{}
	first := true
	for _, m := range a {
		cur := map[int32]*big.Int{}
		for b, e := range m.f {
			if v, ok := e.isConst(); ok {
				cur[b] = v
			}
		}
		if first {
			com = cur
			first = false
			continue
		}
		for b, v := range com {
			w, ok := cur[b]
			if !ok {
				w = new(big.Int)
			}
			if w.Cmp(v) < 0 {
				com[b] = w
			}
		}
		for b, w := range cur {
			if _, ok := com[b]; !ok && w.Sign() < 0 {
				com[b] = w
			}
		}
	}
	lead := ""
	for k := range a {
		if lead == "" || k < lead && k != "" {
			lead = k
		}
	}
	lk := a[lead].k
	inv := new(big.Int).ModInverse(lk, s.p)
	rest := fpoly{}
	for _, m := range a {
		nm := &fmono{new(big.Int).Mod(new(big.Int).Mul(m.k, inv), s.p), map[int32]fexp{}}
		for b, e := range m.f {
			nm.f[b] = e
		}
		for b, v := range com {
			if v.Sign() == 0 {
				continue
			}
			e := nm.f[b].add(fexp{"": v}, -1)
			if len(e) == 0 {
				delete(nm.f, b)
			} else {
				nm.f[b] = e
			}
		}
		rest[nm.mkey()] = nm
	}
	// normalise again: the leading monomial may have changed
	lead = ""
	for k := range rest {
		if lead == "" || k < lead && k != "" {
			lead = k
		}
	}
	if k := rest[lead].k; k.Cmp(big.NewInt(1)) != 0 {
		lk = new(big.Int).Mod(new(big.Int).Mul(lk, k), s.p)
		rest = s.scale(rest, new(big.Int).ModInverse(k, s.p))
	}
	key := rest.keyString()
	b, ok := s.bidx[key]
	if !ok {
		b = int32(len(s.bases))
		s.bases = append(s.bases, fbase{poly: rest, key: "S" + key})
		s.bidx[key] = b
	}
	r := &fmono{lk, map[int32]fexp{b: eConst(1)}}
	for c, v := range com {
		if v.Sign() != 0 {
			r.f[c] = r.f[c].add(fexp{"": v}, 1)
		}
	}
	return r
}

func (s *fieldState) mul(a, b fpoly) fpoly {
	if len(a) == 0 || len(b) == 0 {
		return fpoly{}
	}
	if c, ok := a[""]; ok && len(a) == 1 {
		return s.scale(b, c.k)
	}
	if c, ok := b[""]; ok && len(b) == 1 {
		return s.scale(a, c.k)
	}
	x, y := s.single(a), s.single(b)
	r := &fmono{new(big.Int).Mod(new(big.Int).Mul(x.k, y.k), s.p), map[int32]fexp{}}
	for i, e := range x.f {
		r.f[i] = e
	}
	for i, e := range y.f {
		n := r.f[i].add(e, 1)
		if len(n) == 0 {
			delete(r.f, i)
		} else {
			r.f[i] = n
		}
	}
	return fpoly{r.mkey(): r}
}

// pow raises a to the given exponent; a is non-zero when the exponent is.
func (s *fieldState) pow(a fpoly, e fexp) fpoly {
	if len(a) == 0 {
		if c, ok := e.isConst(); ok && c.Sign() != 0 {
			return fpoly{}
		}
		fail("power of zero")
	}
	x := s.single(a)
	r := &fmono{big.NewInt(1), map[int32]fexp{}}
	if x.k.Cmp(big.NewInt(1)) != 0 {
		c, ok := e.isConst()
		if !ok {
			fail("symbolic power of a constant")
		}
		r.k = new(big.Int).Exp(x.k, new(big.Int).Mod(c, s.pm1), s.p)
	}
	for b, f := range x.f {
		g := f.mul(e)
		if len(g) > 0 {
			r.f[b] = g
		}
	}
	return fpoly{r.mkey(): r}
}

// ---- words ----

// opaque returns words standing for value p, below the given integer.
func (s *fieldState) opaque(what string, n int, p fpoly, below *big.Int) *fval {
	h := sha256.Sum256([]byte(fmt.Sprintf("%s/%d/%x/%s", what, n, below, p.fullKey(s))))
	name := "F" + hex.EncodeToString(h[:12])
	v := &fval{p: p, below: below, key: name}
	for i := 0; i < n; i++ {
		v.words = append(v.words, s.m.C.Var(fmt.Sprintf("%s.%d", name, i), 64))
	}
	if o := s.val[v.words[0].ID]; o != nil {
		return o
	}
	s.val[v.words[0].ID] = v
	if n == s.n && below.Cmp(s.p) <= 0 {
		// subtracting p borrows
		c := s.m.C
		bw := c.Bool(false)
		for i, w := range v.words {
			bw = c.SbbB(w, c.Const(s.pw[i], 64), bw)
		}
		if !bw.IsConst() {
			c.Know(bw, 1)
		}
	}
	return v
}

// fullKey names a value independently of the order in which bases were made.
func (a fpoly) fullKey(s *fieldState) string {
	var ks []string
	for _, m := range a {
		var fs []string
		for b, e := range m.f {
			fs = append(fs, s.bases[b].key+"^"+e.key())
		}
		sort.Strings(fs)
		ks = append(ks, fmt.Sprintf("%x*%s", m.k, strings.Join(fs, "|")))
	}
	sort.Strings(ks)
	return strings.Join(ks, "+")
}

func (s *fieldState) input(name string, k int64) *fval {
	n := s.n
	v := &fval{below: new(big.Int).Mul(s.p, big.NewInt(k))}
	for i := 0; i < n; i++ {
		v.words = append(v.words, s.m.fresh(name, 64))
	}
	b := int32(len(s.bases))
	s.bases = append(s.bases, fbase{atom: true, words: v.words, below: v.below, key: "A" + v.words[0].Name})
	s.atoms = append(s.atoms, b)
	m := &fmono{big.NewInt(1), map[int32]fexp{b: eConst(1)}}
	v.p = fpoly{m.mkey(): m}
	s.val[v.words[0].ID] = v
	if k == 1 {
		c := s.m.C
		bw := c.Bool(false)
		for i, w := range v.words {
			bw = c.SbbB(w, c.Const(s.pw[i], 64), bw)
		}
		c.Know(bw, 1)
	}
	return v
}

// lookup finds the value words stand for.
func (s *fieldState) lookup(w []*term.Term) *fval {
	all := true
	for _, t := range w {
		all = all && t.IsConst()
	}
	if all {
		u := make([]uint64, len(w))
		for i, t := range w {
			u[i] = t.K
		}
		x := wordsBig(u)
		v := new(big.Int).Mul(x, s.rinv)
		if len(w) == 2*s.n {
			v.Mul(v, s.rinv)
		}
		return &fval{words: w, p: s.fconst(v), below: new(big.Int).Add(x, big.NewInt(1))}
	}
	if v := s.val[w[0].ID]; v != nil && len(v.words) <= len(w) {
		ok := true
		for i, t := range w {
			if i < len(v.words) {
				ok = ok && t == v.words[i]
			} else {
				ok = ok && t.IsZero()
			}
		}
		if ok {
			if len(v.words) == len(w) {
				return v
			}
			return &fval{words: w, p: s.scale(v.p, s.rinv), below: v.below}
		}
	}
	if w[0].Op == term.Ite {
		c := w[0].Args[0]
		x, y := make([]*term.Term, len(w)), make([]*term.Term, len(w))
		for i, t := range w {
			if t.Op == term.Ite && t.Args[0] == c {
				x[i], y[i] = t.Args[1], t.Args[2]
			} else {
				x[i], y[i] = t, t
			}
		}
		return s.choose(s.condExp(c), s.lookup(x), s.lookup(y), w)
	}
	fail("words are not a field value: %v", w[0])
	return nil
}

// choose is a when e = 1 and b when e = 0, both products of powers.
func (s *fieldState) choose(e fexp, a, b *fval, w []*term.Term) *fval {
	if c, ok := e.isConst(); ok {
		if c.Sign() == 0 {
			return b
		}
		return a
	}
	if a.key != "" && a.key == b.key {
		return a
	}
	r := &fval{words: w, below: a.below}
	if b.below.Cmp(r.below) > 0 {
		r.below = b.below
	}
	if len(a.p) != 1 || len(b.p) != 1 {
		fail("field value selected by a condition")
	}
	x, y := s.single(a.p), s.single(b.p)
	if x.k.Cmp(y.k) != 0 {
		fail("field value selected by a condition")
	}
	m := &fmono{x.k, map[int32]fexp{}}
	for _, f := range []map[int32]fexp{x.f, y.f} {
		for i := range f {
			if _, ok := m.f[i]; ok {
				continue
			}
			// e*a + (1-e)*b = b + e*(a-b)
			d := x.f[i].add(y.f[i], -1)
			ex := y.f[i].add(e.mul(d), 1)
			if len(ex) > 0 {
				m.f[i] = ex
			}
		}
	}
	r.p = fpoly{m.mkey(): m}
	return r
}

// bitExp is the exponent of one bit of a term.
func (s *fieldState) bitExp(t *term.Term, i int) fexp {
	x := s.m.C.Extract(t, uint8(i), 1)
	if x.IsConst() {
		if x.K == 0 {
			return fexp{}
		}
		return eConst(1)
	}
	if x.Op == term.Not {
		return eConst(1).add(s.bitExp(x.Args[0], 0), -1)
	}
	switch x.Op {
	case term.Xor:
		a, b := s.bitExp(x.Args[0], 0), s.bitExp(x.Args[1], 0)
		return a.add(b, 1).add(a.mul(b), -2)
	case term.And:
		return s.bitExp(x.Args[0], 0).mul(s.bitExp(x.Args[1], 0))
	case term.Or:
		a, b := s.bitExp(x.Args[0], 0), s.bitExp(x.Args[1], 0)
		return a.add(b, 1).add(a.mul(b), -1)
	case term.Eq, term.Ult:
		return s.condExp(x)
	}
	n := fmt.Sprintf("b%08d", x.ID)
	s.bits[n] = x
	return fexp{n: big.NewInt(1)}
}

func (s *fieldState) condExp(c *term.Term) fexp {
	switch c.Op {
	case term.Eq:
		r := eConst(1)
		for i := 0; i < int(c.Args[0].W); i++ {
			x, y := s.bitExp(c.Args[0], i), s.bitExp(c.Args[1], i)
			// x*y + (1-x)(1-y)
			e := x.mul(y).add(eConst(1).add(x, -1).mul(eConst(1).add(y, -1)), 1)
			r = r.mul(e)
			if len(r) > 4096 {
				fail("condition too large for an exponent")
			}
		}
		return r
	case term.Not:
		return eConst(1).add(s.condExp(c.Args[0]), -1)
	case term.And:
		return s.condExp(c.Args[0]).mul(s.condExp(c.Args[1]))
	case term.Ult:
		if y := c.Args[1]; y.IsConst() && c.Args[0].W <= 8 && y.K <= 64 {
			r := fexp{}
			for k := uint64(0); k < y.K; k++ {
				r = r.add(s.condExp(s.m.C.Eq(c.Args[0], s.m.C.Const(k, y.W))), 1)
			}
			return r
		}
	}
	if c.Op == term.Eq || c.Op == term.Ult {
		n := fmt.Sprintf("b%08d", c.ID)
		s.bits[n] = c
		return fexp{n: big.NewInt(1)}
	}
	return s.bitExp(c, 0)
}

// ---- evaluation and expansion ----

type fpoint struct {
	s    *fieldState
	atom map[int32]*big.Int
	bit  map[string]int64
	memo map[int32]*big.Int
	bad  bool
	rng  *rand.Rand
	from *term.Model // values of everything else
}

func (s *fieldState) point(seed int64) *fpoint {
	q := &fpoint{s: s, atom: map[int32]*big.Int{}, bit: map[string]int64{}, memo: map[int32]*big.Int{}, rng: rand.New(rand.NewSource(seed))}
	for _, b := range s.atoms {
		q.atom[b] = new(big.Int).Rand(q.rng, s.p)
	}
	var ns []string
	for n := range s.bits {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		q.bit[n] = int64(q.rng.Intn(2))
	}
	return q
}

func (q *fpoint) exp(e fexp) *big.Int {
	r := new(big.Int)
	for k, v := range e {
		on := true
		for _, b := range strings.Split(k, ",") {
			if b != "" && q.bit[b] == 0 {
				on = false
			}
		}
		if on {
			r.Add(r, v)
		}
	}
	return r
}

func (q *fpoint) base(b int32) *big.Int {
	if v, ok := q.atom[b]; ok {
		return v
	}
	if v, ok := q.memo[b]; ok {
		return v
	}
	v := q.eval(q.s.bases[b].poly)
	q.memo[b] = v
	return v
}

func (q *fpoint) eval(p fpoly) *big.Int {
	r := new(big.Int)
	for _, m := range p {
		x := new(big.Int).Set(m.k)
		for b, e := range m.f {
			v := q.base(b)
			k := q.exp(e)
			if v.Sign() == 0 {
				if k.Sign() < 0 {
					q.bad = true
				}
				if k.Sign() != 0 {
					x.SetInt64(0)
				}
				continue
			}
			k.Mod(k, q.s.pm1)
			x.Mul(x, new(big.Int).Exp(v, k, q.s.p))
			x.Mod(x, q.s.p)
		}
		r.Add(r, x)
	}
	return r.Mod(r, q.s.p)
}

// model gives the inputs of a point.
func (q *fpoint) model() *term.Model {
	md := &term.Model{V: map[int32]uint64{}}
	for b, v := range q.atom {
		bs := q.s.bases[b]
		x := new(big.Int).Mul(v, q.s.r)
		x.Mod(x, q.s.p)
		if y := new(big.Int).Add(x, q.s.p); y.Cmp(bs.below) < 0 && q.rng.Intn(2) == 1 {
			x = y
		}
		for i, w := range bigWords(x, len(bs.words)) {
			md.V[bs.words[i].ID] = w
		}
	}
	for _, v := range q.s.val {
		if _, ok := md.V[v.words[0].ID]; ok || v.p == nil {
			continue
		}
		x := new(big.Int).Mul(q.eval(v.p), q.s.r)
		if len(v.words) == 2*q.s.n {
			x.Mul(x, q.s.r)
		}
		x.Mod(x, q.s.p)
		for i, w := range bigWords(x, len(v.words)) {
			md.V[v.words[i].ID] = w
		}
	}
	for _, im := range q.s.imags {
		x := new(big.Int).Rand(q.rng, q.s.p)
		for i, w := range bigWords(x, len(im)) {
			md.V[im[i].ID] = w
		}
	}
	if q.from != nil {
		for id, w := range q.from.V {
			if _, ok := md.V[id]; !ok {
				md.V[id] = w
			}
		}
	}
	for n, v := range q.bit {
		if t, lo := q.s.bitVar(n); t != nil {
			md.V[t.ID] = md.V[t.ID]&^(1<<lo) | uint64(v)<<lo
		}
	}
	return md
}

func (s *fieldState) bitVar(n string) (*term.Term, uint) {
	t := s.bits[n]
	lo := uint(0)
	if t.Op == term.Extract {
		lo = uint(t.K)
		t = t.Args[0]
	}
	if t.Op == term.Var {
		return t, lo
	}
	return nil, 0
}

// pathPoint is a point on the current path: when the random one is not, exponent bits
// and everything else start from the solver's model of the path, and the bits that are
// free one at a time are randomised.
func (s *fieldState) pathPoint(seed int64) (*fpoint, *term.Model) {
	q := s.point(seed)
	md := q.model()
	if s.onPath(md) {
		return q, md
	}
	r, base := s.m.query(append([]*term.Term(nil), s.m.PC...), s.m.opts.QuickTimeout)
	if r != smt.Sat || base == nil {
		return nil, nil
	}
	q.from = base
	var ns []string
	for n := range s.bits {
		ns = append(ns, n)
		if t, lo := s.bitVar(n); t != nil {
			q.bit[n] = int64(base.V[t.ID] >> lo & 1)
		}
	}
	sort.Strings(ns)
	q.rng.Shuffle(len(ns), func(i, j int) { ns[i], ns[j] = ns[j], ns[i] })
	q.memo = map[int32]*big.Int{}
	if md = q.model(); !s.onPath(md) {
		return nil, nil
	}
	var flip func(ns []string)
	flip = func(ns []string) {
		if len(ns) == 0 {
			return
		}
		old := map[string]int64{}
		for _, n := range ns {
			old[n] = q.bit[n]
			q.bit[n] = int64(q.rng.Intn(2))
		}
		q.memo = map[int32]*big.Int{}
		x := q.model()
		if s.onPath(x) {
			md = x
			return
		}
		for n, v := range old {
			q.bit[n] = v
		}
		if len(ns) > 1 {
			flip(ns[:len(ns)/2])
			flip(ns[len(ns)/2:])
		}
	}
	flip(ns)
	q.memo = map[int32]*big.Int{}
	return q, md
}

const fLimit = 400000

// expand writes p (non-negative constant exponents) over the inputs.
func (s *fieldState) expand(p fpoly) (map[string]*big.Int, bool) { return s.expandN(p, fLimit) }

func (s *fieldState) expandN(p fpoly, lim int) (map[string]*big.Int, bool) {
	if len(p) > lim {
		return nil, false
	}
	out := map[string]*big.Int{}
	for _, m := range p {
		cur := map[string]*big.Int{"": m.k}
		var bs []int
		for b := range m.f {
			bs = append(bs, int(b))
		}
		sort.Ints(bs)
		for _, bi := range bs {
			b := int32(bi)
			e, ok := m.f[b].isConst()
			if !ok || e.Sign() < 0 || !e.IsInt64() || e.Int64() > 4000 {
				return nil, false
			}
			if s.bases[b].atom {
				nx := map[string]*big.Int{}
				for k, v := range cur {
					nx[monoMul(k, monoKey(b, int(e.Int64())))] = v
				}
				cur = nx
				continue
			}
			if e.Int64() > 64 {
				return nil, false
			}
			x, ok := s.exp[b]
			if !ok {
				if x, ok = s.expandN(s.bases[b].poly, lim); !ok {
					return nil, false
				}
				s.exp[b] = x
			}
			for i := int64(0); i < e.Int64(); i++ {
				if len(cur)*len(x) > 100*lim {
					return nil, false
				}
				nx := map[string]*big.Int{}
				for k, v := range cur {
					for l, w := range x {
						mk := monoMul(k, l)
						z := new(big.Int).Mul(v, w)
						if o, ok := nx[mk]; ok {
							z.Add(z, o)
						}
						nx[mk] = z.Mod(z, s.p)
					}
				}
				for k, v := range nx {
					if v.Sign() == 0 {
						delete(nx, k)
					}
				}
				if cur = nx; len(cur) > lim {
					return nil, false
				}
			}
		}
		for k, v := range cur {
			z := new(big.Int).Set(v)
			if o, ok := out[k]; ok {
				z.Add(z, o)
			}
			if z.Mod(z, s.p).Sign() == 0 {
				delete(out, k)
			} else {
				out[k] = z
			}
		}
		if len(out) > lim {
			return nil, false
		}
	}
	return out, true
}

func monoKey(b int32, e int) string {
	var x [6]byte
	binary.BigEndian.PutUint32(x[:], uint32(b))
	binary.BigEndian.PutUint16(x[4:], uint16(e))
	return string(x[:])
}

func monoMul(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	out := make([]byte, 0, len(a)+len(b))
	for len(a) > 0 && len(b) > 0 {
		switch {
		case a[:4] < b[:4]:
			out = append(out, a[:6]...)
			a = a[6:]
		case a[:4] > b[:4]:
			out = append(out, b[:6]...)
			b = b[6:]
		default:
			e := int(a[4])<<8 + int(a[5]) + int(b[4])<<8 + int(b[5])
			out = append(out, a[:4]...)
			out = append(out, byte(e>>8), byte(e))
			a, b = a[6:], b[6:]
		}
	}
	return string(append(append(out, a...), b...))
}

// zero decides whether p vanishes identically; a point where it does not is returned.
// The last result is false when neither could be shown.
func (s *fieldState) zero(p fpoly, seed int64) (bool, *fpoint, bool) {
	if len(p) == 0 {
		return true, nil, true
	}
	for k := int64(0); k < 4; k++ {
		q := s.point(seed*97 + k)
		if v := q.eval(p); v.Sign() != 0 && !q.bad {
			return false, q, true
		}
	}
	// clear denominators
	low := map[int32]*big.Int{}
	for _, m := range p {
		for b, e := range m.f {
			c, ok := e.isConst()
			if !ok {
				return false, nil, false
			}
			if o, ok := low[b]; !ok || c.Cmp(o) < 0 {
				low[b] = c
			}
		}
	}
	for b := range low {
		for _, m := range p {
			if _, ok := m.f[b]; !ok && low[b].Sign() > 0 {
				low[b] = new(big.Int)
			}
		}
	}
	q := fpoly{}
	for _, m := range p {
		n := &fmono{m.k, map[int32]fexp{}}
		for b, e := range m.f {
			n.f[b] = e
		}
		for b, v := range low {
			if v.Sign() == 0 {
				continue
			}
			e := n.f[b].add(fexp{"": v}, -1)
			if len(e) == 0 {
				delete(n.f, b)
			} else {
				n.f[b] = e
			}
		}
		q[n.mkey()] = n
	}
	x, ok := s.expand(q)
	if !ok {
		return false, nil, false
	}
	return len(x) == 0, nil, len(x) == 0
}

func (s *fieldState) claimZero(p fpoly, label string) {
	m := s.m
	m.Asserts++
	m.FieldIds++
	z, q, ok := s.zero(p, int64(len(label)))
	switch {
	case z:
		m.Proved++
	case ok:
		for k := int64(0); k < 6; k++ {
			var md *term.Model
			if k == 0 {
				if md = q.model(); !s.onPath(md) {
					continue
				}
			} else {
				if q, md = s.pathPoint(1000 + k); q == nil {
					break
				}
				if v := q.eval(p); v.Sign() == 0 || q.bad {
					continue
				}
			}
			{
				m.Failures = append(m.Failures, &Failure{Label: label, Kind: "assert", Values: m.modelInputs(md), Stack: m.stackString()})
				panic(pathEnd{"assert failed: " + label})
			}
		}
		m.Unknowns = append(m.Unknowns, label)
	default:
		m.Unknowns = append(m.Unknowns, label)
	}
}

func (s *fieldState) onPath(md *term.Model) bool {
	ev := s.m.C.NewEval(md)
	for _, p := range s.m.PC {
		if ev.Eval(p) != 1 {
			return false
		}
	}
	return true
}

func (m *Machine) fieldIntrinsic(name string, args []Value) (Value, bool) {
	c := m.C
	_ = c
	ws := func(i int) []*term.Term { return m.SliceWords(args[i].(Slice)) }
	if name == "vFSet" {
		var p []uint64
		for _, t := range ws(0) {
			if !t.IsConst() {
				fail("vFSet")
			}
			p = append(p, t.K)
		}
		m.fst = newField(m, p)
		return nil, true
	}
	s := m.fst
	if s == nil {
		fail("%s before vFSet", name)
	}
	vals := func(i int) []*fval {
		var r []*fval
		for _, a := range m.variadic(args[i], types.NewSlice(types.Typ[types.Uint64])) {
			r = append(r, s.lookup(m.SliceWords(a.(Slice))))
		}
		return r
	}
	// elements of the quadratic extension: the second coordinate is a tag of the first
	pairs := func(i int) []*fval {
		var r []*fval
		vs := m.variadic(args[i], types.NewSlice(types.Typ[types.Uint64]))
		for k := 0; k+1 < len(vs); k += 2 {
			a, b := m.SliceWords(vs[k].(Slice)), m.SliceWords(vs[k+1].(Slice))
			v := s.lookup(a)
			zero := true
			for _, w := range b {
				zero = zero && w.IsZero()
			}
			if con := a[0].IsConst(); con && !zero {
				fail("constant outside the prime field")
			} else if !con {
				for j, w := range s.tag(v) {
					if w != b[j] {
						fail("coordinates of different elements")
					}
				}
			}
			r = append(r, v)
		}
		return r
	}
	kp := func(i int) *big.Int {
		k := big.NewInt(m.constArg(args[i]))
		return k.Mul(k, s.p)
	}
	switch name {
	case "vFIn":
		return m.WordsSlice(s.input(m.strArg(args[0]), int64(m.constArg(args[1]))).words), true
	case "vFC":
		k := int64(m.constArg(args[0]))
		x := new(big.Int).Mul(big.NewInt(k), s.r)
		x.Mod(x, s.p)
		var ts []*term.Term
		for _, w := range bigWords(x, s.n) {
			ts = append(ts, c.Const(w, 64))
		}
		return m.WordsSlice(ts), true
	case "vFOp":
		op := m.strArg(args[0])
		in := vals(2)
		below := kp(1)
		n := s.n
		var p fpoly
		switch op {
		case "add":
			p = s.add(in[0].p, in[1].p, 1)
		case "sub":
			p = s.add(in[0].p, in[1].p, -1)
		case "mul":
			p = s.mul(in[0].p, in[1].p)
		case "same", "rdc":
			p = in[0].p
		case "inv":
			p = s.pow(in[0].p, eConst(-1))
		case "mulx":
			p = s.mul(in[0].p, in[1].p)
			n = 2 * s.n
			below = new(big.Int).Mul(in[0].below, in[1].below)
		case "addx":
			p = s.add(in[0].p, in[1].p, 1)
			n = 2 * s.n
			below = new(big.Int).Add(in[0].below, in[1].below)
		case "subx":
			p = s.add(in[0].p, in[1].p, -1)
			n = 2 * s.n
			below = new(big.Int).Mul(s.p, s.r)
			if in[0].below.Cmp(below) > 0 {
				below = in[0].below
			}
		default:
			fail("vFOp %s", op)
		}
		return m.WordsSlice(s.opaque("", n, p, below).words), true
	case "vFSel":
		a, b := s.lookup(ws(1)), s.lookup(ws(2))
		v := s.choose(s.bitExp(args[0].(*term.Term), 0), a, b, nil)
		if v == a || v == b {
			return m.WordsSlice(v.words), true
		}
		return m.WordsSlice(s.opaque("", len(a.words), v.p, v.below).words), true
	case "vFSame":
		a, b := s.lookup(ws(0)), s.lookup(ws(1))
		return c.Bool(len(s.add(a.p, b.p, -1)) == 0), true
	case "vFPM":
		return c.Bool(s.plusMinus(s.lookup(ws(0)).p, s.lookup(ws(1)).p, s.lookup(ws(2)).p)), true
	case "vFPow":
		b := s.lookup(ws(0))
		e := fexp{}
		for i, w := range ws(1) {
			for j := 0; j < 64; j++ {
				x := s.bitExp(w, j)
				for k, v := range x {
					e = e.add(fexp{k: new(big.Int).Lsh(v, uint(64*i+j))}, 1)
				}
			}
		}
		return m.WordsSlice(s.opaque("", s.n, s.pow(b.p, e), s.p).words), true
	case "vFEq":
		label := m.strArg(args[0])
		a, b := s.lookup(ws(1)), s.lookup(ws(2))
		s.claimZero(s.add(a.p, b.p, -1), label)
		return nil, true
	case "vFBelow":
		label := m.strArg(args[0])
		w := ws(1)
		v := s.lookup(w)
		lim := kp(2)
		if len(w) == 2*s.n {
			lim.Mul(lim, s.r)
		}
		m.Asserts++
		if v.below.Cmp(lim) <= 0 {
			m.Proved++
		} else {
			m.fieldRange(s, label)
		}
		return nil, true
	case "vFProj":
		s.proj(m.strArg(args[0]), s.lookup(ws(1)).p, s.lookup(ws(2)).p, s.lookup(ws(3)).p, s.lookup(ws(4)).p, vals(5))
		return nil, true
	case "vF2In":
		v := s.input(m.strArg(args[0]), 2)
		var im []*term.Term
		for range v.words {
			im = append(im, m.fresh(m.strArg(args[0])+".i", 64))
		}
		s.imag[v.words[0].ID] = im
		s.imags = append(s.imags, im)
		return Tuple{m.WordsSlice(v.words), m.WordsSlice(im)}, true
	case "vF2Op":
		in := pairs(1)
		var p fpoly
		switch op := m.strArg(args[0]); op {
		case "add":
			p = s.add(in[0].p, in[1].p, 1)
		case "sub":
			p = s.add(in[0].p, in[1].p, -1)
		case "mul":
			p = s.mul(in[0].p, in[1].p)
		case "inv":
			p = s.pow(in[0].p, eConst(-1))
		default:
			fail("vF2Op %s", op)
		}
		v := s.opaque("", s.n, p, new(big.Int).Lsh(s.p, 1))
		return Tuple{m.WordsSlice(v.words), m.WordsSlice(s.tag(v))}, true
	case "vF2Eq":
		in := pairs(1)
		s.claimZero(s.add(in[0].p, in[1].p, -1), m.strArg(args[0]))
		return nil, true
	case "vF2Proj":
		in := pairs(1)
		s.proj(m.strArg(args[0]), in[0].p, in[1].p, in[2].p, in[3].p, in[4:])
		return nil, true
	}
	return nil, false
}

// fieldRange records a claim about the size of a representative that does not follow
// from the sizes of the operands, with candidate inputs.
func (m *Machine) fieldRange(s *fieldState, label string) {
	n := len(m.Failures)
	for k := 0; k < 4; k++ {
		md := s.point(5).model()
		for _, b := range s.atoms {
			bs := s.bases[b]
			var x *big.Int
			switch k {
			case 0:
				x = s.p
			case 1:
				x = new(big.Int).Sub(bs.below, big.NewInt(1))
			case 2:
				x = new(big.Int).Sub(s.p, big.NewInt(1))
			default:
				continue
			}
			if x.Cmp(bs.below) < 0 {
				for i, w := range bigWords(x, len(bs.words)) {
					md.V[bs.words[i].ID] = w
				}
			}
		}
		if s.onPath(md) {
			m.Failures = append(m.Failures, &Failure{Label: label, Kind: "assert", Values: m.modelInputs(md), Stack: m.stackString()})
		}
	}
	if len(m.Failures) == n {
		m.Unknowns = append(m.Unknowns, label)
		return
	}
	panic(pathEnd{"assert failed: " + label})
}

// tag names the second coordinate of an element of the quadratic extension.
func (s *fieldState) tag(v *fval) []*term.Term {
	if im := s.imag[v.words[0].ID]; im != nil {
		return im
	}
	var r []*term.Term
	for i := range v.words {
		r = append(r, s.m.C.Var("I"+v.words[i].Name, 64))
	}
	return r
}

// proj claims (gx:gz) = (wx:wz), and that the factor between the two pairs is a constant
// times powers of the given elements.
func (s *fieldState) proj(label string, gx, gz, wx, wz fpoly, sc []*fval) {
	m := s.m
	s.claimZero(s.add(s.mul(gx, wz), s.mul(gz, wx), -1), label)
	// the factor between the two pairs: a constant times powers of the given elements
	m.Asserts++
	for k := int64(0); k < 4; k++ {
		q := s.point(k)
		if (q.eval(gx).Sign() == 0 && q.eval(gz).Sign() == 0) != (q.eval(wx).Sign() == 0 && q.eval(wz).Sign() == 0) {
			md := q.model()
			if s.onPath(md) {
				m.Failures = append(m.Failures, &Failure{Label: label + " (degenerate)", Kind: "assert", Values: m.modelInputs(md), Stack: m.stackString()})
				panic(pathEnd{"assert failed: " + label})
			}
		}
	}
	ok := false
	var rec func(i int, f fpoly)
	rec = func(i int, f fpoly) {
		if ok {
			return
		}
		if i == len(sc) {
			g := s.mul(f, wx)
			var r *big.Int
			for k := int64(0); k < 3; k++ {
				q := s.point(50 + k)
				a, b := q.eval(gx), q.eval(g)
				if a.Sign() == 0 || b.Sign() == 0 {
					return
				}
				z := new(big.Int).Mul(a, new(big.Int).ModInverse(b, s.p))
				z.Mod(z, s.p)
				if r != nil && r.Cmp(z) != 0 {
					return
				}
				r = z
			}
			zx, _, _ := s.zero(s.add(gx, s.scale(g, r), -1), 7)
			zz, _, _ := s.zero(s.add(gz, s.scale(s.mul(f, wz), r), -1), 7)
			ok = zx && zz
			return
		}
		for e := int64(-2); e <= 4; e++ {
			rec(i+1, s.mul(f, s.pow(sc[i].p, eConst(e))))
		}
	}
	rec(0, s.fconst(big.NewInt(1)))
	if ok {
		m.Proved++
	} else {
		m.Unknowns = append(m.Unknowns, label+" (scaling)")
	}
}

// fieldModel gives random field elements to the inputs when they are free.
func (m *Machine) fieldModel() *term.Model {
	if m.fst == nil || len(m.fst.atoms) == 0 {
		return nil
	}
	for k := int64(0); k < 20; k++ {
		if q, md := m.fst.pathPoint(900 + k); q != nil {
			return md
		}
	}
	return nil
}

// fieldCandidates records failures of cond at random field elements: the solver's model
// gives zeros to unconstrained elements, where a wrong result often does not show.
func (m *Machine) fieldCandidates(cond *term.Term, label string) {
	if m.fst == nil || len(m.fst.atoms) == 0 {
		return
	}
	for k, n := int64(0), 0; k < 20 && n < 2; k++ {
		q, md := m.fst.pathPoint(1900 + k)
		if q == nil || m.C.NewEval(md).Eval(cond) != 0 {
			continue
		}
		n++
		m.Failures = append(m.Failures, &Failure{Label: label, Kind: "assert", Values: m.modelInputs(md), Stack: m.stackString()})
	}
}

// plusMinus: p/q is d or 1/d, for products of powers.
func (s *fieldState) plusMinus(p, q, d fpoly) bool {
	if len(p) != 1 || len(q) != 1 || len(d) != 1 {
		return false
	}
	x, y, z := s.single(p), s.single(q), s.single(d)
	one := big.NewInt(1)
	if x.k.Cmp(one) != 0 || y.k.Cmp(one) != 0 || z.k.Cmp(one) != 0 {
		return false
	}
	e := map[int32]fexp{}
	for b, v := range x.f {
		e[b] = v
	}
	for b, v := range y.f {
		e[b] = e[b].add(v, -1)
	}
	for b := range z.f {
		if e[b] == nil {
			e[b] = fexp{}
		}
	}
	same, opp := true, true
	for b, v := range e {
		same = same && len(v.add(z.f[b], -1)) == 0
		opp = opp && len(v.add(z.f[b], 1)) == 0
	}
	if same || opp {
		return true
	}
	for b, v := range e {
		for c, w := range e {
			if v.mul(w).key() != z.f[b].mul(z.f[c]).key() {
				return false
			}
		}
	}
	return true
}
