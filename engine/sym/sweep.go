package sym

import (
	"encoding/binary"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"verifengine/smt"
	"verifengine/term"
)

// Equivalence of large word-level computations (compression functions, ciphers).
// Every bit of every word is brought to a normal form: an exclusive-or of products
// of atoms, where atoms are bits of inputs, of sums (as multisets of summands), of
// table columns (modulo linear dependence) and of everything else. Words that agree
// on sampled inputs but not in normal form are compared by the solver on a local
// cut and merged when it shows them equal.

type sweeper struct {
	m     *Machine
	c     *term.Ctx
	names map[string]int32 // atom descriptor -> atom
	monos [][]int32        // 0: the constant 1
	monoI map[string]int32
	forms [][]int32 // 0: zero, 1: one
	formI map[string]int32
	xm    map[[2]int32]int32
	mm    map[[2]int32]int32
	wordI map[string]int32
	words [][]int32
	tf    map[int32][]int32 // term -> bits
	sums  map[int32]*wsum
	tabs  map[string]*tabBasis
	from  map[int32]*tabFrom
	order []*term.Term
	sig   map[int32]string
	comp  map[int32]bool
	rep   map[string]*term.Term
	evs   []*term.Model
	start time.Time
	stats struct{ merged, failed int }
	nonlin map[int32]bool
	wt     map[int32]*term.Term // word -> first term
	lastMd *term.Model
}

type wsum struct {
	w    uint8
	coef map[int32]uint64
	k    uint64
}

// tabFrom records that a word is a table of another one.
type tabFrom struct {
	idx []int32
	val []uint64
}

type tabBasis struct {
	vec [][]uint64
	f   []int32
	piv []int
}

func newSweeper(m *Machine) *sweeper {
	s := &sweeper{m: m, c: m.C, names: map[string]int32{}, monoI: map[string]int32{}, formI: map[string]int32{}, xm: map[[2]int32]int32{}, mm: map[[2]int32]int32{}, wordI: map[string]int32{}, tf: map[int32][]int32{}, sums: map[int32]*wsum{}, tabs: map[string]*tabBasis{}, from: map[int32]*tabFrom{}, sig: map[int32]string{}, comp: map[int32]bool{}, rep: map[string]*term.Term{}, nonlin: map[int32]bool{}, wt: map[int32]*term.Term{}}
	s.mono(nil)
	s.form(nil)
	s.form([]int32{0})
	return s
}

func key32(v []int32) string {
	b := make([]byte, 4*len(v))
	for i, x := range v {
		binary.LittleEndian.PutUint32(b[4*i:], uint32(x))
	}
	return string(b)
}

func (s *sweeper) mono(a []int32) int32 {
	k := key32(a)
	if i, ok := s.monoI[k]; ok {
		return i
	}
	i := int32(len(s.monos))
	s.monos = append(s.monos, append([]int32(nil), a...))
	s.monoI[k] = i
	return i
}

func (s *sweeper) form(a []int32) int32 {
	k := key32(a)
	if i, ok := s.formI[k]; ok {
		return i
	}
	i := int32(len(s.forms))
	s.forms = append(s.forms, append([]int32(nil), a...))
	s.formI[k] = i
	return i
}

func (s *sweeper) word(a []int32) int32 {
	k := key32(a)
	if i, ok := s.wordI[k]; ok {
		return i
	}
	i := int32(len(s.words))
	s.words = append(s.words, append([]int32(nil), a...))
	s.wordI[k] = i
	return i
}

func (s *sweeper) atom(name string) int32 {
	i, ok := s.names[name]
	if !ok {
		i = int32(len(s.names))
		s.names[name] = i
	}
	return s.form([]int32{s.mono([]int32{i})})
}

func (s *sweeper) xor(f, g int32) int32 {
	switch {
	case f == 0:
		return g
	case g == 0:
		return f
	case f == g:
		return 0
	}
	if f > g {
		f, g = g, f
	}
	k := [2]int32{f, g}
	if r, ok := s.xm[k]; ok {
		return r
	}
	a, b := s.forms[f], s.forms[g]
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		case a[i] > b[j]:
			out = append(out, b[j])
			j++
		default:
			i++
			j++
		}
	}
	out = append(append(out, a[i:]...), b[j:]...)
	r := s.form(out)
	s.xm[k] = r
	return r
}

func (s *sweeper) mul(f, g int32) int32 {
	switch {
	case f == 0 || g == 0:
		return 0
	case f == 1:
		return g
	case g == 1 || f == g:
		return f
	}
	if f > g {
		f, g = g, f
	}
	k := [2]int32{f, g}
	if r, ok := s.mm[k]; ok {
		return r
	}
	a, b := s.forms[f], s.forms[g]
	r := int32(-1)
	deg := func(x []int32) int {
		d := 0
		for _, m := range x {
			if n := len(s.monos[m]); n > d {
				d = n
			}
		}
		return d
	}
	if len(a)*len(b) <= 36 && deg(a)+deg(b) <= 4 {
		cnt := map[int32]bool{}
		for _, x := range a {
			for _, y := range b {
				set := map[int32]bool{}
				for _, v := range s.monos[x] {
					set[v] = true
				}
				for _, v := range s.monos[y] {
					set[v] = true
				}
				l := make([]int32, 0, len(set))
				for v := range set {
					l = append(l, v)
				}
				sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
				mo := s.mono(l)
				if cnt[mo] {
					delete(cnt, mo)
				} else {
					cnt[mo] = true
				}
			}
		}
		l := make([]int32, 0, len(cnt))
		for v := range cnt {
			l = append(l, v)
		}
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		r = s.form(l)
	} else {
		f0, al := f, false
		if a[0] == 0 {
			f0, al = s.xor(f, 1), true
		}
		g0, be := g, false
		if b[0] == 0 {
			g0, be = s.xor(g, 1), true
		}
		if f0 == g0 {
			r = f0
		} else {
			p, q := f0, g0
			if p > q {
				p, q = q, p
			}
			r = s.atom(fmt.Sprintf("p%d:%d", p, q))
			s.nonlin[s.monos[s.forms[r][0]][0]] = true
		}
		if be {
			r = s.xor(r, f0)
		}
		if al {
			r = s.xor(r, g0)
		}
		if al && be {
			r = s.xor(r, 1)
		}
	}
	s.mm[k] = r
	return r
}

func constBits(v uint64, w uint8) []int32 {
	r := make([]int32, w)
	for i := range r {
		r[i] = int32(v >> uint(i) & 1)
	}
	return r
}

func (s *sweeper) constOf(b []int32) (uint64, bool) {
	v := uint64(0)
	for i, f := range b {
		if f > 1 {
			return 0, false
		}
		v |= uint64(f) << uint(i)
	}
	return v, true
}

// sum of a word, as a combination of words that are not sums themselves.
func (s *sweeper) sumOf(b []int32) *wsum {
	w := uint8(len(b))
	if v, ok := s.constOf(b); ok {
		return &wsum{w, nil, v}
	}
	id := s.word(b)
	if x, ok := s.sums[id]; ok {
		return x
	}
	// complement of a sum or word: ~x = -x-1
	if b[0] != 0 && s.forms[b[0]][0] == 0 {
		n := make([]int32, w)
		for i := range b {
			n[i] = s.xor(b[i], 1)
		}
		x := &wsum{w: w, coef: map[int32]uint64{}}
		x.add(s.sumOf(n), ^uint64(0))
		x.k = (x.k - 1) & term.Mask(w)
		s.sums[id] = x
		return x
	}
	x := &wsum{w, map[int32]uint64{id: 1}, 0}
	return x
}

func (x *wsum) add(y *wsum, n uint64) {
	m := term.Mask(x.w)
	x.k = (x.k + n*y.k) & m
	for k, v := range y.coef {
		c := (x.coef[k] + n*v) & m
		if c == 0 {
			delete(x.coef, k)
		} else {
			x.coef[k] = c
		}
	}
}

func (s *sweeper) sumBits(x *wsum) []int32 {
	if len(x.coef) == 0 {
		return constBits(x.k, x.w)
	}
	var ids []int32
	for k := range x.coef {
		ids = append(ids, k)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	if len(ids) == 1 && x.k == 0 && x.coef[ids[0]] == 1 {
		return s.words[ids[0]]
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "s%d:%x", x.w, x.k)
	for _, i := range ids {
		fmt.Fprintf(&sb, ",%d*%x", i, x.coef[i])
	}
	name := sb.String()
	r := make([]int32, x.w)
	r[0] = int32(x.k & 1)
	for _, i := range ids {
		if x.coef[i]&1 == 1 {
			r[0] = s.xor(r[0], s.words[i][0])
		}
	}
	for i := 1; i < int(x.w); i++ {
		r[i] = s.atom(fmt.Sprintf("%s/%d", name, i))
	}
	s.sums[s.word(r)] = x
	return r
}

func (s *sweeper) table(t *term.Term, idx []int32) []int32 {
	data := s.c.Tables[t.K].Data
	if v, ok := s.constOf(idx); ok {
		if v < uint64(len(data)) {
			return constBits(data[v], t.W)
		}
		return constBits(0, t.W)
	}
	if fr := s.from[s.word(idx)]; fr != nil { // table of a table
		d := make([]uint64, len(fr.val))
		for i, v := range fr.val {
			if v < uint64(len(data)) {
				d[i] = data[v]
			}
		}
		data, idx = d, fr.idx
	}
	if len(idx) > 12 {
		return nil
	}
	n := 1 << uint(len(idx))
	nw := (n + 63) / 64
	key := key32(idx)
	bs := s.tabs[key]
	if bs == nil {
		bs = &tabBasis{}
		s.tabs[key] = bs
		one := make([]uint64, nw)
		for i := 0; i < n; i++ {
			one[i/64] |= 1 << uint(i%64)
		}
		bs.add(one, 1)
		for j := range idx {
			v := make([]uint64, nw)
			for i := 0; i < n; i++ {
				if i>>uint(j)&1 == 1 {
					v[i/64] |= 1 << uint(i%64)
				}
			}
			rem, f := bs.reduce(s, v, idx[j])
			bs.add(rem, f)
		}
	}
	r := make([]int32, t.W)
	for j := range r {
		v := make([]uint64, nw)
		for i := 0; i < n && i < len(data); i++ {
			if data[i]>>uint(j)&1 == 1 {
				v[i/64] |= 1 << uint(i%64)
			}
		}
		rem, f := bs.reduce(s, v, 0)
		zero := true
		for _, x := range rem {
			if x != 0 {
				zero = false
			}
		}
		if !zero {
			a := s.atom(fmt.Sprintf("t%d:%d", s.word(idx), len(bs.vec)))
			bs.add(rem, a)
			f = s.xor(f, a)
		}
		r[j] = f
	}
	if _, ok := s.constOf(r); !ok {
		if w := s.word(r); s.from[w] == nil && w != s.word(idx) {
			val := make([]uint64, n)
			copy(val, data)
			s.from[w] = &tabFrom{idx, val}
		}
	}
	return r
}

func (b *tabBasis) reduce(s *sweeper, v []uint64, f int32) ([]uint64, int32) {
	v = append([]uint64(nil), v...)
	for i, p := range b.piv {
		if v[p/64]>>uint(p%64)&1 == 1 {
			for k := range v {
				v[k] ^= b.vec[i][k]
			}
			f = s.xor(f, b.f[i])
		}
	}
	return v, f
}

func (b *tabBasis) add(v []uint64, f int32) {
	for i, x := range v {
		if x != 0 {
			p := 0
			for x>>uint(p)&1 == 0 {
				p++
			}
			b.vec = append(b.vec, v)
			b.f = append(b.f, f)
			b.piv = append(b.piv, 64*i+p)
			return
		}
	}
}

// bits computes the normal form of t from those of its arguments.
func (s *sweeper) bits(t *term.Term) []int32 {
	A := func(i int) []int32 { return s.tf[t.Args[i].ID] }
	w := int(t.W)
	r := make([]int32, w)
	switch t.Op {
	case term.Const:
		return constBits(t.K, t.W)
	case term.Var:
		for i := range r {
			r[i] = s.atom(fmt.Sprintf("v%d/%d", t.ID, i))
		}
		return r
	case term.And:
		a, b := A(0), A(1)
		for i := range r {
			r[i] = s.mul(a[i], b[i])
		}
		return r
	case term.Or:
		a, b := A(0), A(1)
		for i := range r {
			r[i] = s.xor(s.xor(a[i], b[i]), s.mul(a[i], b[i]))
		}
		return r
	case term.Xor:
		a, b := A(0), A(1)
		for i := range r {
			r[i] = s.xor(a[i], b[i])
		}
		return r
	case term.Not:
		for i, f := range A(0) {
			r[i] = s.xor(f, 1)
		}
		return r
	case term.Extract:
		copy(r, A(0)[t.K:])
		return r
	case term.Concat:
		lo := A(1)
		copy(r, lo)
		copy(r[len(lo):], A(0))
		return r
	case term.SExt:
		a := A(0)
		copy(r, a)
		for i := len(a); i < w; i++ {
			r[i] = a[len(a)-1]
		}
		return r
	case term.Ite:
		c, a, b := A(0)[0], A(1), A(2)
		for i := range r {
			r[i] = s.xor(b[i], s.mul(c, s.xor(a[i], b[i])))
		}
		return r
	case term.Eq:
		a, b := A(0), A(1)
		if len(a) == 0 {
			break
		}
		d := make([]int32, len(a))
		for i := range a {
			d[i] = s.xor(a[i], b[i])
		}
		if v, ok := s.constOf(d); ok {
			if v == 0 {
				r[0] = 1
			}
			return r
		}
		for _, f := range d {
			if f == 1 {
				return r
			}
		}
		if len(d) == 1 {
			r[0] = s.xor(d[0], 1)
			return r
		}
		r[0] = s.atom(fmt.Sprintf("e%d", s.word(d)))
		return r
	case term.Add, term.Sub, term.Adc, term.Sbb:
		x := &wsum{w: t.W, coef: map[int32]uint64{}}
		x.add(s.sumOf(A(0)), 1)
		n := uint64(1)
		if t.Op == term.Sub || t.Op == term.Sbb {
			n = ^uint64(0)
		}
		x.add(s.sumOf(A(1)), n)
		if len(t.Args) == 3 {
			ci := make([]int32, w)
			ci[0] = A(2)[0]
			x.add(s.sumOf(ci), n)
		}
		return s.sumBits(x)
	case term.Mul:
		for i := 0; i < 2; i++ {
			if v, ok := s.constOf(A(i)); ok {
				x := &wsum{w: t.W, coef: map[int32]uint64{}}
				x.add(s.sumOf(A(1-i)), v)
				return s.sumBits(x)
			}
		}
	case term.Tab:
		if b := s.table(t, A(0)); b != nil {
			return b
		}
	}
	// opaque
	var sb strings.Builder
	fmt.Fprintf(&sb, "o%d:%s:%x:%d", t.Op, t.Name, t.K, t.W)
	ids := make([]int32, len(t.Args))
	for i, a := range t.Args {
		if a.W == 0 {
			ids[i] = -a.ID
		} else {
			ids[i] = s.word(A(i))
		}
	}
	switch t.Op {
	case term.Mul, term.MulHi, term.AdcC:
		if ids[0] > ids[1] {
			ids[0], ids[1] = ids[1], ids[0]
		}
	}
	for _, i := range ids {
		fmt.Fprintf(&sb, ",%d", i)
	}
	for i := range r {
		r[i] = s.atom(fmt.Sprintf("%s/%d", sb.String(), i))
	}
	return r
}

func sameBits(a, b []int32) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return len(a) == len(b)
}

// sweepModels returns assignments used to tell words apart.
func (s *sweeper) models(n int) []*term.Model {
	for len(s.evs) < n {
		i := len(s.evs)
		salt := uint64(i)*0x9e3779b97f4a7c15 + 12345
		md := &term.Model{V: map[int32]uint64{}, Salt: salt}
		md.Def = func(t *term.Term) uint64 {
			x := uint64(t.ID)*0xbf58476d1ce4e5b9 + salt
			x ^= x >> 31
			x *= 0x94d049bb133111eb
			x ^= x >> 29
			x *= 0xbf58476d1ce4e5b9
			x ^= x >> 32
			switch i {
			case 0:
				return 0
			case 1:
				return ^uint64(0)
			}
			return x
		}
		s.evs = append(s.evs, md)
	}
	return s.evs[:n]
}

// prove brings cond to normal form. It returns whether it is true for all inputs,
// and a model when one was found that breaks it.
func (s *sweeper) prove(cond *term.Term) (bool, *term.Model) {
	done := map[int32]bool{}
	for id := range s.tf {
		done[id] = true
	}
	nodes := term.Collect([]*term.Term{cond}, done)
	const N = 24
	vals := make([][N]uint64, len(nodes))
	for k, md := range s.models(N) {
		ev := s.c.NewEval(md)
		if ev.Eval(cond) == 0 && s.onPath(md) {
			return false, md
		}
		ev = s.c.NewEval(md)
		for i, t := range nodes {
			if t.W > 0 {
				vals[i][k] = ev.Eval(t)
			}
		}
	}
	// words with equal samples are compared when all of them have been reached, and
	// shared exclusive-or chains are given a name then, so that forms stay short
	type class struct {
		mem  []*term.Term
		left int
	}
	cls := map[string]*class{}
	of := map[int32]*class{}
	idx := map[int32]int{}
	for i, t := range nodes {
		idx[t.ID] = i
		if t.W <= 1 || t.Op == term.Var || t.Op == term.Const || t.Op == term.Extract || t.Op == term.Concat {
			continue
		}
		v := vals[i]
		cm := v[N-1]&1 == 1
		if cm {
			for k := range v {
				v[k] = ^v[k] & term.Mask(t.W)
			}
		}
		key := fmt.Sprint(t.W, v)
		s.sig[t.ID], s.comp[t.ID] = key, cm
		c := cls[key]
		if c == nil {
			c = &class{}
			cls[key] = c
		}
		c.mem = append(c.mem, t)
		c.left++
		of[t.ID] = c
	}
	wait := make([]int, len(nodes)) // arguments not yet final
	users := map[int32][]int{}
	var ready []int
	for i, t := range nodes {
		for _, x := range t.Args {
			if _, in := idx[x.ID]; in {
				wait[i]++
				users[x.ID] = append(users[x.ID], i)
			}
		}
		if wait[i] == 0 {
			ready = append(ready, i)
		}
	}
	final := map[int32]bool{}
	finish := func(t *term.Term) {
		if final[t.ID] {
			return
		}
		final[t.ID] = true
		for _, u := range users[t.ID] {
			if wait[u]--; wait[u] == 0 {
				ready = append(ready, u)
			}
		}
	}
	var broken *term.Model
	settle := func(c *class) {
		var have []*term.Term
		for _, t := range c.mem {
			if s.tf[t.ID] != nil && !final[t.ID] {
				have = append(have, t)
			}
		}
		if len(have) == 0 {
			return
		}
		key := s.sig[have[0].ID]
		rp, ok := s.rep[key]
		if !ok {
			rp = have[0]
			s.rep[key] = rp
		}
		var eq []*term.Term
		for _, t := range have {
			if t == rp {
				continue
			}
			if b := s.tf[t.ID]; s.tryEq(t, b, rp) {
				eq = append(eq, t)
			} else if s.lastMd != nil && broken == nil {
				if ev := s.c.NewEval(s.lastMd); ev.Eval(cond) == 0 && s.onPath(s.lastMd) {
					broken = s.lastMd
				}
			}
		}
		if len(eq) > 0 && !final[rp.ID] {
			if nb := s.shorten(rp); nb != nil {
				s.tf[rp.ID] = nb
			}
		}
		for _, t := range eq {
			s.tf[t.ID] = s.relative(rp, t)
		}
		for _, t := range have {
			finish(t)
		}
	}
	count := 0
	for count < len(nodes) {
		if len(ready) == 0 {
			// mutually dependent classes: settle what is there of the earliest
			for _, t := range nodes {
				if c := of[t.ID]; c != nil && s.tf[t.ID] != nil && !final[t.ID] {
					settle(c)
					break
				}
			}
			if len(ready) == 0 {
				break
			}
		}
		i := ready[0]
		ready = ready[1:]
		count++
		t := nodes[i]
		if t.W == 0 {
			finish(t)
			continue
		}
		s.tf[t.ID] = s.bits(t)
		c := of[t.ID]
		if _, k := s.constOf(s.tf[t.ID]); c == nil || k {
			if c != nil {
				c.left--
				if c.left <= 0 {
					settle(c)
				}
			}
			finish(t)
			continue
		}
		if c.left--; c.left <= 0 {
			settle(c)
			finish(t)
		}
		if broken != nil {
			return false, broken
		}
	}
	if s.tf[cond.ID] == nil {
		return false, nil
	}
	f := s.tf[cond.ID][0]
	if zDebug {
		fmt.Printf("  sweep: %d nodes, %d forms, merged %d, distinct %d, result %v\n", len(nodes), len(s.forms), s.stats.merged, s.stats.failed, f == 1)
	}
	return f == 1, nil
}

// relative gives the bits of t from those of the representative it was merged with.
func (s *sweeper) relative(rp, t *term.Term) []int32 {
	rb := s.tf[rp.ID]
	if s.comp[rp.ID] == s.comp[t.ID] {
		return rb
	}
	n := make([]int32, len(rb))
	for k := range rb {
		n[k] = s.xor(rb[k], 1)
	}
	return n
}

// tryEq decides whether t is the representative or its complement.
func (s *sweeper) tryEq(t *term.Term, b []int32, rp *term.Term) bool {
	s.lastMd = nil
	if sameBits(b, s.relative(rp, t)) {
		return true
	}
	r := rp
	if s.comp[rp.ID] != s.comp[t.ID] {
		r = s.c.Not(rp)
		if s.tf[r.ID] == nil {
			s.tf[r.ID] = s.relative(rp, t)
		}
	}
	eq, md := s.local(t, r)
	if eq {
		s.stats.merged++
	} else {
		s.stats.failed++
		s.lastMd = md
	}
	return eq
}

// shorten names the bits of a shared word when its form has products or is long.
func (s *sweeper) shorten(t *term.Term) []int32 {
	b := s.tf[t.ID]
	cut := false
	for _, f := range b {
		n, nl := 0, false
		for _, m := range s.forms[f] {
			for _, a := range s.monos[m] {
				n++
				nl = nl || s.nonlin[a]
			}
		}
		if n > 3 && nl || n > 600 {
			cut = true
			break
		}
	}
	if !cut {
		return nil
	}
	w := s.word(b)
	r := make([]int32, len(b))
	for i, f := range b {
		if f <= 1 {
			r[i] = f
			continue
		}
		k := s.atom(fmt.Sprintf("c%d/%d", w, i))
		if t.Op != term.Xor {
			s.nonlin[s.monos[s.forms[k][0]][0]] = true
		}
		r[i] = k
	}
	return r
}

func (s *sweeper) onPath(md *term.Model) bool {
	ev := s.c.NewEval(md)
	for _, p := range s.m.PC {
		if ev.Eval(p) != 1 {
			return false
		}
	}
	return true
}

// canon returns the first term with the bits of t.
func (s *sweeper) canon(t *term.Term) *term.Term {
	if t.W <= 1 || t.Op == term.Const || t.Op == term.Var || s.tf[t.ID] == nil {
		return t
	}
	w := s.word(s.tf[t.ID])
	if r := s.wt[w]; r != nil && r.ID <= t.ID {
		return r
	}
	s.wt[w] = t
	return t
}

// local decides a = b on cuts of increasing depth; a model over the inputs is
// returned when the cut reaches them.
func (s *sweeper) local(a, b *term.Term) (bool, *term.Model) {
	if s.start.IsZero() {
		s.start = time.Now()
	}
	for _, d := range []int{3, 6, 10, 1000} {
		if time.Since(s.start) > 200*time.Second {
			return false, nil
		}
		depth := map[int32]int{}
		var q []*term.Term
		push := func(t *term.Term, k int) {
			if k < d {
				t = s.canon(t)
			}
			if o, ok := depth[t.ID]; !ok || o < k {
				depth[t.ID] = k
				q = append(q, t)
			}
		}
		push(a, d)
		push(b, d)
		for len(q) > 0 && len(depth) < 4000 {
			t := q[0]
			q = q[1:]
			k := depth[t.ID]
			if t.Op == term.Extract || t.Op == term.Concat || t.Op == term.Not {
				k++ // free
			}
			if k <= 0 {
				continue
			}
			for _, x := range t.Args {
				push(x, k-1)
			}
		}
		if len(q) > 0 {
			return false, nil
		}
		cut := map[int32]*term.Term{}
		full := true
		memo := map[int32]*term.Term{}
		var build func(t *term.Term) *term.Term
		build = func(t *term.Term) *term.Term {
			if t != a && t != b {
				t = s.canon(t)
			}
			if x, ok := memo[t.ID]; ok {
				return x
			}
			var r *term.Term
			if depth[t.ID] <= 0 && t.Op != term.Const && t.Op != term.Var && t.Op != term.Extract && t.Op != term.Concat && t.Op != term.Not {
				full = false
				bits := s.tf[t.ID]
				if v, ok := s.constOf(bits); ok && t.W > 0 {
					r = s.c.Const(v, t.W)
				} else {
					w := int32(-t.ID)
					if t.W > 0 {
						w = s.word(bits)
					}
					if r = cut[w]; r == nil {
						r = s.c.Var(fmt.Sprintf("cut%d", w), t.W)
						cut[w] = r
					}
				}
			} else {
				args := make([]*term.Term, len(t.Args))
				for i, x := range t.Args {
					args[i] = build(x)
				}
				r = s.c.Rebuild(t, args)
			}
			memo[t.ID] = r
			return r
		}
		ne := s.c.Not(s.c.Eq(build(a), build(b)))
		r, md := smt.Unsat, (*term.Model)(nil)
		if !ne.IsFalse() {
			r, md = s.m.session().Check([]*term.Term{ne}, 3*time.Second, true)
		}
		if zDebug && os.Getenv("VERIF_ZDEBUG") == "2" {
			fmt.Printf("   local %d %v = %d %v depth %d full=%v: %v\n", a.ID, a.Op, b.ID, b.Op, d, full, r)
		}
		switch r {
		case smt.Unsat:
			return true, nil
		case smt.Sat:
			if full {
				return false, md
			}
		default:
			return false, nil
		}
	}
	return false, nil
}
