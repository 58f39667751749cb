package sym

import (
	"fmt"
	"math/rand"

	"verifengine/smt"
	"verifengine/term"
)

// Candidate inputs for large assertions: assignments that reach the path, and that
// flip conditions which sampled inputs leave constant. The solver is asked first;
// where the condition is too large for it, values are propagated backwards from the
// condition to the variables.

type backProp struct {
	m   *Machine
	v   map[int32]uint64
	rng *rand.Rand
	def func(t *term.Term) uint64
}

func (b *backProp) model() *term.Model {
	return &term.Model{V: b.v, Def: b.def}
}

// down tries to make t evaluate to v by changing one variable or a few.
func (b *backProp) down(t *term.Term, v uint64, depth int) bool {
	mask := term.Mask(t.W)
	v &= mask
	if t.W > 0 && t.Last() == v {
		return true
	}
	if depth > 4000 {
		return false
	}
	depth++
	a := func(i int) *term.Term { return t.Args[i] }
	pick := func() int {
		if a(0).IsConst() {
			return 1
		}
		if a(1).IsConst() {
			return 0
		}
		return b.rng.Intn(2)
	}
	switch t.Op {
	case term.Var:
		b.v[t.ID] = v
		return true
	case term.Not:
		return b.down(a(0), ^v, depth)
	case term.Xor:
		i := pick()
		return b.down(a(i), v^a(1-i).Last(), depth)
	case term.Add:
		i := pick()
		return b.down(a(i), v-a(1-i).Last(), depth)
	case term.Adc:
		i := pick()
		return b.down(a(i), v-a(1-i).Last()-a(2).Last(), depth)
	case term.Sub, term.Sbb:
		c := uint64(0)
		if t.Op == term.Sbb {
			c = a(2).Last()
		}
		if pick() == 0 {
			return b.down(a(0), v+a(1).Last()+c, depth)
		}
		return b.down(a(1), a(0).Last()-v-c, depth)
	case term.Mul:
		i := pick()
		k := a(1 - i).Last()
		if k&1 == 0 {
			return false
		}
		inv := k
		for j := 0; j < 6; j++ {
			inv *= 2 - k*inv
		}
		return b.down(a(i), v*inv, depth)
	case term.And, term.Or:
		p, q := a(0), a(1)
		x, y := p.Last(), q.Last()
		if t.Op == term.Or {
			x, y, v = ^x, ^y, ^v
		}
		flip := uint64(0)
		if t.Op == term.Or {
			flip = ^uint64(0)
		}
		v &= mask
		if v&^y&mask != 0 && v&^x&mask != 0 || p.IsConst() == false && q.IsConst() == false && v&^y&mask != 0 {
			return !p.IsConst() && !q.IsConst() && b.down(p, (v|x&b.rng.Uint64()&^y)^flip, depth) && b.down(q, (v|y&^x)^flip, depth)
		}
		if pick() == 1 {
			p, q, x, y = q, p, y, x
		}
		if v&^y&mask != 0 {
			return false
		}
		return b.down(p, (v|x&^y)^flip, depth)
	case term.Shl, term.Lshr:
		if !a(1).IsConst() || a(1).K >= uint64(t.W) {
			return false
		}
		k := a(1).K
		if t.Op == term.Shl {
			return b.down(a(0), v>>k|a(0).Last()&^(mask>>k), depth)
		}
		return b.down(a(0), v<<k|a(0).Last()&(1<<k-1), depth)
	case term.Extract:
		keep := a(0).Last() &^ (mask << t.K)
		return b.down(a(0), keep|v<<t.K, depth)
	case term.Concat:
		lw := a(1).W
		return b.down(a(0), v>>lw, depth) && b.down(a(1), v&term.Mask(lw), depth)
	case term.SExt:
		return b.down(a(0), v&term.Mask(a(0).W), depth)
	case term.Eq:
		if a(0).W == 0 {
			return false
		}
		i := pick()
		w := a(1 - i).Last()
		if v == 0 {
			w ^= 1 << uint(b.rng.Intn(int(a(0).W)))
		}
		return b.down(a(i), w, depth)
	case term.Ult, term.Slt:
		sg := uint64(0)
		m := term.Mask(a(0).W)
		if t.Op == term.Slt {
			sg = 1 << (a(0).W - 1)
		}
		x, y := a(0).Last()^sg, a(1).Last()^sg
		if v == 0 { // y <= x
			if pick() == 0 {
				n := m - y
				r := uint64(0)
				if n > 0 {
					r = b.rng.Uint64() % n
				}
				return b.down(a(0), (y+r)^sg, depth)
			}
			r := x
			if x < ^uint64(0) {
				r = b.rng.Uint64() % (x + 1)
			}
			return b.down(a(1), r^sg, depth)
		}
		if pick() == 0 {
			if y == 0 {
				return false
			}
			return b.down(a(0), (b.rng.Uint64()%y)^sg, depth)
		}
		if x == m {
			return false
		}
		return b.down(a(1), (x+1+b.rng.Uint64()%(m-x))^sg, depth)
	case term.Ite:
		if b.rng.Intn(8) == 0 {
			return b.down(a(0), a(0).Last()^1, depth)
		}
		if a(0).Last() == 1 {
			return b.down(a(1), v, depth)
		}
		return b.down(a(2), v, depth)
	case term.Tab:
		d := b.m.C.Tables[t.K].Data
		s := b.rng.Intn(len(d) + 1)
		for i := range d {
			if k := (i + s) % len(d); d[k] == v {
				return b.down(a(0), uint64(k), depth)
			}
		}
	}
	return false
}

// solve looks for an assignment satisfying the goals, keeping base where it can.
func (b *backProp) solve(goals []*term.Term, rounds int) *term.Model {
	for r := 0; r < rounds; r++ {
		ev := b.m.C.NewEval(b.model())
		var bad []*term.Term
		for _, g := range goals {
			if ev.Eval(g) != 1 {
				bad = append(bad, g)
			}
		}
		if len(bad) == 0 {
			v := map[int32]uint64{}
			for k, x := range b.v {
				v[k] = x
			}
			return &term.Model{V: v, Def: b.def}
		}
		for try := 0; try < 4; try++ {
			if b.down(bad[b.rng.Intn(len(bad))], 1, 0) {
				break
			}
		}
	}
	return nil
}

func randomDef(salt uint64) func(t *term.Term) uint64 {
	return func(t *term.Term) uint64 {
		x := (uint64(t.ID)+1)*0xbf58476d1ce4e5b9 + salt
		x ^= x >> 29
		x *= 0x94d049bb133111eb
		x ^= x >> 31
		x *= 0xbf58476d1ce4e5b9
		return x ^ x>>32
	}
}

// breaks reports a failure when md follows the path and breaks cond.
func (m *Machine) breaks(md *term.Model, cond *term.Term, label string) {
	ev := m.C.NewEval(md)
	if ev.Eval(cond) != 0 {
		return
	}
	for _, p := range m.PC {
		if ev.Eval(p) != 1 {
			return
		}
	}
	m.Failures = append(m.Failures, &Failure{Label: label, Kind: "assert", Values: m.modelInputs(md), Stack: m.stackString()})
	panic(pathEnd{"assert failed: " + label})
}

// tryPathModels looks for a failing input among inputs that reach this path.
func (m *Machine) tryPathModels(cond *term.Term, label string) {
	if len(m.PC) > 0 {
		r, md := m.session().Check(m.PC, m.opts.QuickTimeout, true)
		if r == smt.Sat && md != nil {
			for k := uint64(0); k < 8; k++ {
				v := &term.Model{V: md.V, Salt: md.Salt}
				if k > 0 {
					v.Def = randomDef(k)
				}
				m.breaks(v, cond, label)
			}
		}
	}
	// conditions inside the assertion that random inputs leave constant
	nodes := term.Collect([]*term.Term{cond}, map[int32]bool{})
	var rare []*term.Term
	const N = 24
	val := map[int32]int{}
	for k := uint64(0); k < N; k++ {
		ev := m.C.NewEval(&term.Model{Def: randomDef(k + 99), Salt: k})
		for _, t := range nodes {
			if t.W == 1 && t.Op != term.Const {
				val[t.ID] += int(ev.Eval(t))
			}
		}
	}
	for _, t := range nodes {
		if (t.Op == term.Eq || t.Op == term.Ult || t.Op == term.Slt || t.Op == term.AdcC || t.Op == term.SbbB) && t != cond {
			switch val[t.ID] {
			case 0:
				rare = append(rare, t)
			case N:
				rare = append(rare, m.C.Not(t))
			}
		}
	}
	if len(rare) > 200 {
		rare = rare[:200]
	}
	rare = append([]*term.Term{nil}, rare...)
	for i, t := range rare {
		goals := append([]*term.Term(nil), m.PC...)
		if t != nil {
			goals = append(goals, t)
		}
		n := 3
		if len(rare) > 30 {
			n = 1
		}
		for k := 0; k < n; k++ {
			b := &backProp{m: m, v: map[int32]uint64{}, rng: rand.New(rand.NewSource(int64(1000*i + k))), def: randomDef(uint64(7*i + k))}
			if md := b.solve(goals, 60); md != nil {
				m.breaks(md, cond, label)
			}
		}
	}
}

// candidates records inputs that follow the path so far, for a path that cannot be encoded
// further: the replay on the real code decides whether one of them breaks the property.
func (m *Machine) candidates(label string) {
	defer func() {
		if r := recover(); r != nil && debug {
			fmt.Println("candidates:", r)
		}
	}()
	if m.sess == nil {
		return
	}
	add := func(md *term.Model) {
		m.Failures = append(m.Failures, &Failure{Label: label, Kind: "candidate", Values: m.modelInputs(md)})
	}
	if m.fst != nil && len(m.fst.atoms) > 0 {
		for k := int64(0); k < 3; k++ {
			if q, md := m.fst.pathPoint(2900 + k); q != nil {
				add(md)
			}
		}
		return
	}
	base := &term.Model{}
	if len(m.PC) > 0 {
		r, md := m.session().Check(m.PC, m.opts.QuickTimeout, true)
		if r == smt.Unsat {
			return
		}
		if md != nil {
			base = md
		}
	}
	for k, n := uint64(0), 0; k < 12 && n < 3; k++ {
		v := &term.Model{V: base.V, Salt: base.Salt, Def: randomDef(k + 31)}
		if k%2 == 1 {
			b := &backProp{m: m, v: map[int32]uint64{}, rng: rand.New(rand.NewSource(int64(k))), def: randomDef(k)}
			if v = b.solve(append([]*term.Term(nil), m.PC...), 60); v == nil {
				continue
			}
		}
		ev, ok := m.C.NewEval(v), true
		for _, p := range m.PC {
			ok = ok && ev.Eval(p) == 1
		}
		if ok {
			n++
			add(v)
		}
	}
}
