// Package poly has sparse multivariate polynomials over the integers.
package poly

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Factor is an atom with its exponent.
type Factor struct {
	Atom int32
	Exp  int32
}

// Space interns atoms and monomials. Monomial 0 is the empty product.
type Space struct {
	Monos [][]Factor
	idx   map[string]int32
	Bools []bool // per atom: idempotent
	Names []string
	prod  map[[2]int32]int32
}

func NewSpace() *Space {
	s := &Space{idx: map[string]int32{}, prod: map[[2]int32]int32{}}
	s.Monos = append(s.Monos, nil)
	s.idx[""] = 0
	return s
}

func (s *Space) NewAtom(name string, boolean bool) int32 {
	s.Names = append(s.Names, name)
	s.Bools = append(s.Bools, boolean)
	return int32(len(s.Names) - 1)
}

func key(fs []Factor) string {
	b := make([]byte, 0, len(fs)*8)
	for _, f := range fs {
		b = append(b, byte(f.Atom), byte(f.Atom>>8), byte(f.Atom>>16), byte(f.Atom>>24), byte(f.Exp), byte(f.Exp>>8), byte(f.Exp>>16), byte(f.Exp>>24))
	}
	return string(b)
}

func (s *Space) Mono(fs []Factor) int32 {
	k := key(fs)
	if i, ok := s.idx[k]; ok {
		return i
	}
	i := int32(len(s.Monos))
	s.Monos = append(s.Monos, fs)
	s.idx[k] = i
	return i
}

func (s *Space) mulMono(a, b int32) int32 {
	if a == 0 {
		return b
	}
	if b == 0 {
		return a
	}
	if a > b {
		a, b = b, a
	}
	k := [2]int32{a, b}
	if r, ok := s.prod[k]; ok {
		return r
	}
	x, y := s.Monos[a], s.Monos[b]
	out := make([]Factor, 0, len(x)+len(y))
	i, j := 0, 0
	for i < len(x) || j < len(y) {
		switch {
		case j >= len(y) || i < len(x) && x[i].Atom < y[j].Atom:
			out = append(out, x[i])
			i++
		case i >= len(x) || y[j].Atom < x[i].Atom:
			out = append(out, y[j])
			j++
		default:
			e := x[i].Exp + y[j].Exp
			if s.Bools[x[i].Atom] {
				e = 1
			}
			out = append(out, Factor{x[i].Atom, e})
			i++
			j++
		}
	}
	r := s.Mono(out)
	s.prod[k] = r
	return r
}

// Poly maps monomials to non-zero coefficients. Values are never modified in place.
type Poly map[int32]*big.Int

func Const(v *big.Int) Poly {
	if v.Sign() == 0 {
		return Poly{}
	}
	return Poly{0: new(big.Int).Set(v)}
}
func Int(v int64) Poly { return Const(big.NewInt(v)) }

func (s *Space) Atom(a int32) Poly {
	return Poly{s.Mono([]Factor{{a, 1}}): big.NewInt(1)}
}

func addTo(r Poly, k int32, v *big.Int) {
	if o, ok := r[k]; ok {
		n := new(big.Int).Add(o, v)
		if n.Sign() == 0 {
			delete(r, k)
		} else {
			r[k] = n
		}
	} else if v.Sign() != 0 {
		r[k] = v
	}
}

func (p Poly) Clone() Poly {
	r := make(Poly, len(p))
	for k, v := range p {
		r[k] = v
	}
	return r
}

func Add(a, b Poly) Poly {
	if len(a) < len(b) {
		a, b = b, a
	}
	r := a.Clone()
	for k, v := range b {
		addTo(r, k, v)
	}
	return r
}

func Sub(a, b Poly) Poly {
	r := a.Clone()
	for k, v := range b {
		addTo(r, k, new(big.Int).Neg(v))
	}
	return r
}

// AddMul returns a + c*b.
func AddMul(a Poly, c *big.Int, b Poly) Poly {
	r := a.Clone()
	if c.Sign() == 0 {
		return r
	}
	for k, v := range b {
		addTo(r, k, new(big.Int).Mul(v, c))
	}
	return r
}

func Scale(a Poly, c *big.Int) Poly { return AddMul(Poly{}, c, a) }

func (s *Space) Mul(a, b Poly) Poly {
	r := Poly{}
	for i, x := range a {
		for j, y := range b {
			addTo(r, s.mulMono(i, j), new(big.Int).Mul(x, y))
		}
	}
	return r
}

// MulMod multiplies with coefficients reduced modulo p.
func (s *Space) MulMod(a, b Poly, p *big.Int) Poly {
	r := make(map[int32]*big.Int, len(a)*2)
	t := new(big.Int)
	for i, x := range a {
		for j, y := range b {
			k := s.mulMono(i, j)
			t.Mul(x, y)
			if o, ok := r[k]; ok {
				o.Add(o, t)
			} else {
				r[k] = new(big.Int).Set(t)
			}
		}
	}
	return Poly(r).Mod(p)
}

// Mod reduces the coefficients into [0,p).
func (a Poly) Mod(p *big.Int) Poly {
	r := make(Poly, len(a))
	for k, v := range a {
		m := new(big.Int).Mod(v, p)
		if m.Sign() != 0 {
			r[k] = m
		}
	}
	return r
}

func (a Poly) IsZero() bool { return len(a) == 0 }

func (a Poly) ConstVal() (*big.Int, bool) {
	if len(a) == 0 {
		return big.NewInt(0), true
	}
	if len(a) == 1 {
		if v, ok := a[0]; ok {
			return v, true
		}
	}
	return nil, false
}

// Keys returns the monomials in order.
func (a Poly) Keys() []int32 {
	r := make([]int32, 0, len(a))
	for k := range a {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func (s *Space) String(a Poly) string {
	if len(a) == 0 {
		return "0"
	}
	var b []string
	for n, k := range a.Keys() {
		if n > 12 {
			b = append(b, fmt.Sprintf("... (%d terms)", len(a)))
			break
		}
		t := a[k].String()
		if len(t) > 24 {
			t = fmt.Sprintf("%s..(%d bits)", t[:8], a[k].BitLen())
		}
		for _, f := range s.Monos[k] {
			t += "*" + s.Names[f.Atom]
			if f.Exp > 1 {
				t += fmt.Sprintf("^%d", f.Exp)
			}
		}
		b = append(b, t)
	}
	return strings.Join(b, " + ")
}
