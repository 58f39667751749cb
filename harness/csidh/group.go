package csidh

import "io"

// Abstract group for the control code around the curve arithmetic. A point is
// represented by the set of primes (bits 0..73) by which the random point it comes
// from has been multiplied (or which an isogeny removed), a flag for the factor 4,
// the round it was drawn in and the curve it lies on; its z word is zero exactly
// when it is the point at infinity. The arithmetic itself is decided by F06-F08.

//verif:redirect fpRngGen.randFp stubRandFp
//verif:redirect xMul stubXMul
//verif:redirect xDbl stubXDbl
//verif:redirect xIso stubXIso
//verif:redirect montEval stubMontEval
//verif:redirect fp.isNonQuadRes stubNonQuadRes
//verif:redirect modExpRdc512 stubModExp
//verif:redirect mulRdc stubMulRdc

const (
	tagPoint = 0x706f696e74000000
	tagA     = 0x4141410000000000
	tagC     = 0x4343430000000000
	tagInv   = 0x1111110000000000
	tagRhs   = 0x7268730000000000
)

type vGroup struct {
	ordinary bool          // [p+1]P is never infinity
	miss     [][]bool      // per round: primes missing from the order of the drawn point
	sign     []int         // per round: 0 = point on the curve, 1 = on the twist
	round    int           // points drawn so far
	startA   fp            // coefficient of the first curve
	curve    uint64        // isogenies applied so far
	normed   bool          // the current coefficient has been normalised
	cnt      [2][primeCount]int
	bad      string
}

var vG *vGroup

func (g *vGroup) fail(s string) {
	if g.bad == "" {
		g.bad = s
	}
}

func vPointOf(mask0, mask1, four, round, curve uint64) fp {
	return fp{tagPoint, mask0, mask1, four, round, curve}
}

func stubRandFp(s *fpRngGen, v *fp, rng io.Reader) {
	vG.round++
	if vG.round > len(vG.miss) {
		vAssume(false) // bound on the number of random points
	}
	*v = vPointOf(0, 0, 0, uint64(vG.round), vG.curve)
}

// coefficient of the current curve in affine form
func (g *vGroup) a() fp {
	if g.curve == 0 {
		return g.startA
	}
	return fp{tagA, g.curve, 1}
}

func (g *vGroup) checkCoeff(a, c *fp) {
	// the coefficient may be projective (an isogeny's result) or normalised
	if g.curve > 0 && a[0] == tagA && a[1] == g.curve && a[2] == 0 && c[0] == tagC && c[1] == g.curve {
		return
	}
	if *a != g.a() || *c != one {
		g.fail("arithmetic on a curve other than the current one")
	}
}

func vRem(k *fp, l uint64) uint64 {
	n := 7
	for n > 0 && k[n] == 0 {
		n--
	}
	var r uint64
	for i := n; i >= 0; i-- {
		r = (r<<32 | k[i]>>32) % l
		r = (r<<32 | k[i]&0xffffffff) % l
	}
	return r
}

// vZ is the z word of the point with the given history.
func (g *vGroup) vZ(m0, m1, four, round uint64) fp {
	if g.ordinary || four < 2 {
		return fp{1}
	}
	miss := g.miss[round-1]
	var nz uint64
	for i := 0; i < primeCount; i++ {
		var hit uint64
		if i < 64 {
			hit = m0 >> uint(i) & 1
		} else {
			hit = m1 >> uint(i-64) & 1
		}
		if hit == 0 {
			nz |= vNotBit(miss[i])
		}
	}
	return fp{nz}
}

// vNotBit is 1 for false; no branch on the symbolic flag
func vNotBit(b bool) uint64 {
	return vBit[b]
}

var vBit = map[bool]uint64{}

func (g *vGroup) mulPoint(kP, P *point, m0, m1, two uint64) {
	if P.x[0] != tagPoint {
		g.fail("arithmetic on something that is not a point")
		return
	}
	if P.x[5] != g.curve {
		g.fail("point and curve do not belong together")
	}
	f := P.x[3] + two
	m0 |= P.x[1]
	m1 |= P.x[2]
	r := P.x[4]
	kP.x = vPointOf(m0, m1, f, r, g.curve)
	kP.z = g.vZ(m0, m1, f, r)
}

func stubXMul(kP, P *point, co *coeff, k *fp) {
	vG.checkCoeff(&co.a, &co.c)
	var m0, m1, two uint64
	if *k == (fp{}) {
		vG.fail("multiplication by zero")
		return
	}
	for i := 0; i < primeCount; i++ {
		if vRem(k, primes[i]) == 0 {
			if i < 64 {
				m0 |= 1 << uint(i)
			} else {
				m1 |= 1 << uint(i-64)
			}
		}
	}
	if k[0]&1 == 0 {
		two = 1
		if k[0]&3 == 0 {
			two = 2
		}
	}
	vG.mulPoint(kP, P, m0, m1, two)
}

func stubXDbl(Q, P, A *point) {
	vG.checkCoeff(&A.x, &A.z)
	vG.mulPoint(Q, P, 0, 0, 1)
}

func stubMontEval(res, A, x *fp) {
	if *A != vG.a() {
		vG.fail("curve equation evaluated on a stale coefficient")
	}
	*res = fp{tagRhs, x[4]}
}

func stubNonQuadRes(v *fp) int {
	if v[0] != tagRhs {
		vG.fail("quadratic residue test of something else")
		return 0
	}
	return vG.sign[v[1]-1]
}

// order of P is exactly l once its history is taken into account
func (g *vGroup) exact(P *point, i int) bool {
	miss := g.miss[P.x[4]-1]
	if P.x[0] != tagPoint || P.x[5] != g.curve || P.x[3] < 2 {
		return false
	}
	for j := 0; j < primeCount; j++ {
		var hit uint64
		if j < 64 {
			hit = P.x[1] >> uint(j) & 1
		} else {
			hit = P.x[2] >> uint(j-64) & 1
		}
		if j == i {
			if hit != 0 || miss[j] {
				return false
			}
		} else if hit == 0 && !miss[j] {
			return false
		}
	}
	return true
}

func stubXIso(img *point, co *coeff, kern *point, kernOrder uint64) {
	g := vG
	g.checkCoeff(&co.a, &co.c)
	i := -1
	for j, v := range primes {
		if v == kernOrder {
			i = j
		}
	}
	if i < 0 {
		g.fail("isogeny of a degree that is not one of the primes")
		return
	}
	if !g.exact(kern, i) {
		g.fail("isogeny kernel does not have the stated order")
		return
	}
	s := g.sign[kern.x[4]-1]
	g.cnt[s][i]++
	if img.x[0] != tagPoint || img.x[5] != g.curve {
		g.fail("isogeny evaluated on a point of another curve")
	}
	g.curve++
	if i < 64 {
		img.x[1] |= 1 << uint(i)
	} else {
		img.x[2] |= 1 << uint(i-64)
	}
	img.x[5] = g.curve
	img.z = g.vZ(img.x[1], img.x[2], img.x[3], img.x[4])
	co.a = fp{tagA, g.curve}
	co.c = fp{tagC, g.curve}
}

// inversion by Fermat: exponent p-2
func stubModExp(r, b, e *fp) {
	pm2 := p
	pm2[0] -= 2
	if *e != pm2 {
		vG.fail("exponent of the inversion is not p-2")
	}
	if *b == one {
		*r = one
		return
	}
	if b[0] != tagC {
		vG.fail("inverse of something other than the curve denominator")
	}
	*r = fp{tagInv, b[1]}
}

func stubMulRdc(r, x, y *fp) {
	if *y == one {
		*r = *x
		return
	}
	if x[0] == tagA && y[0] == tagInv && x[1] == y[1] && x[2] == 0 {
		*r = fp{tagA, x[1], 1}
		return
	}
	if y[0] == tagA && x[0] == tagInv && x[1] == y[1] && y[2] == 0 {
		*r = fp{tagA, x[1], 1}
		return
	}
	vG.fail("unexpected field multiplication in the group action")
}

// ---- real group, for replaying on the real build ----

// vNormX makes the point affine.
func vNormX(P *point) {
	var inv fp
	e := p
	e[0] -= 2
	modExpRdc512(&inv, &P.z, &e)
	mulRdc(&P.x, &P.x, &inv)
	P.z = one
}

// vRealPoint finds a point of the curve (or its twist) of order exactly the product of
// the primes not missing (the 2-part may vary).
func vRealPoint(a *fp, miss []bool, rng io.Reader) fp {
	co := coeff{a: *a, c: one}
	for {
		var P, T point
		var g fpRngGen
		g.randFp(&P.x, rng)
		P.z = one
		for i, m := range miss {
			if m {
				xMul(&P, &P, &co, &fp{primes[i]})
			}
		}
		if P.z.isZero() {
			continue
		}
		T = P
		xMul(&T, &T, &co, &fp{4})
		ok := true
		for i, m := range miss {
			if m {
				continue
			}
			Q := T
			for j, n := range miss {
				if j != i && !n && !Q.z.isZero() {
					xMul(&Q, &Q, &co, &fp{primes[j]})
				}
			}
			ok = ok && !Q.z.isZero()
			if !ok {
				break
			}
		}
		if !ok {
			continue
		}
		vNormX(&P)
		return P.x
	}
}

func vLE(v *fp) []byte {
	var o []byte
	for _, w := range v {
		for k := uint(0); k < 64; k += 8 {
			o = append(o, byte(w>>k))
		}
	}
	return o
}

// vNaiveAction: one isogeny at a time, each from a fresh full-order kernel.
func vNaiveAction(a fp, e []int, rng io.Reader) fp {
	for i, v := range e {
		s, n := 0, v
		if v < 0 {
			s, n = 1, -v
		}
		for n > 0 {
			var P point
			var rhs fp
			var g fpRngGen
			co := coeff{a: a, c: one}
			g.randFp(&P.x, rng)
			P.z = one
			montEval(&rhs, &a, &P.x)
			if rhs.isNonQuadRes() != s {
				continue
			}
			img := P
			k := fp{4}
			for j, l := range primes {
				if j != i {
					mul512(&k, &k, l)
				}
			}
			xMul(&P, &P, &co, &k)
			if P.z.isZero() {
				continue
			}
			xIso(&img, &co, &P, primes[i])
			t := point{x: co.a, z: co.c}
			vNormX(&t)
			a = t.x
			n--
		}
	}
	return a
}

func vInitGroup() { vBit[false], vBit[true] = 1, 0 }
