package PKG

import . "github.com/henrydcase/nobs/dh/sidh/common"

// Tree traversal with formal points. A point is known by its place: the base point it
// comes from, the number of isogenies it went through and the number of multiplications
// by 4 (or 2, or 3). F04 decides the formulas, F05_ladder the ladder.

//verif:redirect ScalarMul3Pt vT_scalar
//verif:redirect CalcCurveParamsEquiv3 vT_equiv3
//verif:redirect CalcCurveParamsEquiv4 vT_equiv4
//verif:redirect Pow2k vT_pow2
//verif:redirect Pow3k vT_pow3
//verif:redirect isogeny3.GenerateCurve vT_gen3
//verif:redirect isogeny4.GenerateCurve vT_gen4
//verif:redirect isogeny3.EvaluatePoint vT_eval3
//verif:redirect isogeny4.EvaluatePoint vT_eval4
//verif:redirect RecoverCoordinateA vT_recA
//verif:redirect RecoverCurveCoefficients3 vT_rec3
//verif:redirect RecoverCurveCoefficients4 vT_rec4
//verif:redirect Jinvariant vT_jinv

type vTpoint struct {
	x, z             vE
	base, level, exp int
}

type vTtree struct {
	l, e       int // isogenies of degree l (4 or 3), e of them
	u, v       vE
	un, vn     vE
	pts        []vTpoint
	prv        []byte
	nbits      uint
	p, q, d    Fp2
	curve      ProjectiveCurveParameters
	equiv, phi []Fp2
	rec        ProjectiveCurveParameters
	j          Fp2
	pub        *[3]Fp2
}

var vT vTtree

func vT_start(l, e int, prv []byte, nbits uint) {
	vT = vTtree{l: l, e: e, prv: prv, nbits: nbits}
	vT.u, vT.v = vEl("u"), vEl("v")
	vT.un, vT.vn = vT.u, vT.v
	vT.curve = params.InitCurve
}

// the next formal element
func vT_new() (vE, vE) {
	vT.un, vT.vn = vT.un.mul(vT.u), vT.vn.mul(vT.v)
	return vT.un, vT.vn
}

func vT_add(base, level, exp int) int {
	x, z := vT_new()
	vT.pts = append(vT.pts, vTpoint{x, z, base, level, exp})
	return len(vT.pts) - 1
}

func vT_same(a, b *Fp2) bool {
	return vFSame(a.A[:vN], b.A[:vN]) && a.B == b.B
}

func vT_find(p *ProjectivePoint) *vTpoint {
	for i := len(vT.pts) - 1; i >= 0; i-- {
		t := &vT.pts[i]
		if vFSame(p.X.A[:vN], t.x.a) && vFSame(p.Z.A[:vN], t.z.a) {
			x, z := t.x.fp2(), t.z.fp2()
			vAssert(p.X.B == x.B && p.Z.B == z.B, "both halves of the coordinates")
			return t
		}
	}
	vAssert(false, "a point of the traversal")
	return nil
}

func vT_at(base, level, exp int) (p ProjectivePoint) {
	for i := len(vT.pts) - 1; i >= 0; i-- {
		if t := &vT.pts[i]; t.base == base && t.level == level && t.exp == exp {
			return ProjectivePoint{X: t.x.fp2(), Z: t.z.fp2()}
		}
	}
	n := vT_add(base, level, exp)
	t := vT.pts[n]
	return ProjectivePoint{X: t.x.fp2(), Z: t.z.fp2()}
}

func vT_scalar(c *ProjectiveCurveParameters, P, Q, D *ProjectivePoint, n uint, k []uint8) ProjectivePoint {
	vAssert(*c == vT.curve, "curve of the kernel")
	vAssert(P.X == vT.p && Q.X == vT.q && D.X == vT.d, "basis of the kernel")
	vAssert(P.Z == params.OneFp2 && Q.Z == params.OneFp2 && D.Z == params.OneFp2, "basis of the kernel in affine form")
	vAssert(n == vT.nbits, "length of the secret")
	for i := 0; i < int(n+7)/8; i++ {
		vAssert(k[i] == vT.prv[i], "secret used for the kernel")
	}
	return vT_at(0, 0, 0)
}

func vT_equiv(c *ProjectiveCurveParameters, level int) CurveCoefficientsEquiv {
	if c != nil {
		vAssert(*c == vT.curve, "first curve of the traversal")
	}
	for len(vT.equiv) <= 2*level {
		x, z := vT_new()
		vT.equiv = append(vT.equiv, x.fp2(), z.fp2())
	}
	return CurveCoefficientsEquiv{A: vT.equiv[2*level], C: vT.equiv[2*level+1]}
}
func vT_equiv3(c *ProjectiveCurveParameters) CurveCoefficientsEquiv {
	vAssert(vT.l == 3, "coefficients for tripling")
	return vT_equiv(c, 0)
}
func vT_equiv4(c *ProjectiveCurveParameters) CurveCoefficientsEquiv {
	vAssert(vT.l == 4, "coefficients for doubling")
	return vT_equiv(c, 0)
}

func vT_pow(p *ProjectivePoint, c *CurveCoefficientsEquiv, k int) {
	if k == 0 {
		return
	}
	t := *vT_find(p)
	e := vT_equiv(nil, t.level)
	vAssert(vT_same(&c.A, &e.A) && vT_same(&c.C, &e.C), "curve of the multiplied point")
	*p = vT_at(t.base, t.level, t.exp+k)
}
func vT_pow2(p *ProjectivePoint, c *CurveCoefficientsEquiv, k uint32) {
	vAssert(vT.l == 4, "multiplication by 2")
	vT_pow(p, c, int(k))
}
func vT_pow3(p *ProjectivePoint, c *CurveCoefficientsEquiv, k uint32) {
	vAssert(vT.l == 3, "multiplication by 3")
	vT_pow(p, c, int(k))
}

// vT_gen: the kernel of step number i is the image of the secret point, multiplied
// down to order l.
func vT_gen(l int, p *ProjectivePoint) (Fp2, CurveCoefficientsEquiv) {
	vAssert(vT.l == l, "degree of the isogeny")
	t := *vT_find(p)
	n := vT.e - 1 - t.level
	if l == 4 {
		n *= 2
	}
	vAssert(t.base == 0 && t.level < vT.e && t.exp == n, "kernel of the degree")
	for len(vT.phi) <= t.level {
		x, _ := vT_new()
		vT.phi = append(vT.phi, x.fp2())
	}
	return vT.phi[t.level], vT_equiv(nil, t.level+1)
}
func vT_gen3(phi *isogeny3, p *ProjectivePoint) CurveCoefficientsEquiv {
	k, e := vT_gen(3, p)
	phi.K1, phi.K2 = k, k
	return e
}
func vT_gen4(phi *isogeny4, p *ProjectivePoint) CurveCoefficientsEquiv {
	k, e := vT_gen(4, p)
	phi.K1, phi.K2, phi.K3 = k, k, k
	return e
}

func vT_eval(k *Fp2, p *ProjectivePoint) ProjectivePoint {
	t := *vT_find(p)
	ok := t.level < len(vT.phi) && vT_same(k, &vT.phi[t.level])
	vAssert(ok, "isogeny from the curve of the point")
	return vT_at(t.base, t.level+1, t.exp)
}
func vT_eval3(phi *isogeny3, p *ProjectivePoint) ProjectivePoint {
	vAssert(vT_same(&phi.K1, &phi.K2), "one isogeny")
	return vT_eval(&phi.K1, p)
}
func vT_eval4(phi *isogeny4, p *ProjectivePoint) ProjectivePoint {
	vAssert(vT_same(&phi.K1, &phi.K2) && vT_same(&phi.K1, &phi.K3), "one isogeny")
	return vT_eval(&phi.K1, p)
}

func vT_recA(c *ProjectiveCurveParameters, p, q, r *Fp2) {
	vAssert(*p == vT.pub[0] && *q == vT.pub[1] && *r == vT.pub[2], "public key of the curve")
	c.A = vT.curve.A
}
func vT_last(c *CurveCoefficientsEquiv) {
	e := vT_equiv(nil, vT.e)
	vAssert(vT_same(&c.A, &e.A) && vT_same(&c.C, &e.C), "last curve")
}
func vT_rec3(c *ProjectiveCurveParameters, e *CurveCoefficientsEquiv) {
	vAssert(vT.l == 3, "coefficients from (A+2C:A-2C)")
	vT_last(e)
	*c = vT.rec
}
func vT_rec4(c *ProjectiveCurveParameters, e *CurveCoefficientsEquiv) {
	vAssert(vT.l == 4, "coefficients from (A+2C:4C)")
	vT_last(e)
	*c = vT.rec
}
func vT_jinv(c *ProjectiveCurveParameters, j *Fp2) {
	vAssert(*c == vT.rec, "last curve")
	*j = vT.j
}

func vT_secret(bits int) []byte {
	k := vBytes("k", (bits+7)/8)
	if bits%8 != 0 {
		k[len(k)-1] &= 1<<uint(bits%8) - 1
	}
	return k
}

func vT_pubgen(side int) {
	vStart()
	l, e, bits, own, other := 4, XE2/2, XE2, params.A, params.B
	if side == 1 {
		l, e, bits, own, other = 3, XE3, XBITSB, params.B, params.A
	}
	k := vT_secret(bits)
	s := append([]byte{}, k...)
	var pub [3]Fp2
	if vSym() {
		vT_start(l, e, k, uint(bits))
		vT.p, vT.q, vT.d = own.AffineP, own.AffineQ, own.AffineR
		// the points pushed through are known by their first coordinates
		in := []Fp2{other.AffineP, other.AffineQ, other.AffineR}
		for i := range in {
			vT.pts = append(vT.pts, vTpoint{vOf(&in[i]), vOf(&params.OneFp2), 1 + i, 0, 0})
		}
	}
	if side == 0 {
		PublicKeyGenA(&pub, s)
	} else {
		PublicKeyGenB(&pub, s)
	}
	vAssertBytes(s, k, "secret unchanged")
	if vSym() {
		for i := 0; i < 3; i++ {
			p := vT_at(1+i, e, 0)
			vEqE("public key", &pub[i], vOf(&p.X).mul(vOf(&p.Z).inv()))
		}
	} else {
		a := vOf(&params.InitCurve.A)
		_, im := vNaive(l, e, a, own.AffineP, own.AffineQ, own.AffineR, k, bits, []Fp2{other.AffineP, other.AffineQ, other.AffineR})
		for i := range im {
			vEqE("public key", &pub[i], im[i])
		}
	}
	vReach("public key")
}

func F05_pubA() { vT_pubgen(0) }
func F05_pubB() { vT_pubgen(1) }

func vT_derive(side int) {
	vStart()
	l, e, bits := 4, XE2/2, XE2
	if side == 1 {
		l, e, bits = 3, XE3, XBITSB
	}
	k := vT_secret(bits)
	s := append([]byte{}, k...)
	ss, want := make([]byte, 2*params.Bytelen), make([]byte, 2*params.Bytelen)
	var pub [3]Fp2
	if vSym() {
		vT_start(l, e, k, uint(bits))
		for i := range pub {
			pub[i] = vEl("pub").fp2()
		}
		ref := pub
		vT.pub = &ref
		vT.p, vT.q, vT.d = pub[0], pub[1], pub[2]
		vT.curve.A = vEl("A").fp2()
		vT.rec = ProjectiveCurveParameters{A: vEl("rec").fp2(), C: vEl("rec").fp2()}
		for i := 0; i < vN; i++ {
			vT.j.A[i], vT.j.B[i] = vU64("j"), vU64("j")
		}
		J := vT.j
		FromMontgomery(&J, &J)
		Fp2ToBytes(want, &J, params.Bytelen)
	} else {
		// a public key of the other side
		ol, oe, ob, own, oth := 3, XE3, XBITSB, params.B, params.A
		if side == 1 {
			ol, oe, ob, own, oth = 4, XE2/2, XE2, params.A, params.B
		}
		o := make([]byte, (ob+7)/8)
		for i := range o {
			o[i] = byte(37*i + 11)
		}
		_, im := vNaive(ol, oe, vOf(&params.InitCurve.A), own.AffineP, own.AffineQ, own.AffineR, o, ob, []Fp2{oth.AffineP, oth.AffineQ, oth.AffineR})
		for i := range im {
			pub[i] = im[i].fp2()
		}
		// the curve through the three points
		p, q, r := im[0], im[1], im[2]
		n := vK(1).sub(p.mul(q)).sub(p.mul(r)).sub(q.mul(r))
		a := n.sq().mul(p.mul(q).mul(r).k(4).inv()).sub(p).sub(q).sub(r)
		b, _ := vNaive(l, e, a, pub[0], pub[1], pub[2], k, bits, nil)
		n = b.sq().sub(vK(3))
		J := n.mul(n.sq()).k(256).mul(b.sq().sub(vK(4)).inv()).fp2()
		FromMontgomery(&J, &J)
		Fp2ToBytes(want, &J, params.Bytelen)
	}
	kept := pub
	if side == 0 {
		DeriveSecretA(ss, s, &pub)
	} else {
		DeriveSecretB(ss, s, &pub)
	}
	vAssertBytes(s, k, "secret unchanged")
	vAssert(pub == kept, "public key unchanged")
	vAssertBytes(ss, want, "shared secret is the j-invariant of the last curve")
	vReach("derive")
}

func F05_deriveA() { vT_derive(0) }
func F05_deriveB() { vT_derive(1) }

// vNaive walks e isogenies of degree l from the curve a, the kernel generated by P+[k]Q,
// recomputing each kernel by multiplication. It returns the last coefficient and the images.
func vNaive(l, e int, a vE, P, Q, D Fp2, k []byte, bits int, pts []Fp2) (vE, []vE) {
	w := make([]uint64, (bits+63)/64)
	for i := 0; i < bits; i++ {
		w[i/64] |= uint64(k[i/8]>>uint(i%8)&1) << uint(i%64)
	}
	o := vK(1)
	rx, rz := vLadder(a, o, vOf(&P), vOf(&Q), vOf(&D), w, bits)
	r := rx.mul(rz.inv())
	in := [][]uint64{a.a, a.b, r.a, r.b}
	for i := range pts {
		v := vOf(&pts[i])
		in = append(in, v.a, v.b)
	}
	v := vF2Walk(l, e, in...)
	var im []vE
	for i := 2; i < len(v); i += 2 {
		im = append(im, vE{v[i], v[i+1]})
	}
	return vE{v[0], v[1]}, im
}
