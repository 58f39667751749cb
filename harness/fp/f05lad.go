package PKG

import . "github.com/henrydcase/nobs/dh/sidh/common"

// The three-point ladder with points as products of powers of two elements P, Q: the
// point [a]P+[b]Q is P^a Q^b, up to sign. The formulas are decided by F04.

//verif:redirect xDbladd vL_dbladd
//verif:redirect CalcAplus2Over4 vL_a24
//verif:redirect cswap vL_cswap

type vG []uint64

func (x vG) mul(y vG) vG { return vFOp("mul", 1, x, y) }
func (x vG) inv() vG     { return vFOp("inv", 1, x) }

func vL_pt(g vG) (p ProjectivePoint) {
	for _, c := range []*Fp{&p.X.A, &p.X.B, &p.Z.A, &p.Z.B} {
		copy(c[:], g)
	}
	return
}

func vL_of(p *ProjectivePoint) vG {
	g := vG(p.X.A[:vN])
	for _, c := range []*Fp{&p.X.B, &p.Z.A, &p.Z.B} {
		vAssert(vFSame(g, c[:vN]), "coordinates of one point")
	}
	return g
}

var vLcurve ProjectiveCurveParameters
var vLa24 = Fp2{A: Fp{1}, B: Fp{2}}

func vL_a24(c *ProjectiveCurveParameters) Fp2 {
	vAssert(*c == vLcurve, "the curve of the points")
	return vLa24
}

func vL_dbladd(P, Q, D *ProjectivePoint, a24 *Fp2) (ProjectivePoint, ProjectivePoint) {
	vAssert(*a24 == vLa24, "the curve of the points")
	p, q, d := vL_of(P), vL_of(Q), vL_of(D)
	if !vFPM(p, q, d) {
		// the points are known up to sign
		q = q.inv()
		vAssert(vFPM(p, q, d), "difference of the points")
	}
	return vL_pt(p.mul(p)), vL_pt(p.mul(q))
}

func vL_cswap(x, z, u, v *Fp2, choice uint8) {
	vAssert(choice <= 1, "choice of a swap is 0 or 1")
	s := func(a, b *Fp) {
		m, n := vFSel(choice, b[:vN], a[:vN]), vFSel(choice, a[:vN], b[:vN])
		copy(a[:], m)
		copy(b[:], n)
	}
	s(&x.A, &u.A)
	s(&x.B, &u.B)
	s(&z.A, &v.A)
	s(&z.B, &v.B)
}

func F05_ladder() {
	vStart()
	lens := []uint{XE2, XBITSB, 1, 7, 8, 9, 64, 65}
	n := lens[vChoose("length", len(lens))]
	w := vWords("k", (XBITSB+63)/64)
	k := make([]byte, (n+7)/8)
	for i := range k {
		k[i] = byte(w[i/8] >> (8 * uint(i%8)))
	}
	e := make([]uint64, len(w))
	copy(e, w[:(n+63)/64])
	if n%64 != 0 {
		e[n/64] &= 1<<(n%64) - 1
	}
	if vSym() {
		p, q := vG(vFIn("P", 1)), vG(vFIn("Q", 1))
		d := q.mul(p.inv()) // a point and its opposite have the same coordinates
		P, Q, D := vL_pt(p), vL_pt(q), vL_pt(d)
		vLcurve = params.InitCurve
		c := vLcurve
		R := ScalarMul3Pt(&c, &P, &Q, &D, n, k)
		r := p.mul(vFPow(q, e))
		g := vL_of(&R)
		if vFSame(g, r.inv()) {
			g = g.inv()
		}
		vFEq("P + [k]Q", g, r)
		vReach("ladder")
		return
	}
	vFIn("P", 1)
	vFIn("Q", 1)
	for _, d := range []DomainParams{params.A, params.B} {
		P, Q, D := ProjectivePoint{d.AffineP, params.OneFp2}, ProjectivePoint{d.AffineQ, params.OneFp2}, ProjectivePoint{d.AffineR, params.OneFp2}
		c := params.InitCurve
		R := ScalarMul3Pt(&c, &P, &Q, &D, n, k)
		x, z := vLadder(vOf(&c.A), vOf(&c.C), vOf(&d.AffineP), vOf(&d.AffineQ), vOf(&d.AffineR), e, int(n))
		vProj("P + [k]Q", &R.X, &R.Z, x, z)
	}
	vReach("ladder")
}
