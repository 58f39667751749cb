package PKG

import . "github.com/henrydcase/nobs/dh/sidh/common"

func vPoint(name string) (ProjectivePoint, vE, vE) {
	x, z := vEl(name+".x"), vEl(name+".z")
	return ProjectivePoint{X: x.fp2(), Z: z.fp2()}, x, z
}

func vStart() {
	w := make([]uint64, vN)
	copy(w, PXXX[:vN])
	vFSet(w)
}

func vCurve() (ProjectiveCurveParameters, vE, vE) {
	a, c := vEl("A"), vEl("C")
	return ProjectiveCurveParameters{A: a.fp2(), C: c.fp2()}, a, c
}

func F04_jinv() {
	vStart()
	cp, a, c := vCurve()
	var j Fp2
	Jinvariant(&cp, &j)
	// 256 (a^2-3)^3 / (a^2-4), a = A/C
	n := a.sq().sub(c.sq().k(3))
	n = n.mul(n.sq()).k(256)
	d := c.sq().sq().mul(a.sq().sub(c.sq().k(4)))
	vEqE("j-invariant", &j, n.mul(d.inv()))
	vReach("jinv")
}

func F04_recover() {
	vStart()
	p, q, r := vEl("p"), vEl("q"), vEl("r")
	P, Q, R := p.fp2(), q.fp2(), r.fp2()
	var cp ProjectiveCurveParameters
	RecoverCoordinateA(&cp, &P, &Q, &R)
	// A = (1 - pq - pr - qr)^2 / (4pqr) - p - q - r
	n := vK(1).sub(p.mul(q)).sub(p.mul(r)).sub(q.mul(r))
	w := n.sq().mul(p.mul(q).mul(r).k(4).inv()).sub(p).sub(q).sub(r)
	vEqE("curve through three points", &cp.A, w)
	vAssert(P == p.fp2() && Q == q.fp2() && R == r.fp2(), "operands unchanged")
	vReach("recover")
}

func F04_params() {
	vStart()
	cp, a, c := vCurve()
	e3, e4 := CalcCurveParamsEquiv3(&cp), CalcCurveParamsEquiv4(&cp)
	vEqE("A+2C", &e3.A, a.add(c.k(2)))
	vEqE("A-2C", &e3.C, a.sub(c.k(2)))
	vEqE("A+2C", &e4.A, a.add(c.k(2)))
	vEqE("4C", &e4.C, c.k(4))
	r := CalcAplus2Over4(&cp)
	vEqE("(A+2C)/4C", &r, a.add(c.k(2)).mul(c.k(4).inv()))
	var b3, b4 ProjectiveCurveParameters
	RecoverCurveCoefficients3(&b3, &e3)
	RecoverCurveCoefficients4(&b4, &e4)
	vProj("(A:C) from (A+2C:A-2C)", &b3.A, &b3.C, a, c)
	vProj("(A:C) from (A+2C:4C)", &b4.A, &b4.C, a, c)
	vReach("params")
}

func F04_dbladd() {
	vStart()
	P, xp, zp := vPoint("P")
	Q, xq, zq := vPoint("Q")
	D, xd, zd := vPoint("D")
	a24 := vEl("a24")
	a := a24.k(4).sub(vK(2))
	A := a24.fp2()
	p, q, d := P, Q, D
	dbl, sum := xDbladd(&P, &Q, &D, &A)
	vAssert(P == p && Q == q && D == d && A == a24.fp2(), "operands unchanged")
	// x(2P) = (x^2-1)^2 / 4x(x^2+ax+1)
	t := xp.sq().sub(zp.sq())
	w := xp.sq().add(a.mul(xp).mul(zp)).add(zp.sq())
	vProj("doubling", &dbl.X, &dbl.Z, t.sq(), xp.mul(zp).k(4).mul(w))
	// x(P+Q) x(P-Q) = ((xp xq - 1)/(xp - xq))^2
	vProj("differential addition", &sum.X, &sum.Z, zd.mul(xp.mul(xq).sub(zp.mul(zq)).sq()), xd.mul(xp.mul(zq).sub(zp.mul(xq)).sq()))
	vReach("dbladd")
}

func vDbl(x, z, A, C vE) (vE, vE) {
	t := x.sq().sub(z.sq())
	w := C.mul(x.sq()).add(A.mul(x).mul(z)).add(C.mul(z.sq()))
	return C.mul(t.sq()), x.mul(z).k(4).mul(w)
}

func F04_pow2() {
	vStart()
	cp, a, c := vCurve()
	P, x, z := vPoint("P")
	e := CalcCurveParamsEquiv4(&cp)
	k := vChoose("k", 3)
	Pow2k(&P, &e, uint32(k))
	for i := 0; i < k; i++ {
		x, z = vDbl(x, z, a, c)
	}
	vProj("multiplication by a power of two", &P.X, &P.Z, x, z)
	vReach("pow2")
}

func F04_pow3() {
	vStart()
	cp, a, c := vCurve()
	P, x, z := vPoint("P")
	e := CalcCurveParamsEquiv3(&cp)
	k := vChoose("k", 3)
	Pow3k(&P, &e, uint32(k))
	for i := 0; i < k; i++ {
		// x (x^4-6x^2-4ax-3)^2 / (3x^4+4ax^3+6x^2-1)^2
		x2, z2, xz := x.sq(), z.sq(), x.mul(z)
		n := c.mul(x2.sq()).sub(c.mul(x2).mul(z2).k(6)).sub(a.mul(xz).mul(z2).k(4)).sub(c.mul(z2.sq()).k(3))
		d := c.mul(x2.sq()).k(3).add(a.mul(x2).mul(xz).k(4)).add(c.mul(x2).mul(z2).k(6)).sub(c.mul(z2.sq()))
		x, z = x.mul(n.sq()), z.mul(d.sq())
	}
	vProj("multiplication by a power of three", &P.X, &P.Z, x, z)
	vReach("pow3")
}

func F04_batch() {
	vStart()
	a, b, c := vEl("a"), vEl("b"), vEl("c")
	A, B, C := a.fp2(), b.fp2(), c.fp2()
	var x, y, z Fp2
	Fp2Batch3Inv(&A, &B, &C, &x, &y, &z)
	vEqE("inverse of the first", &x, a.inv())
	vEqE("inverse of the second", &y, b.inv())
	vEqE("inverse of the third", &z, c.inv())
	vReach("batch")
}

func F04_iso3() {
	vStart()
	K, xk, zk := vPoint("K")
	Q, x, z := vPoint("Q")
	k, q := K, Q
	var phi isogeny3
	e := phi.GenerateCurve(&K)
	I := phi.EvaluatePoint(&Q)
	vAssert(K == k && Q == q, "operands unchanged")
	// kernel point of order 3: 3t^4+4at^3+6t^2-1 = 0; image curve (a t - 6t^2 + 6) t
	t := xk.mul(zk.inv())
	t2 := t.sq()
	a := vK(1).sub(t2.k(6)).sub(t2.sq().k(3)).mul(t.mul(t2).k(4).inv())
	b := a.mul(t).sub(t2.k(6)).add(vK(6)).mul(t)
	vProj("image curve of the 3-isogeny", &e.A, &e.C, b.add(vK(2)), b.sub(vK(2)), xk, zk)
	// x (x t - 1)^2 / (x - t)^2
	vProj("image point of the 3-isogeny", &I.X, &I.Z, x.mul(x.mul(xk).sub(z.mul(zk)).sq()), z.mul(x.mul(zk).sub(z.mul(xk)).sq()))
	vReach("iso3")
}

func F04_iso4() {
	vStart()
	K, xk, zk := vPoint("K")
	Q, x, z := vPoint("Q")
	k, q := K, Q
	var phi isogeny4
	e := phi.GenerateCurve(&K)
	I := phi.EvaluatePoint(&Q)
	vAssert(K == k && Q == q, "operands unchanged")
	// image curve 4t^4 - 2
	t := xk.mul(zk.inv())
	b := t.sq().sq().k(4).sub(vK(2))
	vProj("image curve of the 4-isogeny", &e.A, &e.C, b.add(vK(2)), vK(4), zk)
	// -(x t^2 + x - 2t) x (x t - 1)^2 / ((x-t)^2 (2xt - t^2 - 1))
	u := x.mul(z.inv())
	n := u.mul(t.sq()).add(u).sub(t.k(2)).mul(u).mul(u.mul(t).sub(vK(1)).sq())
	d := u.sub(t).sq().mul(u.mul(t).k(2).sub(t.sq()).sub(vK(1)))
	vProj("image point of the 4-isogeny", &I.X, &I.Z, vK(0).sub(n), d, z, zk)
	vReach("iso4")
}
