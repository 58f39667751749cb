package csidh

func F08_add() {
	vStart()
	P, xp, zp := vPt("P")
	Q, xq, zq := vPt("Q")
	D, xd, zd := vPt("D")
	p0, q0, d0 := P, Q, D
	var R point
	xAdd(&R, &P, &Q, &D)
	vAssert(P == p0 && Q == q0 && D == d0, "operands unchanged")
	x, z := vAddE(xp, zp, xq, zq, xd, zd)
	vIsPt("differential addition", &R, x, z)
	// the result may replace any operand
	switch vChoose("alias", 3) {
	case 0:
		xAdd(&P, &P, &Q, &D)
		vAssert(P == R, "result in place of the first point")
	case 1:
		xAdd(&Q, &P, &Q, &D)
		vAssert(Q == R, "result in place of the second point")
	}
	vReach("add")
}

func F08_dbl() {
	vStart()
	P, xp, zp := vPt("P")
	A, a, c := vPt("A")
	p0, a0 := P, A
	var R point
	xDbl(&R, &P, &A)
	vAssert(P == p0 && A == a0, "operands unchanged")
	x, z := vDbl(xp, zp, a, c)
	vIsPt("doubling", &R, x, z)
	xDbl(&P, &P, &A)
	vAssert(P == R, "doubling in place")
	vReach("dbl")
}

func F08_dbladd() {
	vStart()
	P, xp, zp := vPt("P")
	Q, xq, zq := vPt("Q")
	D, xd, zd := vPt("D")
	a, c := vEl("a"), vEl("c")
	A24 := coeff{a: a.add(c.k(2)).fp(), c: c.k(4).fp()}
	p0, q0, d0, c0 := P, Q, D, A24
	var R, S point
	xDblAdd(&R, &S, &P, &Q, &D, &A24)
	vAssert(P == p0 && Q == q0 && D == d0 && A24 == c0, "operands unchanged")
	x, z := vDbl(xp, zp, a, c)
	vIsPt("doubling", &R, x, z)
	x, z = vAddE(xp, zp, xq, zq, xd, zd)
	vIsPt("differential addition", &S, x, z)
	// as the ladder calls it
	xDblAdd(&P, &Q, &P, &Q, &D, &A24)
	vAssert(P == R && Q == S && D == d0, "results in place of the points")
	vReach("dbladd")
}

func F08_eval() {
	vStart()
	a, x := vEl("a"), vEl("x")
	A, X := a.fp(), x.fp()
	var r fp
	montEval(&r, &A, &X)
	vIsEl("x^3+Ax^2+x", &r, x.mul(x.sq()).add(a.mul(x.sq())).add(x))
	vReach("eval")
}
