package csidh

// Points as powers of one element: the point [m]P is b^m. The formulas themselves
// are decided by F08_dbl, F08_add, F08_dbladd.

//verif:redirect xDbl vM_dbl
//verif:redirect xAdd vM_add
//verif:redirect xDblAdd vM_dblAdd
//verif:redirect addRdc vM_fadd
//verif:redirect mulRdc vM_fmul
//verif:redirect cswap512 vS_swap

var vMA, vMC vE

func vM_fadd(z, x, y *fp) { copy(z[:], vFOp("add", 1, x[:], y[:])) }
func vM_fmul(z, x, y *fp) { copy(z[:], vFOp("mul", 1, x[:], y[:])) }
func vS_swap(x, y *fp, choice uint8) {
	vAssert(choice <= 1, "choice of a swap is 0 or 1")
	a, b := vFSel(choice, y[:], x[:]), vFSel(choice, x[:], y[:])
	copy(x[:], a)
	copy(y[:], b)
}

// z is a copy of x, so that a point put together from two others is noticed
func vM_pt(m vE) point { return point{x: m.fp(), z: m.fp()} }
func vM_of(p *point) vE {
	vAssert(vFSame(p.x[:], p.z[:]), "both coordinates of one point")
	return vE(p.x[:])
}
func vM_dbl(r, p, a *point) {
	vAssert(vFSame(a.x[:], vMA) && vFSame(a.z[:], vMC), "doubling on the curve")
	m := vM_of(p)
	*r = vM_pt(m.mul(m))
}
func vM_diff(p, q, d vE) {
	// p - q = d or q - p = d
	vAssert(vFPM(p, q, d), "difference of the points")
}
func vM_add(r, p, q, d *point) {
	x, y := vM_of(p), vM_of(q)
	vM_diff(x, y, vM_of(d))
	*r = vM_pt(x.mul(y))
}
func vM_dblAdd(r, s, p, q, d *point, a *coeff) {
	vAssert(vFSame(a.a[:], vMA.add(vMC.k(2))) && vFSame(a.c[:], vMC.k(4)), "doubling on the curve")
	x, y := vM_of(p), vM_of(q)
	vM_diff(x, y, vM_of(d))
	u, v := vM_pt(x.mul(x)), vM_pt(x.mul(y))
	*r, *s = u, v
}

func F08_mul() {
	vStart()
	a, c := vEl("a"), vEl("c")
	vMA, vMC = a, c
	co := coeff{a: a.fp(), c: c.fp()}
	k := vWords("k", 8)
	// the highest set bit
	tops := []int{0, 1, 2, 3, 63, 64, 65, 127, 128, 200, 320, 384, 447, 448, 509, 510, 511}
	var t int
	if vParam("all", 0) == 1 {
		t = vChoose("top", 512)
	} else {
		t = tops[vChoose("top", len(tops))]
	}
	for i := t/64 + 1; i < 8; i++ {
		vAssume(k[i] == 0)
		k[i] = 0
	}
	vAssume(k[t/64]>>uint(t%64) == 1)
	var K fp
	copy(K[:], k)
	if vSym() {
		// the same words with the fixed bits in place
		K[t/64] = k[t/64]&(1<<uint(t%64)-1) | 1<<uint(t%64)
		b := vEl("P")
		P := vM_pt(b)
		var R point
		if vChoose("alias", 2) == 1 {
			R = P
			xMul(&R, &R, &co, &K)
		} else {
			xMul(&R, &P, &co, &K)
			vAssert(P == vM_pt(b), "operand unchanged")
		}
		vFEq("multiple", vM_of(&R), vFPow(b, K[:]))
		vReach("mul")
		return
	}
	x, z := vEl("P"), vK(1)
	P := point{x: x.fp(), z: z.fp()}
	var R point
	if vChoose("alias", 2) == 1 {
		R = P
		xMul(&R, &R, &co, &K)
	} else {
		xMul(&R, &P, &co, &K)
	}
	// double and add from the left
	px, pz := x, z
	qx, qz := vDbl(x, z, a, c)
	for i := t - 1; i >= 0; i-- {
		sx, sz := vAddE(px, pz, qx, qz, x, z)
		if K[i/64]>>uint(i%64)&1 == 1 {
			qx, qz = vDbl(qx, qz, a, c)
			px, pz = sx, sz
		} else {
			px, pz = vDbl(px, pz, a, c)
			qx, qz = sx, sz
		}
	}
	vFProj("multiple", R.x[:], R.z[:], px, pz)
	vReach("mul")
}
