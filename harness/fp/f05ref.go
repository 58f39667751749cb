package PKG

// vLadder is x(P + [k]Q) from the x-coordinates of P, Q, P-Q.
func vLadder(a, c, p, q, d vE, k []uint64, n int) (vE, vE) {
	sum := func(xp, zp, xq, zq, xd, zd vE) (vE, vE) {
		return zd.mul(xp.mul(xq).sub(zp.mul(zq)).sq()), xd.mul(xp.mul(zq).sub(zp.mul(xq)).sq())
	}
	o := vK(1)
	qx, qz, ux, uz, vx, vz := q, o, p, o, d, o // [2^i]Q, P+[k mod 2^i]Q, the difference of the two
	for i := 0; i < n; i++ {
		if k[i/64]>>uint(i%64)&1 == 1 {
			ux, uz = sum(qx, qz, ux, uz, vx, vz)
		} else {
			vx, vz = sum(qx, qz, vx, vz, ux, uz)
		}
		qx, qz = vDbl(qx, qz, a, c)
	}
	return ux, uz
}
