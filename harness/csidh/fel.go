package csidh

// Elements for the oracles.
type vE []uint64

func (x vE) add(y vE) vE { return vFOp("add", 1, x, y) }
func (x vE) sub(y vE) vE { return vFOp("sub", 1, x, y) }
func (x vE) mul(y vE) vE { return vFOp("mul", 1, x, y) }
func (x vE) sq() vE      { return x.mul(x) }
func (x vE) k(n int) vE  { return vK(n).mul(x) }
func vK(n int) vE        { return vE(vFC(n)) }
func vEl(n string) vE    { return vE(vFIn(n, 1)) }
func (x vE) fp() (e fp) {
	copy(e[:], x)
	return
}
func vOf(x *fp) vE { return vE(append([]uint64{}, x[:]...)) }

func vStart() {
	vZAssertEq(vZW(p[:]), vP(), "prime")
	vFSet(append([]uint64{}, p[:]...))
}

func vPt(name string) (point, vE, vE) {
	x, z := vEl(name+".x"), vEl(name+".z")
	return point{x: x.fp(), z: z.fp()}, x, z
}

func vIsEl(label string, g *fp, w vE) {
	vFEq(label, g[:], w)
	vFBelow(label+": below p", g[:], 1)
}

func vIsPt(label string, g *point, x, z vE) {
	vFProj(label, g.x[:], g.z[:], x, z)
	vFBelow(label+": below p", g.x[:], 1)
	vFBelow(label+": below p", g.z[:], 1)
}

func vDbl(x, z, A, C vE) (vE, vE) {
	t := x.sq().sub(z.sq())
	w := C.mul(x.sq()).add(A.mul(x).mul(z)).add(C.mul(z.sq()))
	return C.mul(t.sq()), x.mul(z).k(4).mul(w)
}

// vAddE is the sum of two points with the given difference.
func vAddE(xp, zp, xq, zq, xd, zd vE) (vE, vE) {
	return zd.mul(xp.mul(xq).sub(zp.mul(zq)).sq()), xd.mul(xp.mul(zq).sub(zp.mul(xq)).sq())
}
