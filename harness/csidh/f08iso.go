package csidh

// Multiples of the kernel point as unrelated points; F08_dbl, F08_add decide them.

//verif:redirect xDbl vI_dbl
//verif:redirect xAdd vI_add

var vIx, vIz []vE // multiples of the kernel point, from 1
var vIA, vIC vE

func vI_pt(m int) point { return point{x: vIx[m].fp(), z: vIz[m].fp()} }

// vI_of finds which multiple p is (0 if none).
func vI_of(p *point) int {
	for m := 1; m < len(vIx); m++ {
		if vFSame(p.x[:], vIx[m]) && vFSame(p.z[:], vIz[m]) {
			return m
		}
	}
	return 0
}

func vI_more(m int) {
	for len(vIx) <= m {
		if vSym() || len(vIx) == 1 {
			_, x, z := vPt("M")
			vIx, vIz = append(vIx, x), append(vIz, z)
			continue
		}
		var x, z vE
		if n := len(vIx); n == 2 {
			x, z = vDbl(vIx[1], vIz[1], vIA, vIC)
		} else {
			x, z = vAddE(vIx[n-1], vIz[n-1], vIx[1], vIz[1], vIx[n-2], vIz[n-2])
		}
		vIx, vIz = append(vIx, x), append(vIz, z)
	}
}

func vI_dbl(r, p, a *point) {
	vAssert(vFSame(a.x[:], vIA) && vFSame(a.z[:], vIC), "doubling on the curve")
	m := vI_of(p)
	vAssert(m > 0, "multiple of the kernel point")
	vI_more(2 * m)
	*r = vI_pt(2 * m)
}

func vI_add(r, p, q, d *point) {
	m, n, k := vI_of(p), vI_of(q), vI_of(d)
	vAssert(m > 0 && n > 0 && (m == n+k || n == m+k), "difference of the points")
	vI_more(m + n)
	*r = vI_pt(m + n)
}

func F08_iso() {
	vStart()
	vIx, vIz = []vE{nil}, []vE{nil}
	a, c := vEl("a"), vEl("c")
	vIA, vIC = a, c
	vI_more(1)
	co := coeff{a: a.fp(), c: c.fp()}
	img, x, z := vPt("Q")
	l := int(primes[vChoose("prime", len(primes))])
	kern := vI_pt(1)
	xIso(&img, &co, &kern, uint64(l))
	vI_more(l / 2)
	// Velu: X prod (X Xi - Z Zi)^2 : Z prod (X Zi - Z Xi)^2, and on the Edwards model
	// (A+2C)^l prod (Xi+Zi)^8 : (A-2C)^l prod (Xi-Zi)^8
	u, v := vK(1), vK(1)
	s, t := vK(1), vK(1)
	for i := 1; i <= l/2; i++ {
		u = u.mul(x.mul(vIx[i]).sub(z.mul(vIz[i])))
		v = v.mul(x.mul(vIz[i]).sub(z.mul(vIx[i])))
		s = s.mul(vIx[i].add(vIz[i]))
		t = t.mul(vIx[i].sub(vIz[i]))
	}
	vIsPt("image of the point", &img, x.mul(u.sq()), z.mul(v.sq()))
	e := []uint64{uint64(l)}
	s = vE(vFPow(a.add(c.k(2)), e)).mul(s.sq().sq().sq())
	t = vE(vFPow(a.sub(c.k(2)), e)).mul(t.sq().sq().sq())
	vFProj("image curve", vOf(&co.a).add(vOf(&co.c).k(2)), vOf(&co.a).sub(vOf(&co.c).k(2)), s, t)
	vFBelow("image curve below p", co.a[:], 1)
	vFBelow("image curve below p", co.c[:], 1)
	vReach("iso")
}
