package csidh

// (p-1)/2
func vHalf() []uint64 {
	w := make([]uint64, 8)
	for i := range w {
		w[i] = p[i] >> 1
		if i < 7 {
			w[i] |= p[i+1] << 63
		}
	}
	return w
}

func F07_exp512() {
	vStart()
	b := vEl("b")
	e := vWords("e", 8)
	var E, r fp
	copy(E[:], e)
	x := b.fp()
	if vChoose("alias", 2) == 1 {
		r = x
		modExpRdc512(&r, &r, &E)
	} else {
		modExpRdc512(&r, &x, &E)
		vAssert(x == b.fp(), "operand unchanged")
	}
	vIsEl("power", &r, vE(vFPow(b, e)))
	vReach("exp512")
}

func F07_exp64() {
	vStart()
	b := vEl("b")
	e := vU64("e")
	var r fp
	x := b.fp()
	if vChoose("alias", 2) == 1 {
		r = x
		modExpRdc64(&r, &r, e)
	} else {
		modExpRdc64(&r, &x, e)
		vAssert(x == b.fp(), "operand unchanged")
	}
	vIsEl("power", &r, vE(vFPow(b, []uint64{e})))
	vReach("exp64")
}

func F07_qr() {
	vStart()
	v := vEl("v")
	x := v.fp()
	n := x.isNonQuadRes()
	w := vE(vFPow(v, vHalf())).fp()
	o := vK(1).fp()
	if w == o {
		vAssert(n == 0, "quadratic residue")
	} else {
		vAssert(n == 1, "quadratic non-residue")
	}
	vAssert(x == v.fp(), "operand unchanged")
	vReach("qr")
}

func F07_const() {
	vStart()
	vIsEl("one", &one, vK(1))
	vIsEl("two", &two, vK(2))
	vIsEl("minus two", &twoNeg, vK(0).sub(vK(2)))
	vIsEl("four", &four, vK(4))
	vZAssertEq(vZAdd(vZW(pMin1[:]), vZC(2)), vP(), "exponent of inversion")
	vZAssertEq(vZAdd(vZShl(vZW(pMin1By2[:]), 1), vZC(1)), vP(), "(p-1)/2")
	vReach("const")
}
