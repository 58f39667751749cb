package PKG

import . "github.com/henrydcase/nobs/dh/sidh/common"

func vPW() []uint64 {
	w := make([]uint64, vN)
	copy(w, PXXX[:vN])
	return w
}

// vPrime checks the constant p and starts the field.
func vPrime() {
	vZAssertEq(vZW(PXXX[:vN]), vP(), "prime")
	vFSet(vPW())
}

func vIn2(name string) (e Fp2) {
	copy(e.A[:], vFIn(name+".a", 2))
	copy(e.B[:], vFIn(name+".b", 2))
	return
}

func vO(op string, x ...[]uint64) []uint64 { return vFOp(op, 2, x...) }

// vIs compares an element with a+bi.
func vIs(e *Fp2, a, b []uint64, what string) {
	vFEq(what+": real part", e.A[:vN], a)
	vFEq(what+": imaginary part", e.B[:vN], b)
	vFBelow(what+": real part below 2p", e.A[:vN], 2)
	vFBelow(what+": imaginary part below 2p", e.B[:vN], 2)
	for i := vN; i < FpMaxWords; i++ {
		vAssert(e.A[i] == 0 && e.B[i] == 0, what+": unused words zero")
	}
}

// vRun2 runs a binary operation in every aliasing.
func vRun2(op func(z, x, y *Fp2)) (z, x, y Fp2) {
	x, y = vIn2("x"), vIn2("y")
	switch vChoose("alias", 4) {
	case 0:
		a, b := x, y
		op(&z, &a, &b)
		vAssert(a == x && b == y, "operands unchanged")
	case 1:
		z = x
		b := y
		op(&z, &z, &b)
		vAssert(b == y, "operand unchanged")
	case 2:
		z = y
		a := x
		op(&z, &a, &z)
		vAssert(a == x, "operand unchanged")
	case 3:
		y = x
		z = x
		op(&z, &z, &z)
	}
	return
}

func vRun1(op func(z, x *Fp2)) (z, x Fp2) {
	x = vIn2("x")
	if vChoose("alias", 2) == 0 {
		a := x
		op(&z, &a)
		vAssert(a == x, "operand unchanged")
	} else {
		z = x
		op(&z, &z)
	}
	return
}

func F03_addsub() {
	vPrime()
	o, f := "add", add
	if vChoose("op", 2) == 1 {
		o, f = "sub", sub
	}
	z, x, y := vRun2(f)
	vIs(&z, vO(o, x.A[:vN], y.A[:vN]), vO(o, x.B[:vN], y.B[:vN]), o)
	vReach("addsub")
}

func F03_mul() {
	vPrime()
	z, x, y := vRun2(mul)
	a, b, c, d := x.A[:vN], x.B[:vN], y.A[:vN], y.B[:vN]
	vIs(&z, vO("sub", vO("mul", a, c), vO("mul", b, d)), vO("add", vO("mul", a, d), vO("mul", b, c)), "mul")
	vReach("mul")
}

func F03_sqr() {
	vPrime()
	z, x := vRun1(sqr)
	a, b := x.A[:vN], x.B[:vN]
	ab := vO("mul", a, b)
	vIs(&z, vO("sub", vO("mul", a, a), vO("mul", b, b)), vO("add", ab, ab), "sqr")
	vReach("sqr")
}

func F03_inv() {
	vPrime()
	z, x := vRun1(inv)
	a, b := x.A[:vN], x.B[:vN]
	e := vPW()
	e[0] -= 2 // p-2; the low word of p is 2^64-1
	n := vFPow(vO("add", vO("mul", a, a), vO("mul", b, b)), e)
	vIs(&z, vO("mul", a, n), vO("sub", vFC(0), vO("mul", b, n)), "inv")
	vReach("inv")
}

func F03_mont() {
	vPrime()
	r := vFC(1)
	for i := 0; i < 64*vN; i++ {
		r = vO("add", r, r)
	}
	if vChoose("dir", 2) == 0 {
		z, x := vRun1(ToMontgomery)
		vIs(&z, vO("mul", x.A[:vN], r), vO("mul", x.B[:vN], r), "to Montgomery form")
	} else {
		z, x := vRun1(FromMontgomery)
		vFEq("from Montgomery form: real part", vO("mul", z.A[:vN], r), x.A[:vN])
		vFEq("from Montgomery form: imaginary part", vO("mul", z.B[:vN], r), x.B[:vN])
		vFBelow("from Montgomery form: real part below p", z.A[:vN], 1)
		vFBelow("from Montgomery form: imaginary part below p", z.B[:vN], 1)
	}
	vReach("mont")
}

func vRaw(name string) (e Fp2) {
	copy(e.A[:], vWords(name+".a", vN))
	copy(e.B[:], vWords(name+".b", vN))
	return
}

func F03_swap() {
	p, q := ProjectivePoint{X: vRaw("px"), Z: vRaw("pz")}, ProjectivePoint{X: vRaw("qx"), Z: vRaw("qz")}
	a, b := p, q
	c := vU8("choice")
	vAssume(c < 2)
	cswap(&a.X, &a.Z, &b.X, &b.Z, c)
	if c == 1 {
		vAssert(a == q && b == p, "swapped")
	} else {
		vAssert(a == p && b == q, "not swapped")
	}
	vReach("swap")
}

func F03_const() {
	vPrime()
	o := vFC(1)
	z := make([]uint64, vN)
	vIs(&params.OneFp2, o, z, "one")
	h := params.HalfFp2
	vIs(&h, h.A[:vN], z, "half")
	vFEq("half", vO("add", h.A[:vN], h.A[:vN]), o)
	vIs(&params.InitCurve.A, vFC(6), z, "starting curve A")
	vIs(&params.InitCurve.C, o, z, "starting curve C")
	vReach("const")
}
