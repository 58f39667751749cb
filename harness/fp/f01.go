package PKG

import . "github.com/henrydcase/nobs/dh/sidh/common"

const vN = XWORDS

func vP() vZ  { return vZHex("XPRIME") }
func v2P() vZ { return vZShl(vP(), 1) }

// vElem is an arbitrary representative in [0,2p).
func vElem(name string) (e Fp) {
	w := vWords(name, vN)
	vZAssumeLt(vZW(w), v2P())
	copy(e[:], w)
	return
}

func vVal(e *Fp) vZ { return vZW(e[:vN]) }

// vBin runs op with one of the aliasing patterns and returns the result and the operands.
func vBin(op func(z, x, y *Fp), x, y Fp) (z Fp, X, Y vZ) {
	X, Y = vVal(&x), vVal(&y)
	switch vChoose("alias", 4) {
	case 0:
		a, b := x, y
		op(&z, &a, &b)
		vAssert(a == x && b == y, "operands unchanged")
	case 1:
		z = x
		b := y
		op(&z, &z, &b)
		vAssert(b == y, "operand unchanged")
	case 2:
		z = y
		a := x
		op(&z, &a, &z)
		vAssert(a == x, "operand unchanged")
	case 3:
		z = x
		Y = X
		op(&z, &z, &z)
	}
	return
}

func F01_add() {
	vFlags()
	z, X, Y := vBin(addPXXX, vElem("x"), vElem("y"))
	vZAssertLt(vVal(&z), v2P(), "sum below 2p")
	vZAssertMod(vVal(&z), vZAdd(X, Y), vP(), "sum")
	vReach("add")
}

func F01_sub() {
	vFlags()
	z, X, Y := vBin(subPXXX, vElem("x"), vElem("y"))
	vZAssertLt(vVal(&z), v2P(), "difference below 2p")
	vZAssertMod(vVal(&z), vZSub(X, Y), vP(), "difference")
	vReach("sub")
}

func F01_mod() {
	vFlags()
	x := vElem("x")
	z := x
	modPXXX(&z)
	vZAssertLt(vVal(&z), vP(), "canonical value below p")
	vZAssertMod(vVal(&z), vVal(&x), vP(), "canonical value")
	vReach("mod")
}

func F01_cswap() {
	vFlags()
	var x, y Fp
	copy(x[:], vWords("x", vN))
	copy(y[:], vWords("y", vN))
	a, b := x, y
	c := vU8("choice")
	vAssume(c < 2)
	cswapPXXX(&a, &b, c)
	if c == 1 {
		vAssert(a == y && b == x, "operands swapped")
	} else {
		vAssert(a == x && b == y, "operands not swapped")
	}
	vReach("cswap")
}

func vBin2(op func(z, x, y *FpX2), x, y FpX2) (z FpX2) {
	switch vChoose("alias", 3) {
	case 0:
		a, b := x, y
		op(&z, &a, &b)
		vAssert(a == x && b == y, "operands unchanged")
	case 1:
		z = x
		b := y
		op(&z, &z, &b)
	case 2:
		z = y
		a := x
		op(&z, &a, &z)
	}
	return
}

func F01_adl() {
	vFlags()
	var x, y FpX2
	copy(x[:], vWords("x", 2*vN))
	copy(y[:], vWords("y", 2*vN))
	z := vBin2(adlPXXX, x, y)
	vZAssertMod(vZW(z[:2*vN]), vZAdd(vZW(x[:2*vN]), vZW(y[:2*vN])), vZShl(vZC(1), 128*vN), "double width sum")
	vReach("adl")
}

func F01_sul() {
	vFlags()
	var x, y FpX2
	copy(x[:], vWords("x", 2*vN))
	copy(y[:], vWords("y", 2*vN))
	X, Y := vZW(x[:2*vN]), vZW(y[:2*vN])
	lim := vZShl(vP(), 64*vN)
	d := vZSub(X, Y)
	if vChoose("less", 2) == 1 {
		// the difference is negative, above -p*2^W
		vZAssumeLt(X, Y)
		vZAssumeLt(Y, vZAdd(X, lim))
		d = vZAdd(d, lim)
	} else {
		vZAssumeLt(Y, vZAdd(X, vZC(1)))
	}
	z := vBin2(sulPXXX, x, y)
	vZAssertEq(vZW(z[:2*vN]), d, "double width difference")
	vReach("sul")
}
