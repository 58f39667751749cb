package PKG

import . "github.com/henrydcase/nobs/dh/sidh/common"

func F02_mul() {
	vFlags()
	x, y := vElem("x"), vElem("y")
	X, Y := vVal(&x), vVal(&y)
	var z FpX2
	if vChoose("square", 2) == 1 {
		y, Y = x, X
		mulPXXX(&z, &x, &x)
	} else {
		a, b := x, y
		mulPXXX(&z, &a, &b)
		vAssert(a == x && b == y, "operands unchanged")
	}
	vZAssertEq(vZW(z[:2*vN]), vZMul(X, Y), "product")
	vReach("mul")
}

func F02_rdc() {
	vFlags()
	var x FpX2
	w := vWords("x", 2*vN)
	copy(x[:], w)
	X := vZW(w)
	vZAssumeLt(X, vZShl(vP(), 64*vN))
	var z Fp
	rdcPXXX(&z, &x)
	vZAssertMod(vZShl(vVal(&z), 64*vN), X, vP(), "reduction")
	vZAssertLt(vVal(&z), v2P(), "reduction below 2p")
	vReach("rdc")
}
