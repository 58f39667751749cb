package PKG

import . "github.com/henrydcase/nobs/dh/sidh/common"

// T02_run: the arithmetic runs on every processor without instructions it lacks.
func T02_run() {
	vFlags()
	x, y := vElem("x"), vElem("y")
	var z Fp
	var d, e FpX2
	mulPXXX(&d, &x, &y)
	mulPXXX(&e, &y, &x)
	rdcPXXX(&z, &d)
	addPXXX(&z, &x, &y)
	subPXXX(&z, &x, &y)
	adlPXXX(&d, &e, &d)
	sulPXXX(&d, &e, &d)
	modPXXX(&z)
	cswapPXXX(&x, &y, vU8("c")&1)
	vReach("run")
}
