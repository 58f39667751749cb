package csidh

// T02_run: the arithmetic runs on every processor without instructions it lacks.
func T02_run() {
	vFlags()
	x, y := vElem("x"), vElem("y")
	var z fp
	var w [9]uint64
	mulRdc(&z, &x, &y)
	mul512(&z, &x, vU64("m"))
	mul576(&w, &x, vU64("m"))
	cswap512(&x, &y, vU8("c")&1)
	vReach("run")
}
