package drbg

// D02_inc: the counter is a 128-bit big-endian integer.
func D02_inc() {
	var c CtrDrbg
	v := vBytes("v", 16)
	copy(c.v[:], v)
	c.inc()
	vAssertBytes(c.v[:], vInc(v), "counter increment modulo 2^128")
	vReach("inc")
}
