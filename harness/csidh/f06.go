package csidh

const vPrime = "65b48e8f740f89bffc8ab0d15e3e4c4ab42d083aedc88c425afbfcc69322c9cda7aac6c567f35507516730cc1f0b4f25c2721bf457aca8351b81b90533c6c87b"

func vP() vZ          { return vZHex(vPrime) }
func vVal(x *fp) vZ   { return vZW(x[:]) }
func vElem(n string) (x fp) {
	w := vWords(n, 8)
	vZAssumeLt(vZW(w), vP())
	copy(x[:], w)
	return
}
func vAny(n string) (x fp) {
	copy(x[:], vWords(n, 8))
	return
}

// vBin runs op with one of the aliasing patterns.
func vBin(op func(z, x, y *fp), x, y fp) (z fp, X, Y vZ) {
	X, Y = vVal(&x), vVal(&y)
	switch vChoose("alias", 4) {
	case 0:
		a, b := x, y
		op(&z, &a, &b)
		vAssert(a == x && b == y, "operands unchanged")
	case 1:
		z = x
		b := y
		op(&z, &z, &b)
		vAssert(b == y, "operand unchanged")
	case 2:
		z = y
		a := x
		op(&z, &a, &z)
		vAssert(a == x, "operand unchanged")
	case 3:
		z = x
		Y = X
		op(&z, &z, &z)
	}
	return
}

func F06_add() {
	vFlags()
	z, X, Y := vBin(addRdc, vElem("x"), vElem("y"))
	vZAssertLt(vVal(&z), vP(), "sum below p")
	vZAssertMod(vVal(&z), vZAdd(X, Y), vP(), "sum")
	vReach("add")
}

func F06_sub() {
	vFlags()
	z, X, Y := vBin(subRdc, vElem("x"), vElem("y"))
	vZAssertLt(vVal(&z), vP(), "difference below p")
	vZAssertMod(vVal(&z), vZSub(X, Y), vP(), "difference")
	vReach("sub")
}

func F06_sub512() {
	vFlags()
	x, y := vAny("x"), vAny("y")
	var z fp
	a, b := x, y
	var c uint64
	switch vChoose("alias", 3) {
	case 0:
		c = sub512(&z, &a, &b)
	case 1:
		z = x
		c = sub512(&z, &z, &b)
	case 2:
		z = y
		c = sub512(&z, &a, &z)
	}
	vAssert(c < 2, "borrow is a bit")
	vZAssertEq(vZSub(vVal(&z), vZShl(vZW([]uint64{c}), 512)), vZSub(vVal(&x), vVal(&y)), "512-bit difference")
	vReach("sub512")
}

func F06_mulsmall() {
	vFlags()
	x := vAny("x")
	m := vU64("m")
	X, M := vVal(&x), vZW([]uint64{m})
	if vChoose("width", 2) == 0 {
		a := x
		var r [9]uint64
		mul576(&r, &a, m)
		vAssert(a == x, "operand unchanged")
		vZAssertEq(vZW(r[:]), vZMul(X, M), "576-bit product")
	} else {
		var z fp
		switch vChoose("alias", 2) {
		case 0:
			a := x
			mul512(&z, &a, m)
			vAssert(a == x, "operand unchanged")
		case 1:
			z = x
			mul512(&z, &z, m)
		}
		vZAssertMod(vVal(&z), vZMul(X, M), vZShl(vZC(1), 512), "512-bit product")
	}
	vReach("mulsmall")
}

func F06_mul() {
	vFlags()
	z, X, Y := vBin(mulRdc, vElem("x"), vElem("y"))
	vZAssertMod(vZShl(vVal(&z), 512), vZMul(X, Y), vP(), "Montgomery product")
	vZAssertLt(vVal(&z), vP(), "Montgomery product below p")
	vReach("mul")
}

func F06_cswap() {
	vFlags()
	x, y := vAny("x"), vAny("y")
	a, b := x, y
	c := vU8("choice")
	vAssume(c < 2)
	cswap512(&a, &b, c)
	if c == 1 {
		vAssert(a == y && b == x, "operands swapped")
	} else {
		vAssert(a == x && b == y, "operands not swapped")
	}
	vReach("cswap")
}

func F06_cmp() {
	vFlags()
	x, y := vAny("x"), vAny("y")
	a, b := x, y
	X, Y := vVal(&x), vVal(&y)
	if isLess(&a, &b) {
		vZAssertLt(X, Y, "less")
	} else {
		vZAssertLt(Y, vZAdd(X, vZC(1)), "not less")
	}
	vAssert(a == x && b == y, "operands unchanged")
	vReach("cmp")
}

func F06_eq() {
	vFlags()
	x, y := vAny("x"), vAny("y")
	a, b := x, y
	vAssert(a.equal(&b) == (x == y), "equal")
	vAssert(a.isZero() == (x == fp{}), "isZero")
	i := vU64("i")
	r := ctIsNonZero64(i)
	vAssert(r == 0 == (i == 0) && (r == 0 || r == 1), "ctIsNonZero64")
	m, u, v := uint64(0), vU64("u"), vU64("v")
	vAssert(ctPick64(m, u, v) == v && ctPick64(^m, u, v) == u, "ctPick64")
	vReach("eq")
}
