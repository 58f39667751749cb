package csidh

// The operations of the base field (F06) as operations on elements.

//verif:redirect addRdc vS_add
//verif:redirect subRdc vS_sub
//verif:redirect mulRdc vS_mul
//verif:redirect cswap512 vS_swap

func vS_in(op string, x, y *fp) {
	vFBelow("operand of "+op+" below p", x[:], 1)
	vFBelow("operand of "+op+" below p", y[:], 1)
}
func vS_add(z, x, y *fp) {
	X, Y := *x, *y
	vS_in("add", &X, &Y)
	copy(z[:], vFOp("add", 1, X[:], Y[:]))
}
func vS_sub(z, x, y *fp) {
	X, Y := *x, *y
	vS_in("sub", &X, &Y)
	copy(z[:], vFOp("sub", 1, X[:], Y[:]))
}
func vS_mul(z, x, y *fp) {
	X, Y := *x, *y
	vS_in("mul", &X, &Y)
	copy(z[:], vFOp("mul", 1, X[:], Y[:]))
}
func vS_swap(x, y *fp, choice uint8) {
	vAssert(choice <= 1, "choice of a swap is 0 or 1")
	a, b := vFSel(choice, y[:], x[:]), vFSel(choice, x[:], y[:])
	copy(x[:], a)
	copy(y[:], b)
}
