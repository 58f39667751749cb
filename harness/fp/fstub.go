package PKG

import . "github.com/henrydcase/nobs/dh/sidh/common"

// The operations of the base field (F01, F02) as operations on elements.

//verif:redirect addPXXX vS_add
//verif:redirect subPXXX vS_sub
//verif:redirect adlPXXX vS_adl
//verif:redirect sulPXXX vS_sul
//verif:redirect mulPXXX vS_mul
//verif:redirect rdcPXXX vS_rdc
//verif:redirect modPXXX vS_mod

func vS_add(z, x, y *Fp) {
	vFBelow("operand of add below 2p", x[:vN], 2)
	vFBelow("operand of add below 2p", y[:vN], 2)
	copy(z[:], vFOp("add", 2, x[:vN], y[:vN]))
}
func vS_sub(z, x, y *Fp) {
	vFBelow("operand of sub below 2p", x[:vN], 2)
	vFBelow("operand of sub below 2p", y[:vN], 2)
	copy(z[:], vFOp("sub", 2, x[:vN], y[:vN]))
}
func vS_mul(z *FpX2, x, y *Fp) {
	vFBelow("operand of mul below 2p", x[:vN], 2)
	vFBelow("operand of mul below 2p", y[:vN], 2)
	copy(z[:], vFOp("mulx", 1, x[:vN], y[:vN]))
}
func vS_adl(z, x, y *FpX2) { copy(z[:], vFOp("addx", 1, x[:2*vN], y[:2*vN])) }
func vS_sul(z, x, y *FpX2) { copy(z[:], vFOp("subx", 1, x[:2*vN], y[:2*vN])) }
func vS_rdc(z *Fp, x *FpX2) {
	vFBelow("operand of rdc below p*2^W", x[:2*vN], 1)
	copy(z[:], vFOp("rdc", 2, x[:2*vN]))
}
func vS_mod(x *Fp) {
	vFBelow("operand of mod below 2p", x[:vN], 2)
	copy(x[:], vFOp("same", 1, x[:vN]))
}
