package drbg

import "github.com/henrydcase/nobs/drbg/internal/aes"

// T02_drbg: the generator uses AES instructions only on processors that have them.
func T02_drbg() {
	has := vChoose("aes", 2) == 1
	o := vChoose("others", 4)
	vCPU(o&1 != 0, o&2 != 0, has)
	c := NewCtrDrbg()
	_, asm := c.blockEnc.(*aes.AESAsm)
	vAssert(!asm || has, "AES instructions chosen on a processor without them")
	vReach("drbg")
}
