package drbg

import (
	"github.com/henrydcase/nobs/drbg/internal/aes"
	"github.com/henrydcase/nobs/utils"
)

// The block cipher is an uninterpreted function of key and block (AES itself is the
// subject of D01); both implementations are stubbed, keyed per object.

//verif:redirect (*github.com/henrydcase/nobs/drbg/internal/aes.AES).SetKey stubSetKey
//verif:redirect (*github.com/henrydcase/nobs/drbg/internal/aes.AES).Encrypt stubEncrypt
//verif:redirect (*github.com/henrydcase/nobs/drbg/internal/aes.AESAsm).SetKey stubSetKeyAsm
//verif:redirect (*github.com/henrydcase/nobs/drbg/internal/aes.AESAsm).Encrypt stubEncryptAsm

var vKeys = map[*aes.AES][]byte{}
var vKeysAsm = map[*aes.AESAsm][]byte{}

func stubSetKey(c *aes.AES, key []byte) error {
	vKeys[c] = append([]byte{}, key...)
	return nil
}

func stubSetKeyAsm(c *aes.AESAsm, key []byte) error {
	vKeysAsm[c] = append([]byte{}, key...)
	return nil
}

func stubEncrypt(c *aes.AES, dst, src []byte) { vEnc(vKeys[c], dst, src) }

func stubEncryptAsm(c *aes.AESAsm, dst, src []byte) { vEnc(vKeysAsm[c], dst, src) }

func vEnc(key, dst, src []byte) {
	if len(src) < 16 || len(dst) < 16 {
		panic("aes: block too short")
	}
	copy(dst[:16], vUF("aes", 16, key, src[:16]))
}

func modelAES(key, src []byte) []byte {
	if vSym() {
		return vUF("aes", 16, key, src)
	}
	var c aes.AES
	c.SetKey(key)
	o := make([]byte, 16)
	c.Encrypt(o, src)
	return o
}

// modelDRBG: SP 800-90A Rev.1, 10.2.1, AES-256, no derivation function. Inputs
// shorter than seedlen are padded with zeros, longer ones truncated (documented
// behaviour of the code; the standard leaves such inputs to the caller).
type modelDRBG struct{ key, v []byte }

func vPad(b []byte) []byte {
	o := make([]byte, 48)
	copy(o, b)
	return o
}

func vXor(a, b []byte) []byte {
	o := make([]byte, len(a))
	for i := range a {
		o[i] = a[i] ^ b[i]
	}
	return o
}

func vInc(v []byte) []byte {
	var hi, lo uint64
	for i := 0; i < 8; i++ {
		hi = hi<<8 | uint64(v[i])
		lo = lo<<8 | uint64(v[i+8])
	}
	hi, lo = vInc128(hi, lo)
	o := make([]byte, 16)
	for i := 0; i < 8; i++ {
		o[7-i] = byte(hi >> uint(8*i))
		o[15-i] = byte(lo >> uint(8*i))
	}
	return o
}

// branch-free on purpose: no path fork per counter byte
func vInc128(hi, lo uint64) (uint64, uint64) {
	l := lo + 1
	c := (lo & ^l) >> 63 // carry out of lo+1
	return hi + c, l
}

func (d *modelDRBG) update(data []byte) {
	var t []byte
	for i := 0; i < 3; i++ {
		d.v = vInc(d.v)
		t = append(t, modelAES(d.key, d.v)...)
	}
	t = vXor(t, data)
	d.key, d.v = t[:32], t[32:48]
}

func (d *modelDRBG) instantiate(entropy, pers []byte) {
	d.key, d.v = make([]byte, 32), make([]byte, 16)
	d.update(vXor(vPad(entropy), vPad(pers)))
}

func (d *modelDRBG) reseed(entropy, add []byte) { d.update(vXor(vPad(entropy), vPad(add))) }

func (d *modelDRBG) generate(n int, add []byte) []byte {
	a := make([]byte, 48)
	if len(add) > 0 {
		a = vPad(add)
		d.update(a)
	}
	var t []byte
	for len(t) < n {
		d.v = vInc(d.v)
		t = append(t, modelAES(d.key, d.v)...)
	}
	d.update(a)
	return t[:n]
}

func vPick(name string, l []int) int { return l[vChoose(name, len(l))] }

func vNew() *CtrDrbg {
	utils.X86.HasAES = vChoose("aesni", 2) == 1 && (vSym() || vHasAES)
	return NewCtrDrbg()
}

var vHasAES = utils.X86.HasAES
