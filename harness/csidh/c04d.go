package csidh

import "io"

//verif:redirect Validate stubValidate
//verif:redirect groupAction stubAction

var vValid bool
var vActed int
var vWantA fp
var vBadKey string

func stubValidate(pub *PublicKey, rng io.Reader) bool {
	if pub.a != vWantA {
		vBadKey = "another key is validated"
	}
	return vValid
}

func stubAction(pub *PublicKey, prv *PrivateKey, rng io.Reader) {
	vActed++
	var e []uint64
	for _, v := range prv.e {
		e = append(e, uint64(uint8(v)))
	}
	copy(pub.a[:], vUFWords("action", 8, pub.a[:], e))
}

func vAct(a fp, e []byte) fp {
	var pk PublicKey
	var sk PrivateKey
	pk.a = a
	for i := range e {
		sk.e[i] = int8(e[i])
	}
	if vSym() {
		stubAction(&pk, &sk, nil)
		vActed--
	} else {
		groupAction(&pk, &sk, &vRng{5})
	}
	return pk.a
}

// C04_derive: no secret comes out of an invalid key; a valid one gives the action.
func C04_derive() {
	var pub PublicKey
	var prv PrivateKey
	e := vBytes("e", PrivateKeySize)
	for i := range e {
		if !vSym() {
			e[i] = byte(i%3) * 16 // the real action needs small exponents
		}
		prv.e[i] = int8(e[i])
	}
	vValid = vChoose("valid", 2) == 1
	if vSym() || !vValid {
		copy(pub.a[:], vWords("a", 8))
	}
	if !vValid { // so that the real Validate agrees
		vAssume(!vLess(pub.a[:], p[:]))
	}
	vWantA = pub.a
	keep := pub.a
	fill := vBytes("out", 64)
	var out [64]byte
	copy(out[:], fill)
	r := DeriveSecret(&out, &pub, &prv, &vRng{4})
	vAssert(pub.a == keep, "public key is left alone")
	for i := range e {
		vAssert(prv.e[i] == int8(e[i]), "private key is left alone")
	}
	if vSym() {
		vAssert(vBadKey == "", "the given key is validated")
	}
	if !vValid {
		vAssert(!r, "DeriveSecret reports an invalid key")
		vAssertBytes(out[:], fill, "no output for an invalid key")
		vAssert(vActed == 0, "the secret key is not used on an invalid key")
		vReach("invalid")
		return
	}
	vAssert(r, "DeriveSecret succeeds on a valid key")
	want := vAct(keep, e)
	var exp []byte
	for _, w := range want {
		for k := uint(0); k < 64; k += 8 {
			exp = append(exp, byte(w>>k))
		}
	}
	vAssertBytes(out[:], exp, "secret is the coefficient of the action on the public key")
	vReach("valid")
}

// C04_generate: a public key is the action on the curve with coefficient zero.
func C04_generate() {
	var pub PublicKey
	var prv PrivateKey
	e := vBytes("e", PrivateKeySize)
	for i := range e {
		if !vSym() {
			e[i] = byte(i%3) * 16
		}
		prv.e[i] = int8(e[i])
	}
	copy(pub.a[:], vWords("old", 8))
	GeneratePublicKey(&pub, &prv, &vRng{6})
	vAssert(pub.a == vAct(fp{}, e), "public key is the action on the base curve, whatever the object held")
	vReach("generate")
}
