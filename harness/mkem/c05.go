package mkem

import (
	"io"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/drbg"
)

// CSIDH is abstracted: a public key is an uninterpreted function of the private key, the
// secret one of the unordered pair of private keys. The first byte of a key is a concrete
// identity, so that a key is recognised without solving; the highest byte of a valid public
// key is small. Keccak-f is uninterpreted (H04).

//verif:redirect github.com/henrydcase/nobs/dh/csidh.GeneratePrivateKey stubGenPrv
//verif:redirect github.com/henrydcase/nobs/dh/csidh.GeneratePublicKey stubGenPub
//verif:redirect github.com/henrydcase/nobs/dh/csidh.DeriveSecret stubDerive
//verif:redirect github.com/henrydcase/nobs/hash/sha3.keccakF1600 stubKeccak

type vOwner struct {
	id byte
	sk []byte
}

var vOwners []vOwner
var vUsedInvalid bool

func vKeyBytes(k *csidh.PrivateKey) []byte {
	b := make([]byte, csidh.PrivateKeySize)
	k.Export(b)
	return b
}

func vNewPrv(k *csidh.PrivateKey) {
	sk := vBytes("sk", csidh.PrivateKeySize)
	sk[0] = byte(len(vOwners) + 1)
	vOwners = append(vOwners, vOwner{sk[0], sk})
	k.Import(sk)
}

func stubGenPrv(key *csidh.PrivateKey, rng io.Reader) error {
	vNewPrv(key)
	return nil
}

func stubGenPub(pub *csidh.PublicKey, prv *csidh.PrivateKey, rng io.Reader) {
	sk := vKeyBytes(prv)
	b := vUF("pub", 64, sk)
	b[0] = sk[0]
	b[63] &= 0x3f
	pub.Import(b)
}

func stubDerive(out *[64]byte, pub *csidh.PublicKey, prv *csidh.PrivateKey, rng io.Reader) bool {
	pb := make([]byte, 64)
	pub.Export(pb)
	if pb[63] >= 0x66 { // not reduced
		return false
	}
	sk := vKeyBytes(prv)
	for _, o := range vOwners {
		if o.id == pb[0] {
			if o.id < sk[0] {
				copy(out[:], vUF("ss", 64, o.sk, sk))
			} else {
				copy(out[:], vUF("ss", 64, sk, o.sk))
			}
			return true
		}
	}
	copy(out[:], vUF("ssx", 64, pb, sk))
	return true
}

func stubKeccak(a *[25]uint64) {
	o := vUFWords("keccakf", 25, a[:])
	copy(a[:], o)
}

func vNewRng() *drbg.CtrDrbg {
	r := drbg.NewCtrDrbg()
	if !vSym() {
		r.Init(make([]byte, 48), []byte("verif"))
	}
	return r
}

// vPair makes a recipient; an invalid public key has a coefficient above p.
func vPair(sk *csidh.PrivateKey, pk *csidh.PublicKey, valid bool, rng *drbg.CtrDrbg) {
	csidh.GeneratePrivateKey(sk, rng)
	csidh.GeneratePublicKey(pk, sk, rng)
	if !valid {
		b := make([]byte, 64)
		pk.Export(b)
		b[63] = 0xff
		pk.Import(b)
	}
}

func vMsg(name string) (m [16]byte) {
	copy(m[:], vBytes(name, 16))
	return
}

func vAll(b []byte, m [16]byte, lbl string) { vAssertBytes(b, m[:], lbl) }

// vUsePKE puts the object through an earlier operation.
func vUsePKE(c *PKE, h int, rng *drbg.CtrDrbg) {
	var sk csidh.PrivateKey
	var pk csidh.PublicKey
	old := vMsg("old")
	switch h {
	case 1:
		vPair(&sk, &pk, true, rng)
		c.Enc(&pk, &old)
	case 2:
		vPair(&sk, &pk, true, rng)
		var ct ciphertext
		pk.Export(ct.U[:])
		copy(ct.V[:], old[:])
		c.Dec(&sk, &ct)
	case 3: // the caller used the hash
		c.H.Write(old[:])
		c.H.Read(old[:5])
	}
}

// C05_single: Dec(Enc(m)) = m after any earlier use, with one or two objects.
func C05_single() {
	rng := vNewRng()
	var sk csidh.PrivateKey
	var pk csidh.PublicKey
	vPair(&sk, &pk, true, rng)
	var a, b PKE
	a.Allocate(rng)
	d := &a
	if vChoose("objects", 2) == 1 {
		b.Allocate(rng)
		d = &b
	}
	vUsePKE(&a, vChoose("before", 4), rng)
	m := vMsg("msg")
	keep := m
	ct := a.Enc(&pk, &m)
	vAssert(m == keep, "message is left alone")
	vUsePKE(d, vChoose("between", 4), rng)
	pt := d.Dec(&sk, &ct)
	vAll(pt[:], m, "decryption returns the message")
	// once more with the same keys
	m2 := vMsg("msg2")
	ct = a.Enc(&pk, &m2)
	pt = d.Dec(&sk, &ct)
	vAll(pt[:], m2, "second decryption returns the second message")
	vReach("single")
}

// C05_multi: every recipient decrypts its own part.
func C05_multi() {
	rng := vNewRng()
	n := 1 + vChoose("n", 3)
	sks := make([]csidh.PrivateKey, n)
	pks := make([]csidh.PublicKey, n)
	for i := range sks {
		vPair(&sks[i], &pks[i], true, rng)
	}
	var c MultiPKE
	c.Allocate(uint(n+vChoose("spare", 2)), rng)
	var m [16]byte
	if vChoose("multi before", 2) == 1 {
		m = vMsg("msg0")
		c.Encrypt(pks[:1], &m)
	}
	vUsePKE(&c.PKE, vChoose("before", 4), rng)
	m = vMsg("msg")
	vAssert(!vPanics(func() { c.Encrypt(pks, &m) }), "encryption does not crash")
	vUsePKE(&c.PKE, vChoose("between", 2), rng)
	var d PKE
	d.Allocate(rng)
	for i := n - 1; i >= 0; i-- {
		var ct ciphertext
		copy(ct.U[:], c.Ct0[:])
		copy(ct.V[:], c.Cts[i][:])
		pt := d.Dec(&sks[i], &ct)
		vAll(pt[:], m, "every recipient obtains the message")
		pt = c.PKE.Dec(&sks[i], &ct)
		vAll(pt[:], m, "every recipient obtains the message (same object)")
	}
	vReach("multi")
}

// C05_invalid: nothing is encrypted under an invalid key: what is sent does not depend on
// the message.
func C05_invalid() {
	rng := vNewRng()
	n := 1 + vChoose("n", 3)
	bad := vChoose("bad", n)
	sks := make([]csidh.PrivateKey, n)
	pks := make([]csidh.PublicKey, n)
	for i := range sks {
		vPair(&sks[i], &pks[i], i != bad, rng)
	}
	m1, m2 := vMsg("msg"), vMsg("other")
	if n == 1 && vChoose("single", 2) == 1 {
		var a PKE
		a.Allocate(rng)
		vUsePKE(&a, vChoose("before", 3), rng)
		var c1, c2 ciphertext
		p1 := vPanics(func() { c1 = a.Enc(&pks[0], &m1) })
		p2 := vPanics(func() { c2 = a.Enc(&pks[0], &m2) })
		vAssert(p1 == p2, "refused alike")
		vAssertBytes(c1.V[:], c2.V[:], "no encryption under an invalid key")
		vReach("invalid single")
		return
	}
	var c MultiPKE
	c.Allocate(uint(n), rng)
	var r1, r2 [][SharedSecretSz]byte
	p1 := vPanics(func() { c.Encrypt(pks, &m1) })
	r1 = append(r1, c.Cts...)
	u := c.Ct0
	p2 := vPanics(func() { c.Encrypt(pks, &m2) })
	r2 = append(r2, c.Cts...)
	vAssert(p1 == p2, "refused alike")
	vAssertBytes(r1[bad][:], r2[bad][:], "no part encrypted under an invalid key")
	if !p1 {
		var d PKE
		d.Allocate(rng)
		for i := range sks {
			if i != bad {
				var ct ciphertext
				ct.U = u
				ct.V = r1[i]
				pt := d.Dec(&sks[i], &ct)
				vAll(pt[:], m1, "other recipients still obtain the message")
			}
		}
	}
	vReach("invalid multi")
}
