package mkem

import (
	"crypto/subtle"
	"io"

	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/dh/sidh/common"
	"github.com/henrydcase/nobs/hash/sha3"
)

// The isogeny computations are abstracted. A public key contains the private key in clear
// (first coordinate) and otherwise an uninterpreted function of it, so that every value of
// a public key is a pair (private key, difference from the honest key). A shared secret is
// an uninterpreted function of the two private keys and the difference, the same for both
// directions when the difference is zero. Montgomery conversion is an arbitrary bijection
// of the words. Keccak-f is uninterpreted.

//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p434.ToMontgomery stubMont434
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p434.FromMontgomery stubFrom434
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p503.ToMontgomery stubMont503
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p503.FromMontgomery stubFrom503
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p751.ToMontgomery stubMont751
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p751.FromMontgomery stubFrom751
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p434.PublicKeyGenA stubGenA434
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p434.PublicKeyGenB stubGenB434
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p434.DeriveSecretA stubDerA434
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p434.DeriveSecretB stubDerB434
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p503.PublicKeyGenA stubGenA503
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p503.PublicKeyGenB stubGenB503
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p503.DeriveSecretA stubDerA503
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p503.DeriveSecretB stubDerB503
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p751.PublicKeyGenA stubGenA751
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p751.PublicKeyGenB stubGenB751
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p751.DeriveSecretA stubDerA751
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p751.DeriveSecretB stubDerB751
//verif:redirect github.com/henrydcase/nobs/hash/sha3.keccakF1600 stubKeccak

func stubKeccak(a *[25]uint64) {
	o := vUFWords("keccakf", 25, a[:])
	copy(a[:], o)
}

func vMont(out, in *common.Fp2, n int, k uint64) {
	a, b := in.A, in.B
	for i := 0; i < n; i++ {
		x, y := a[(i+1)%n], b[(i+2)%n]
		out.A[i] = x<<k | x>>(64-k)
		out.B[i] = y<<(k+1) | y>>(63-k)
	}
}

func vUnmont(out, in *common.Fp2, n int, k uint64) {
	a, b := in.A, in.B
	for i := 0; i < n; i++ {
		x, y := a[i], b[i]
		out.A[(i+1)%n] = x>>k | x<<(64-k)
		out.B[(i+2)%n] = y>>(k+1) | y<<(63-k)
	}
}

func stubMont434(out, in *common.Fp2) { vMont(out, in, 7, 4) }
func stubFrom434(out, in *common.Fp2) { vUnmont(out, in, 7, 4) }
func stubMont503(out, in *common.Fp2) { vMont(out, in, 8, 5) }
func stubFrom503(out, in *common.Fp2) { vUnmont(out, in, 8, 5) }
func stubMont751(out, in *common.Fp2) { vMont(out, in, 12, 7) }
func stubFrom751(out, in *common.Fp2) { vUnmont(out, in, 12, 7) }

// words of a private key, without bits the key space does not use
func vSkWords(b []byte, bits uint) []uint64 {
	o := make([]uint64, (bits+63)/64)
	for i, x := range b {
		if i/8 < len(o) {
			o[i/8] |= uint64(x) << uint(8*(i%8))
		}
	}
	if bits%64 != 0 {
		o[len(o)-1] &= 1<<(bits%64) - 1
	}
	return o
}

// honest key as 6n words
func vHonest(name string, n int, sk []uint64) []uint64 {
	w := vUFWords(name, 6*n, sk)
	for i := n - 1; i < 6*n; i += n {
		w[i] &= 0xff
	}
	copy(w, sk)
	return w
}

func vGen(name string, n int, k uint64, bits uint, pub *[3]common.Fp2, prv []byte) {
	w := vHonest(name, n, vSkWords(prv, bits))
	for i := range pub {
		var e common.Fp2
		copy(e.A[:n], w[2*i*n:])
		copy(e.B[:n], w[(2*i+1)*n:])
		vMont(&pub[i], &e, n, k)
	}
}

// vDer: me is the group of the private key ('A' or 'B')
func vDer(name, peer string, isA bool, n int, k uint64, bits, pbits uint, ss, prv []byte, pub *[3]common.Fp2, sz int) {
	var w []uint64
	for i := range pub {
		var e common.Fp2
		vUnmont(&e, &pub[i], n, k)
		w = append(w, e.A[:n]...)
		w = append(w, e.B[:n]...)
	}
	own := vSkWords(prv, bits)
	psk := append([]uint64{}, w[:(pbits+63)/64]...)
	if pbits%64 != 0 {
		psk[len(psk)-1] &= 1<<(pbits%64) - 1
	}
	h := vHonest(peer, n, psk)
	for i := range w {
		w[i] ^= h[i]
	}
	a, b := own, psk
	if !isA {
		a, b = psk, own
	}
	o := vUFWords(name, (sz+7)/8, a, b, w)
	for i := 0; i < sz; i++ {
		ss[i] = byte(o[i/8] >> uint(8*(i%8)))
	}
}

func stubGenA434(p *[3]common.Fp2, s []byte) { vGen("A434", 7, 4, 216, p, s) }
func stubGenB434(p *[3]common.Fp2, s []byte) { vGen("B434", 7, 4, 217, p, s) }
func stubGenA503(p *[3]common.Fp2, s []byte) { vGen("A503", 8, 5, 250, p, s) }
func stubGenB503(p *[3]common.Fp2, s []byte) { vGen("B503", 8, 5, 252, p, s) }
func stubGenA751(p *[3]common.Fp2, s []byte) { vGen("A751", 12, 7, 372, p, s) }
func stubGenB751(p *[3]common.Fp2, s []byte) { vGen("B751", 12, 7, 378, p, s) }
func stubDerA434(o, s []byte, p *[3]common.Fp2) {
	vDer("ss434", "B434", true, 7, 4, 216, 217, o, s, p, 110)
}
func stubDerB434(o, s []byte, p *[3]common.Fp2) {
	vDer("ss434", "A434", false, 7, 4, 217, 216, o, s, p, 110)
}
func stubDerA503(o, s []byte, p *[3]common.Fp2) {
	vDer("ss503", "B503", true, 8, 5, 250, 252, o, s, p, 126)
}
func stubDerB503(o, s []byte, p *[3]common.Fp2) {
	vDer("ss503", "A503", false, 8, 5, 252, 250, o, s, p, 126)
}
func stubDerA751(o, s []byte, p *[3]common.Fp2) {
	vDer("ss751", "B751", true, 12, 7, 372, 378, o, s, p, 188)
}
func stubDerB751(o, s []byte, p *[3]common.Fp2) {
	vDer("ss751", "A751", false, 12, 7, 378, 372, o, s, p, 188)
}

// vReader delivers the given bytes, at most chunk per call, then fails.
type vReader struct {
	b     []byte
	pos   int
	chunk int
}

func (r *vReader) Read(p []byte) (int, error) {
	if r.pos >= len(r.b) {
		return 0, io.ErrClosedPipe
	}
	n := len(p)
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	n = copy(p[:n], r.b[r.pos:])
	r.pos += n
	return n, nil
}

func vPick(name string, l []int) int { return l[vChoose(name, len(l))] }

type vSet struct {
	id       uint8
	pk, ss   int
	msg, kem int
	abits    uint
	abytes   int
	bl       int
}

var vSets = []vSet{
	{sidh.Fp434, 330, 110, 16, 16, 216, 28, 55},
	{sidh.Fp503, 378, 126, 24, 24, 250, 32, 63},
	{sidh.Fp751, 564, 188, 32, 32, 372, 47, 94},
}

// vKem is what the two KEMs of the repository have in common.
type vKem interface {
	Encapsulate(ciphertext, secret []byte, pub *sidh.PublicKey) error
	Decapsulate(secret []byte, prv *sidh.PrivateKey, pub *sidh.PublicKey, ciphertext []byte) error
	Reset()
	CiphertextSize() int
	SharedSecretSize() int
}

func vNewKem(s *vSet, impl int, rng io.Reader) vKem {
	if impl == 0 {
		switch s.id {
		case sidh.Fp434:
			return sidh.NewSike434(rng)
		case sidh.Fp503:
			return sidh.NewSike503(rng)
		}
		return sidh.NewSike751(rng)
	}
	switch s.id {
	case sidh.Fp434:
		return NewSike434(rng)
	case sidh.Fp503:
		return NewSike503(rng)
	}
	return NewSike751(rng)
}

func vKeys(s *vSet) (*sidh.PrivateKey, *sidh.PublicKey) {
	prv := sidh.NewPrivateKey(s.id, sidh.KeyVariantSike)
	pub := sidh.NewPublicKey(s.id, sidh.KeyVariantSike)
	err := prv.Generate(&vReader{b: vBytes("keyrnd", prv.Size())})
	vAssert(err == nil, "key generation")
	prv.GeneratePublicKey(pub)
	return prv, pub
}

func vShake(n int, in ...[]byte) []byte {
	h := sha3.NewShake256()
	for _, b := range in {
		h.Write(b)
	}
	o := make([]byte, n)
	h.Read(o)
	return o
}

func vExp(p *sidh.PublicKey) []byte {
	b := make([]byte, p.Size())
	p.Export(b)
	return b
}

// the ephemeral key made from seed material
func vEphemeral(s *vSet, in ...[]byte) (*sidh.PrivateKey, *sidh.PublicKey) {
	r := vShake(s.abytes, in...)
	for i := range r {
		if uint(8*i+8) > s.abits {
			if uint(8*i) >= s.abits {
				r[i] = 0
			} else {
				r[i] &= byte(1<<(s.abits%8) - 1)
			}
		}
	}
	sk := sidh.NewPrivateKey(s.id, sidh.KeyVariantSidhA)
	pk := sidh.NewPublicKey(s.id, sidh.KeyVariantSidhA)
	sk.Import(r)
	sk.GeneratePublicKey(pk)
	return sk, pk
}

func vXor(a, b []byte) []byte {
	o := make([]byte, len(a))
	for i := range a {
		o[i] = a[i] ^ b[i]
	}
	return o
}

func vSS(s *vSet, sk *sidh.PrivateKey, pk *sidh.PublicKey) []byte {
	o := make([]byte, s.ss)
	sk.DeriveSecret(o, pk)
	return o
}

// vSel returns a if eq is 1, b if it is 0.
func vSel(eq int, a, b []byte) []byte {
	m := byte(-eq)
	o := make([]byte, len(a))
	for i := range a {
		o[i] = a[i]&m | b[i]&^m
	}
	return o
}

func vSame(a, b []byte) int { return subtle.ConstantTimeCompare(a, b) }

func vImportA(s *vSet, b []byte) *sidh.PublicKey {
	pk := sidh.NewPublicKey(s.id, sidh.KeyVariantSidhA)
	pk.Import(b)
	return pk
}

