package sidh

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"github.com/henrydcase/nobs/dh/sidh/internal/p434"
	"github.com/henrydcase/nobs/dh/sidh/internal/p503"
	"github.com/henrydcase/nobs/dh/sidh/internal/p751"
)

// Montgomery conversion is an arbitrary bijection of the words of the field, different for
// every field (F02, F03 decide the real one).

//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p434.ToMontgomery stubMont434
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p434.FromMontgomery stubFrom434
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p503.ToMontgomery stubMont503
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p503.FromMontgomery stubFrom503
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p751.ToMontgomery stubMont751
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p751.FromMontgomery stubFrom751

// every word is rotated and moved to another place; zero stays zero
func vMont(out, in *common.Fp2, n int, k uint64) {
	a, b := in.A, in.B
	for i := 0; i < n; i++ {
		x, y := a[(i+1)%n], b[(i+2)%n]
		out.A[i] = x<<k | x>>(64-k)
		out.B[i] = y<<(k+1) | y>>(63-k)
	}
}

func vUnmont(out, in *common.Fp2, n int, k uint64) {
	a, b := in.A, in.B
	for i := 0; i < n; i++ {
		x, y := a[i], b[i]
		out.A[(i+1)%n] = x>>k | x<<(64-k)
		out.B[(i+2)%n] = y>>(k+1) | y<<(63-k)
	}
}

func stubMont434(out, in *common.Fp2) { vMont(out, in, 7, 4) }
func stubFrom434(out, in *common.Fp2) { vUnmont(out, in, 7, 4) }
func stubMont503(out, in *common.Fp2) { vMont(out, in, 8, 5) }
func stubFrom503(out, in *common.Fp2) { vUnmont(out, in, 8, 5) }
func stubMont751(out, in *common.Fp2) { vMont(out, in, 12, 7) }
func stubFrom751(out, in *common.Fp2) { vUnmont(out, in, 12, 7) }

func vPrime(id uint8) *common.Fp {
	switch id {
	case Fp434:
		return &p434.P434
	case Fp503:
		return &p503.P503
	}
	return &p751.P751
}

// vCanon assumes that the field elements in b are reduced.
func vCanon(s *vSet, b []byte) {
	p := vPrime(s.id)
	for len(b) > 0 {
		var bor uint64
		for i := 0; i < s.words; i++ {
			var w uint64
			for k := 0; k < 8 && 8*i+k < s.bl; k++ {
				w |= uint64(b[8*i+k]) << uint(8*k)
			}
			d := w - p[i] - bor
			bor = ((^w & p[i]) | (^(w ^ p[i]) & d)) >> 63
		}
		vAssume(bor == 1)
		b = b[s.bl:]
	}
}

// K01_pub: public keys.
func K01_pub() {
	s := &vSets[vChoose("set", 3)]
	v := vVariants[vChoose("variant", 3)]
	var pub *PublicKey
	if vChoose("init", 2) == 0 {
		pub = NewPublicKey(s.id, v)
	} else {
		pub = &PublicKey{}
		pub.Init(s.id, v)
	}
	vAssert(pub.Size() == s.pk, "public key size")
	old := vBytes("old", s.pk)
	out := make([]byte, s.pk)
	used := vChoose("used", 2) == 1
	if used {
		vCanon(s, old)
		vAssert(pub.Import(old) == nil, "import accepts the right length")
		pub.Export(out)
		vAssertBytes(out, old, "exporting an imported key returns it")
	} else {
		pub.Export(out)
		old = make([]byte, s.pk)
		vAssertBytes(out, old, "a new key exports zeros")
	}
	// wrong lengths
	n := vPick("bad", []int{0, 1, s.pk / 3, s.pk - 1, s.pk + 1, 2 * s.pk})
	var err error
	bad := vBytes("bad", n)
	vAssert(!vPanics(func() { err = pub.Import(bad) }) && err != nil, "import refuses a wrong length")
	pub.Export(out)
	vAssertBytes(out, old, "refused import leaves the key alone")
	// replace
	b := vBytes("key", s.pk)
	vCanon(s, b)
	keep := append([]byte{}, b...)
	vAssert(pub.Import(b) == nil, "import accepts the right length")
	vAssertBytes(b, keep, "input of import is left alone")
	big := make([]byte, s.pk+vPick("more", []int{0, 1, 40}))
	for i := range big {
		big[i] = 0xa5
	}
	pub.Export(big)
	vAssertBytes(big[:s.pk], b, "import replaces what the key held before")
	for _, x := range big[s.pk:] {
		vAssert(x == 0xa5, "export writes the key only")
	}
	pub.Export(out)
	vAssertBytes(out, b, "second export is the same")
	cp := NewPublicKey(s.id, v)
	vAssert(cp.Import(out) == nil && cp.affine3Pt == pub.affine3Pt, "imported key equals the exported one")
	vObserve("out", out)
	vReach("pub")
}

// K01_prv: private keys.
func K01_prv() {
	s := &vSets[vChoose("set", 3)]
	v := vVariants[vChoose("variant", 3)]
	var prv *PrivateKey
	if vChoose("init", 2) == 0 {
		prv = NewPrivateKey(s.id, v)
	} else {
		prv = &PrivateKey{}
		prv.Init(s.id, v)
	}
	sz := vPrvSize(s, v)
	vAssert(prv.Size() == sz, "private key size")
	vAssert(prv.SharedSecretSize() == s.ss, "shared secret size")
	out := make([]byte, sz)
	old := vBytes("old", sz)
	vAssert(prv.Import(old) == nil, "import accepts the right length")
	prv.Export(out)
	vAssertBytes(out, old, "exporting an imported key returns it")
	n := vPick("bad", []int{0, 1, sz - 16, sz - 1, sz + 1, sz + 16, sz + 24, sz + 32, 2 * sz})
	var err error
	bad := vBytes("bad", n)
	vAssert(!vPanics(func() { err = prv.Import(bad) }) && err != nil, "import refuses a wrong length")
	prv.Export(out)
	vAssertBytes(out, old, "refused import leaves the key alone")
	b := vBytes("key", sz)
	keep := append([]byte{}, b...)
	vAssert(prv.Import(b) == nil, "import accepts the right length")
	vAssertBytes(b, keep, "input of import is left alone")
	m := sz - s.bytes[1]
	if v == KeyVariantSike {
		vAssertBytes(prv.S, b[:m], "S comes first")
		vAssertBytes(prv.Scalar, b[m:], "then the scalar")
	} else {
		vAssertBytes(prv.Scalar, b, "the key is the scalar")
	}
	b[0] ^= 0xff // the key does not alias the input
	prv.Export(out)
	vAssertBytes(out, keep, "import replaces what the key held before")
	out[0] ^= 0xff
	prv.Export(out)
	vAssertBytes(out, keep, "export hands out a copy")
	vObserve("out", out)
	vReach("prv")
}

// K01_agree: keys that went through export and import act as before. Key agreement is
// replaced by its arguments.

//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p434.PublicKeyGenA stubGenA434
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p434.PublicKeyGenB stubGenB434
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p434.DeriveSecretA stubDerA434
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p434.DeriveSecretB stubDerB434
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p503.PublicKeyGenA stubGenA503
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p503.PublicKeyGenB stubGenB503
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p503.DeriveSecretA stubDerA503
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p503.DeriveSecretB stubDerB503
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p751.PublicKeyGenA stubGenA751
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p751.PublicKeyGenB stubGenB751
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p751.DeriveSecretA stubDerA751
//verif:redirect github.com/henrydcase/nobs/dh/sidh/internal/p751.DeriveSecretB stubDerB751

func vWordsOf(n int, pub *[3]common.Fp2) []uint64 {
	var o []uint64
	for i := range pub {
		o = append(o, pub[i].A[:n]...)
		o = append(o, pub[i].B[:n]...)
	}
	return o
}

func vBytesToWords(b []byte) []uint64 {
	var o []uint64
	for i, x := range b {
		if i%8 == 0 {
			o = append(o, 0)
		}
		o[i/8] |= uint64(x) << uint(8*(i%8))
	}
	return o
}

// a public key in the representation the field uses, with reduced values
func vGen(name string, n, bl int, k uint64, pub *[3]common.Fp2, prv []byte) {
	w := vUFWords(name, 6*n, vBytesToWords(prv))
	for i := range pub {
		var e common.Fp2
		copy(e.A[:n], w[2*i*n:])
		copy(e.B[:n], w[(2*i+1)*n:])
		e.A[n-1] &= 0xff
		e.B[n-1] &= 0xff
		vMont(&pub[i], &e, n, k)
	}
}

func vDer(name string, n int, ss, prv []byte, pub *[3]common.Fp2, sz int) {
	w := vUFWords(name, (sz+7)/8, vBytesToWords(prv), vWordsOf(n, pub))
	for i := 0; i < sz; i++ {
		ss[i] = byte(w[i/8] >> uint(8*(i%8)))
	}
}

func stubGenA434(p *[3]common.Fp2, s []byte)    { vGen("A434", 7, 55, 4, p, s) }
func stubGenB434(p *[3]common.Fp2, s []byte)    { vGen("B434", 7, 55, 4, p, s) }
func stubGenA503(p *[3]common.Fp2, s []byte)    { vGen("A503", 8, 63, 5, p, s) }
func stubGenB503(p *[3]common.Fp2, s []byte)    { vGen("B503", 8, 63, 5, p, s) }
func stubGenA751(p *[3]common.Fp2, s []byte)    { vGen("A751", 12, 94, 7, p, s) }
func stubGenB751(p *[3]common.Fp2, s []byte)    { vGen("B751", 12, 94, 7, p, s) }
func stubDerA434(o, s []byte, p *[3]common.Fp2) { vDer("dA434", 7, o, s, p, 110) }
func stubDerB434(o, s []byte, p *[3]common.Fp2) { vDer("dB434", 7, o, s, p, 110) }
func stubDerA503(o, s []byte, p *[3]common.Fp2) { vDer("dA503", 8, o, s, p, 126) }
func stubDerB503(o, s []byte, p *[3]common.Fp2) { vDer("dB503", 8, o, s, p, 126) }
func stubDerA751(o, s []byte, p *[3]common.Fp2) { vDer("dA751", 12, o, s, p, 188) }
func stubDerB751(o, s []byte, p *[3]common.Fp2) { vDer("dB751", 12, o, s, p, 188) }

func vFieldGen(s *vSet, isA bool, prv []byte) (p [3]common.Fp2) {
	switch {
	case s.id == Fp434 && isA:
		p434.PublicKeyGenA(&p, prv)
	case s.id == Fp434:
		p434.PublicKeyGenB(&p, prv)
	case s.id == Fp503 && isA:
		p503.PublicKeyGenA(&p, prv)
	case s.id == Fp503:
		p503.PublicKeyGenB(&p, prv)
	case isA:
		p751.PublicKeyGenA(&p, prv)
	default:
		p751.PublicKeyGenB(&p, prv)
	}
	return
}

func vFieldDer(s *vSet, isA bool, prv []byte, p *[3]common.Fp2) []byte {
	o := make([]byte, s.ss)
	switch {
	case s.id == Fp434 && isA:
		p434.DeriveSecretA(o, prv, p)
	case s.id == Fp434:
		p434.DeriveSecretB(o, prv, p)
	case s.id == Fp503 && isA:
		p503.DeriveSecretA(o, prv, p)
	case s.id == Fp503:
		p503.DeriveSecretB(o, prv, p)
	case isA:
		p751.DeriveSecretA(o, prv, p)
	default:
		p751.DeriveSecretB(o, prv, p)
	}
	return o
}

func K01_agree() {
	s := &vSets[vChoose("set", 3)]
	v := vVariants[vChoose("variant", 3)]
	isA := v == KeyVariantSidhA
	peerV := KeyVariantSidhA
	if isA {
		peerV = []KeyVariant{KeyVariantSidhB, KeyVariantSike}[vChoose("peer", 2)]
	}
	key := vBytes("key", vPrvSize(s, v))
	other := vBytes("peer", vPrvSize(s, peerV))
	prv := NewPrivateKey(s.id, v)
	peer := NewPrivateKey(s.id, peerV)
	prv.Import(key)
	peer.Import(other)
	// public keys, then through the wire into used objects
	pub, pubP := NewPublicKey(s.id, v), NewPublicKey(s.id, peerV)
	g, gp := vFieldGen(s, isA, prv.Scalar), vFieldGen(s, !isA, peer.Scalar)
	free := vChoose("free function", 2) == 1
	if free {
		GeneratePublicKey(pub, prv)
		GeneratePublicKey(pubP, peer)
	} else {
		prv.GeneratePublicKey(pub)
		peer.GeneratePublicKey(pubP)
	}
	vAssert(pub.affine3Pt == g && pubP.affine3Pt == gp, "public key comes from the field and group of the key")
	wire := make([]byte, s.pk)
	pubP.Export(wire)
	back := NewPublicKey(s.id, peerV)
	if vChoose("used", 2) == 1 {
		w := make([]byte, s.pk)
		pub.Export(w)
		back.Import(w)
	}
	vAssert(back.Import(wire) == nil, "import")
	skw := make([]byte, prv.Size())
	prv.Export(skw)
	prv2 := NewPrivateKey(s.id, v)
	vAssert(prv2.Import(skw) == nil, "import of the private key")
	s1, s2 := make([]byte, s.ss), make([]byte, s.ss)
	prv.DeriveSecret(s1, pubP)
	if free {
		DeriveSecret(s2, back, prv2)
	} else {
		prv2.DeriveSecret(s2, back)
	}
	vAssertBytes(s1, s2, "keys behave the same after export and import")
	vAssertBytes(s1, vFieldDer(s, isA, prv.Scalar, &gp), "secret comes from the field and group of the key")
	vAssert(pub.affine3Pt == g && pubP.affine3Pt == gp, "public keys are left alone")
	prv.Export(skw)
	vAssertBytes(skw, key, "private key is left alone")
	vReach("agree")
}
