package mkem

import "github.com/henrydcase/nobs/dh/sidh"

var vVariants = []sidh.KeyVariant{sidh.KeyVariantSidhA, sidh.KeyVariantSidhB, sidh.KeyVariantSike}

func vPair(s *vSet, v sidh.KeyVariant, name string) (*sidh.PrivateKey, *sidh.PublicKey) {
	prv := sidh.NewPrivateKey(s.id, v)
	pub := sidh.NewPublicKey(s.id, v)
	vAssert(prv.Generate(&vReader{b: vBytes(name, prv.Size())}) == nil, "key generation")
	prv.GeneratePublicKey(pub)
	return prv, pub
}

// K07_sidh: keys of different fields or of the wrong variants are refused.
func K07_sidh() {
	s1, s2 := &vSets[vChoose("set1", 3)], &vSets[vChoose("set2", 3)]
	v1, v2 := vVariants[vChoose("var1", 3)], vVariants[vChoose("var2", 3)]
	prv, own := vPair(s1, v1, "key1")
	_, pub := vPair(s2, v2, "key2")
	old := vExp(pub)
	if vChoose("op", 2) == 0 {
		bad := vPanics(func() { prv.GeneratePublicKey(pub) })
		vAssert(bad == (s1 != s2 || v1 != v2), "a public key is made exactly for keys of one field and variant")
		if bad {
			vAssertBytes(vExp(pub), old, "refused generation leaves the public key alone")
		} else {
			vAssertBytes(vExp(pub), vExp(own), "generation gives the public key")
		}
		vReach("gen")
		return
	}
	if v1 != v2 && v1 != sidh.KeyVariantSidhA && v2 != sidh.KeyVariantSidhA {
		return // both of the 3-torsion group: not specified
	}
	ss := vBytes("ss", s1.ss+5)
	keep := append([]byte{}, ss...)
	bad := vPanics(func() { prv.DeriveSecret(ss, pub) })
	vAssert(bad == (s1 != s2 || v1 == v2), "a secret is derived exactly for keys of one field and different variants")
	if bad {
		vAssertBytes(ss, keep, "refused derivation writes nothing")
	}
	vAssertBytes(ss[s1.ss:], keep[s1.ss:], "only the secret is written")
	vAssertBytes(vExp(pub), old, "derivation leaves the public key alone")
	vReach("derive")
}

// K07_kem: buffers.
func K07_kem() {
	s := &vSets[vChoose("set", 3)]
	prv, pub := vKeys(s)
	k := vNewKem(s, vChoose("impl", 2), &vReader{b: vBytes("rnd", s.msg)})
	n := s.pk + s.msg
	cl := vPick("ct", []int{0, s.pk, n - 1, n, n + 1, n + s.pk})
	sl := vPick("ss", []int{0, s.kem - 1, s.kem, s.kem + 1})
	ct, ss := vBytes("ctbuf", cl), vBytes("ssbuf", sl)
	ct0, ss0 := append([]byte{}, ct...), append([]byte{}, ss...)
	var err error
	var bad, want bool
	if vChoose("op", 2) == 0 {
		want = cl < n || sl < s.kem
		bad = vPanics(func() { err = k.Encapsulate(ct, ss, pub) })
	} else {
		want = cl != n || sl < s.kem
		bad = vPanics(func() { err = k.Decapsulate(ss, prv, pub, ct) })
		vAssertBytes(ct, ct0, "decapsulation leaves the ciphertext alone")
	}
	bad = bad || err != nil
	vAssert(bad == want, "exactly buffers of unsuitable size are refused")
	if bad {
		vAssertBytes(ct, ct0, "nothing is written to the ciphertext on refusal")
		vAssertBytes(ss, ss0, "nothing is written to the secret on refusal")
	}
	vReach("kem")
}

// K07_keys: kinds of keys.
func K07_keys() {
	s1, s2 := &vSets[vChoose("set1", 3)], &vSets[vChoose("set2", 3)]
	v1, v2 := vVariants[vChoose("var1", 3)], vVariants[vChoose("var2", 3)]
	prv, _ := vPair(s2, v1, "key1")
	_, pub := vPair(s2, v2, "key2")
	k := vNewKem(s1, vChoose("impl", 2), &vReader{b: vBytes("rnd", s1.msg)})
	ct, ss := vBytes("ctbuf", s1.pk+s1.msg), vBytes("ssbuf", s1.kem)
	ct0, ss0 := append([]byte{}, ct...), append([]byte{}, ss...)
	ok := s1 == s2 && v2 == sidh.KeyVariantSike
	var err error
	var bad bool
	if vChoose("op", 2) == 0 {
		bad = vPanics(func() { err = k.Encapsulate(ct, ss, pub) })
	} else {
		ok = ok && v1 == v2
		bad = vPanics(func() { err = k.Decapsulate(ss, prv, pub, ct) })
	}
	if ok {
		vAssert(!bad && err == nil, "SIKE keys of the field of the KEM are accepted")
	} else {
		vAssert(bad || err != nil, "keys of another field or variant are refused")
		vAssertBytes(ct, ct0, "nothing is written to the ciphertext on refusal")
		vAssertBytes(ss, ss0, "nothing is written to the secret on refusal")
	}
	vReach("keys")
}

// K07_multi: the multi-recipient KEM, and objects that were not allocated.
func K07_multi() {
	s := &vSets[vChoose("set", 3)]
	prv, pub := vKeys(s)
	o := &vSets[vChoose("other", 3)]
	v := vVariants[vChoose("var", 3)]
	oprv, opub := vPair(o, v, "other")
	c := vMulti7(s, 2, &vReader{b: vBytes("rnd", s.msg)})
	sl := vPick("ss", []int{0, s.kem - 1, s.kem, s.kem + 1})
	ss := vBytes("ssbuf", sl)
	ss0 := append([]byte{}, ss...)
	good := o == s && v == sidh.KeyVariantSike
	var err error
	var bad, want bool
	switch vChoose("op", 5) {
	case 0:
		want = sl < s.kem || !good
		bad = vPanics(func() { err = c.Encapsulate(ss, []*sidh.PublicKey{pub, opub}) })
	case 1:
		want = true
		bad = vPanics(func() { err = c.Encapsulate(ss, []*sidh.PublicKey{pub, pub, pub}) })
	case 2:
		l := vPick("ct", []int{0, s.kem - 1, s.kem, s.kem + 1, s.pk})
		want = sl < s.kem || l != s.kem
		ct := vBytes("part", l)
		bad = vPanics(func() { err = c.Decapsulate(ss, prv, pub, ct) })
	case 3:
		if o != s {
			return // only the variants
		}
		want = sl < s.kem || !good
		ct := vBytes("part", s.kem)
		p, q := prv, pub
		if vChoose("which", 2) == 0 {
			p = oprv
		} else {
			q = opub
		}
		bad = vPanics(func() { err = c.Decapsulate(ss, p, q, ct) })
	case 4:
		want = true
		ct := make([]byte, s.pk+s.msg)
		var k vKem = &KEM{}
		switch vChoose("unalloc", 4) {
		case 1:
			k = &sidh.KEM{}
		case 2:
			bad = vPanics(func() { err = (&MultiKEM{}).Encapsulate(ss, []*sidh.PublicKey{pub}) })
			k = nil
		case 3:
			bad = vPanics(func() { err = (&MultiKEM{}).Decapsulate(ss, prv, pub, ct[:s.kem]) })
			k = nil
		}
		if k != nil {
			bad = vPanics(func() { err = k.Encapsulate(ct, ss, pub) })
			bad = bad || err != nil
			vAssert(vPanics(func() { err = k.Decapsulate(ss, prv, pub, ct) }) || err != nil, "an object that was not allocated is refused")
		}
	}
	bad = bad || err != nil
	vAssert(bad == want, "exactly unsuitable arguments are refused")
	if bad {
		vAssertBytes(ss, ss0, "nothing is written to the secret on refusal")
	}
	vReach("multi")
}

func vMulti7(s *vSet, n int, r *vReader) *MultiKEM {
	c := &MultiKEM{}
	c.Allocate(s.id, uint(n), r)
	return c
}
