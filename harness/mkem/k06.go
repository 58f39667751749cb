package mkem

import "github.com/henrydcase/nobs/dh/sidh"

func vMulti(s *vSet, n int, r *vReader) *MultiKEM {
	c := &MultiKEM{}
	c.Allocate(s.id, uint(n), r)
	return c
}

// vMultiSpec: the secret of a recipient for arbitrary ciphertext parts.
func vMultiSpec(s *vSet, prv *sidh.PrivateKey, pub *sidh.PublicKey, c0, ci []byte) []byte {
	j := vSS(s, prv, vImportA(s, c0))
	m := vXor(ci, vShake(s.msg, []byte{2}, j))
	rsk, rpk := vEphemeral(s, []byte{1}, m)
	ci2 := vXor(m, vShake(s.msg, []byte{2}, vSS(s, rsk, pub)))
	a := vSel(vSame(vExp(rpk), c0)&vSame(ci, ci2), m, prv.S)
	return vShake(s.kem, []byte{3}, a)
}

// K06_agree: every recipient obtains the secret.
func K06_agree() {
	s := &vSets[vParam("set", 0)]
	n := 1 + vChoose("n", 3)
	var prvs []*sidh.PrivateKey
	var pubs []*sidh.PublicKey
	for i := 0; i < n; i++ {
		prv, pub := vKeys(s)
		prvs, pubs = append(prvs, prv), append(pubs, pub)
	}
	before := vChoose("before", 2)
	rnd := vBytes("rnd", (1+before)*s.msg)
	c := vMulti(s, n+vChoose("spare", 2), &vReader{b: rnd, chunk: vPick("chunk", []int{0, 3})})
	ss := vBytes("ssbuf", s.kem+vPick("more", []int{0, 5}))
	tail := append([]byte{}, ss[s.kem:]...)
	if before == 1 {
		vAssert(c.Encapsulate(ss, pubs[:1]) == nil, "encapsulation succeeds")
		rnd = rnd[s.msg:]
	}
	vAssert(c.Encapsulate(ss, pubs) == nil, "encapsulation succeeds")
	vAssertBytes(ss[s.kem:], tail, "the secret has exactly the advertised size")
	ss = ss[:s.kem]
	esk, epk := vEphemeral(s, []byte{1}, rnd)
	vAssertBytes(c.ct0[:s.pk], vExp(epk), "ephemeral key is made from H(1 || m)")
	vAssertBytes(ss, vShake(s.kem, []byte{3}, rnd), "secret is H(3 || m)")
	d := c
	switch vChoose("object", 3) {
	case 1:
		c.KEM.Reset() // allowed between calls
	case 2:
		d = vMulti(s, 1, &vReader{})
		d.ct0 = c.ct0
	}
	for i := n - 1; i >= 0; i-- {
		part := append([]byte{}, c.cts[i][:s.kem]...)
		vAssertBytes(part, vXor(rnd, vShake(s.msg, []byte{2}, vSS(s, esk, pubs[i]))), "part is m masked by H(2 || j)")
		got := make([]byte, s.kem)
		vAssert(d.Decapsulate(got, prvs[i], pubs[i], part) == nil, "decapsulation succeeds")
		vAssertBytes(got, ss, "every recipient obtains the encapsulated secret")
		vAssertBytes(part, c.cts[i][:s.kem], "part is left alone")
	}
	vReach("agree")
}

// K06_reject: arbitrary and modified parts.
func K06_reject() {
	s := &vSets[vParam("set", 0)]
	prv, pub := vKeys(s)
	prv2, pub2 := vKeys(s)
	rnd := vBytes("rnd", s.msg)
	c := vMulti(s, 2, &vReader{b: rnd})
	ss := make([]byte, s.kem)
	if vChoose("used", 2) == 1 {
		vAssert(c.Encapsulate(ss, []*sidh.PublicKey{pub, pub2}) == nil, "encapsulation succeeds")
	} else {
		copy(c.msg, vBytes("msg", s.msg))
	}
	kind := vChoose("kind", 6)
	part := append([]byte{}, c.cts[0][:s.msg]...)
	switch kind {
	case 0: // arbitrary
		part = vBytes("part", s.msg)
		copy(c.ct0[:s.pk], vBytes("ct0", s.pk))
	case 1: // modified part
		part = vXor(part, vBytes("delta1", s.msg))
	case 2: // modified ephemeral key
		copy(c.ct0[:], vXor(c.ct0[:s.pk], vBytes("delta0", s.pk)))
	case 5: // modified ephemeral key, part made so that the message is recovered nevertheless
		copy(c.ct0[:], vXor(c.ct0[:s.pk], vBytes("delta0", s.pk)))
		part = vXor(rnd, vShake(s.msg, []byte{2}, vSS(s, prv, vImportA(s, c.ct0[:s.pk]))))
	case 3: // part of the other recipient
		part = append([]byte{}, c.cts[1][:s.msg]...)
	case 4: // key of the other recipient
		prv, pub = prv2, pub2
	}
	c0 := append([]byte{}, c.ct0[:s.pk]...)
	vAssert(c.Decapsulate(ss, prv, pub, part) == nil, "no error tells the cases apart")
	vAssertBytes(ss, vMultiSpec(s, prv, pub, c0, part), "H(3 || m') if the part re-encrypts to itself, H(3 || S) otherwise")
	vReach("reject")
}

// K06_rng: a failing random source is reported.
func K06_rng() {
	s := &vSets[vChoose("set", 3)]
	_, pub := vKeys(s)
	n := vPick("n", []int{0, 1, s.msg - 1})
	c := vMulti(s, 1, &vReader{b: vBytes("rnd", n), chunk: vPick("chunk", []int{0, 5})})
	ss := vBytes("ss", s.kem)
	keep := append([]byte{}, ss...)
	vAssert(c.Encapsulate(ss, []*sidh.PublicKey{pub}) != nil, "failing random source is reported")
	vAssertBytes(ss, keep, "no secret without randomness")
	vReach("rng")
}
