package mkem


// vUse puts a KEM object through earlier operations.
func vUse(s *vSet, k vKem, h int) {
	if h == 0 {
		return
	}
	prv, pub := vKeys(s)
	ct := vBytes("oldct", k.CiphertextSize())
	ss := make([]byte, k.SharedSecretSize())
	switch h {
	case 1:
		k.Encapsulate(ct, ss, pub)
	case 2:
		k.Decapsulate(ss, prv, pub, ct)
	case 3:
		k.Encapsulate(ct, ss, pub)
		k.Reset()
	}
}

// K03_agree: encapsulation and decapsulation give the same secret.
func K03_agree() {
	s := &vSets[vParam("set", 0)]
	i1, i2 := vChoose("encapsulator", 2), vChoose("decapsulator", 2)
	h1, h2 := vChoose("before", 4), vChoose("between", 4)
	if h1 != 0 && h2 != 0 && vParam("all", 0) == 0 {
		vAssume(h1 == h2)
	}
	prv, pub := vKeys(s)
	sk := make([]byte, prv.Size())
	prv.Export(sk)
	pkb := vExp(pub)
	msgs := 1
	if h1 == 1 || h1 == 3 {
		msgs++
	}
	m := vBytes("rnd", msgs*s.msg)
	r := &vReader{b: m, chunk: vPick("chunk", []int{0, 3})}
	e := vNewKem(s, i1, r)
	vAssert(e.CiphertextSize() == s.pk+s.msg && e.SharedSecretSize() == s.kem, "sizes")
	vUse(s, e, h1)
	m = m[(msgs-1)*s.msg:]
	d := e
	if vChoose("objects", 2) == 1 {
		if i1 == i2 { // covered with the other implementation
			vAssume(h1 != h2 || h1 == 0)
		}
		d = vNewKem(s, i2, &vReader{b: vBytes("rnd2", s.msg)})
	} else {
		vAssume(i1 == i2)
	}
	more := vPick("more", []int{0, 1, 64})
	ct := vBytes("ctbuf", s.pk+s.msg+more)
	tail := append([]byte{}, ct[s.pk+s.msg:]...)
	ss := vBytes("ssbuf", s.kem+more)
	stail := append([]byte{}, ss[s.kem:]...)
	vAssert(e.Encapsulate(ct, ss, pub) == nil, "encapsulation succeeds")
	vAssertBytes(ct[s.pk+s.msg:], tail, "the ciphertext has exactly the advertised size")
	vAssertBytes(ss[s.kem:], stail, "the secret has exactly the advertised size")
	ct, ss = ct[:s.pk+s.msg], ss[:s.kem]
	if h2 == 1 || h2 == 3 {
		h2 = 2
		if d != e {
			h2 = 3
		}
	}
	if d != e || h2 == 2 {
		vUse(s, d, h2)
	}
	keep := append([]byte{}, ct...)
	s2 := vBytes("ssbuf2", s.kem+more)
	stail = append([]byte{}, s2[s.kem:]...)
	vAssert(d.Decapsulate(s2, prv, pub, ct) == nil, "decapsulation succeeds")
	vAssertBytes(s2[:s.kem], ss, "both sides get the same secret")
	vAssertBytes(s2[s.kem:], stail, "the decapsulated secret has exactly the advertised size")
	vAssertBytes(ct, keep, "ciphertext is left alone")
	vAssertBytes(vExp(pub), pkb, "public key is left alone")
	sk2 := make([]byte, prv.Size())
	prv.Export(sk2)
	vAssertBytes(sk2, sk, "private key is left alone")
	vReach("agree")
}

// K05_rng: a failing random source is reported, before anything secret is produced.
func K05_rng() {
	s := &vSets[vChoose("set", 3)]
	_, pub := vKeys(s)
	n := vPick("n", []int{0, 1, s.msg / 2, s.msg - 1})
	k := vNewKem(s, vChoose("impl", 2), &vReader{b: vBytes("rnd", n), chunk: vPick("chunk", []int{0, 5})})
	ct := vBytes("ct", s.pk+s.msg)
	ss := vBytes("ss", s.kem)
	k1, k2 := append([]byte{}, ct...), append([]byte{}, ss...)
	vAssert(k.Encapsulate(ct, ss, pub) != nil, "failing random source is reported")
	vAssertBytes(ct, k1, "no ciphertext without randomness")
	vAssertBytes(ss, k2, "no secret without randomness")
	vReach("rng")
}

// K04_reject: any ciphertext gives SHAKE256(m' || ct) if it is the encryption of the
// recovered message m', SHAKE256(S || ct) otherwise.
func K04_reject() {
	s := &vSets[vParam("set", 0)]
	prv, pub := vKeys(s)
	k := vNewKem(s, vChoose("impl", 2), &vReader{b: vBytes("rnd0", 2*s.msg)})
	switch vChoose("before", 3) {
	case 1:
		vUse(s, k, 1)
	case 2:
		vUse(s, k, 2)
	}
	var ct []byte
	kind := vChoose("kind", 4)
	m := vBytes("m", s.msg)
	if kind == 0 { // arbitrary
		ct = vBytes("ct", s.pk+s.msg)
	} else { // an honest one, modified
		esk, epk := vEphemeral(s, m, vExp(pub))
		ct = append(vExp(epk), vXor(m, vShake(s.msg, vSS(s, esk, pub)))...)
		switch kind {
		case 1:
			copy(ct, vXor(ct[:s.pk], vBytes("delta0", s.pk)))
		case 2:
			copy(ct[s.pk:], vXor(ct[s.pk:], vBytes("delta1", s.msg)))
		case 3:
			// c0 is modified, c1 made so that m is recovered nevertheless
			copy(ct, vXor(ct[:s.pk], vBytes("delta0", s.pk)))
			copy(ct[s.pk:], vXor(m, vShake(s.msg, vSS(s, prv, vImportA(s, ct[:s.pk])))))
		}
	}
	keep := append([]byte{}, ct...)
	ss := make([]byte, s.kem)
	vAssert(k.Decapsulate(ss, prv, pub, ct) == nil, "no error tells the cases apart")
	vAssertBytes(ct, keep, "ciphertext is left alone")
	mp := vXor(ct[s.pk:], vShake(s.msg, vSS(s, prv, vImportA(s, ct[:s.pk]))))
	_, rpk := vEphemeral(s, mp, vExp(pub))
	same := vSame(vExp(rpk), ct[:s.pk])
	want := vShake(s.kem, vSel(same, mp, prv.S), ct)
	vAssertBytes(ss, want, "secret is SHAKE256(m' || ct) for honest ciphertexts, SHAKE256(S || ct) for all others")
	vReach("reject")
}

// K05_spec: every value is derived from the specified inputs.
func K05_spec() {
	s := &vSets[vParam("set", 0)]
	prv, pub := vKeys(s)
	pkb := vExp(pub)
	m := vBytes("rnd", s.msg)
	k := vNewKem(s, vChoose("impl", 2), &vReader{b: m, chunk: vPick("chunk", []int{0, 3})})
	vAssert(k.CiphertextSize() == s.pk+s.msg && k.SharedSecretSize() == s.kem, "sizes")
	ct, ss := make([]byte, s.pk+s.msg), make([]byte, s.kem)
	vAssert(k.Encapsulate(ct, ss, pub) == nil, "encapsulation succeeds")
	esk, epk := vEphemeral(s, m, pkb)
	vAssertBytes(ct[:s.pk], vExp(epk), "c0 is the public key made from SHAKE256(m || pk)")
	vAssertBytes(ct[s.pk:], vXor(m, vShake(s.msg, vSS(s, esk, pub))), "c1 is m masked by SHAKE256(j)")
	vAssertBytes(ss, vShake(s.kem, m, ct), "secret is SHAKE256(m || c0 || c1)")
	// decapsulation of an arbitrary ciphertext
	ct = vBytes("ct", s.pk+s.msg)
	vAssert(k.Decapsulate(ss, prv, pub, ct) == nil, "decapsulation succeeds")
	mp := vXor(ct[s.pk:], vShake(s.msg, vSS(s, prv, vImportA(s, ct[:s.pk]))))
	_, rpk := vEphemeral(s, mp, vExp(pub))
	vAssertBytes(ss, vShake(s.kem, vSel(vSame(vExp(rpk), ct[:s.pk]), mp, prv.S), ct), "secret is SHAKE256(m' || ct)")
	vReach("spec")
}
