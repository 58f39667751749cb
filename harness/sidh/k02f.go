package sidh

// K02_free: the function form reports failures too.
func K02_free() {
	s := &vSets[vChoose("set", 3)]
	v := vVariants[vChoose("variant", 3)]
	need := vPrvSize(s, v)
	n := vPick("n", []int{0, 1, need - 1, need})
	rnd := vBytes("rnd", n)
	prv := NewPrivateKey(s.id, v)
	err := GeneratePrivateKey(prv, &vReader{b: rnd})
	if n < need {
		vAssert(err != nil, "failing random source is reported")
		vReach("free fail")
		return
	}
	vAssert(err == nil, "generation succeeds")
	p2 := NewPrivateKey(s.id, v)
	p2.Generate(&vReader{b: rnd})
	a, b := make([]byte, need), make([]byte, need)
	prv.Export(a)
	p2.Export(b)
	vAssertBytes(a, b, "same key as the method")
	vReach("free")
}
