package sidh

// K02_gen: every private key lies in the documented interval, its other bits come from
// the random source; a source that fails is reported.
func K02_gen() {
	s := &vSets[vChoose("set", 3)]
	vi := vChoose("variant", 3)
	v := vVariants[vi]
	prv := NewPrivateKey(s.id, v)
	if vChoose("used", 2) == 1 {
		prv.Import(vBytes("old", prv.Size()))
	}
	need := vPrvSize(s, v)
	n := need + vChoose("extra", 2)
	rnd := vBytes("rnd", n)
	err := prv.Generate(&vReader{b: rnd, chunk: vPick("chunk", []int{0, 1, 13})})
	vAssert(err == nil, "generation succeeds")
	if v == KeyVariantSike {
		vAssertBytes(prv.S, rnd[:s.msg], "S is random")
		rnd = rnd[s.msg:]
	}
	k := 0
	if vi > 0 {
		k = 1
	}
	bits := s.bits[k]
	vAssert(len(prv.Scalar) == s.bytes[k], "length of the scalar")
	for i, b := range prv.Scalar {
		for j := 0; j < 8; j++ {
			bit := b >> uint(j) & 1
			switch {
			case 8*i+j >= bits:
				vAssert(bit == 0, "no bit above the key space")
			case 8*i+j == bits-1:
				vAssert(bit == 1, "top bit of the key space is set")
			default:
				vAssert(bit == rnd[i]>>uint(j)&1, "other bits come from the random source")
			}
		}
	}
	vObserve("key", prv.Scalar)
	vReach("gen")
}

// K02_fail: short sources.
func K02_fail() {
	s := &vSets[vChoose("set", 3)]
	v := vVariants[vChoose("variant", 3)]
	prv := NewPrivateKey(s.id, v)
	n := vChoose("n", vPrvSize(s, v))
	r := &vReader{b: vBytes("rnd", n), chunk: vPick("chunk", []int{0, 5})}
	vAssert(prv.Generate(r) != nil, "failing random source is reported")
	vReach("fail")
}
