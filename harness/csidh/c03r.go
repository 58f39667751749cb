package csidh

// C03_rand: random field elements are reduced, all smaller values occur and too large
// draws are dropped.
func C03_rand() {
	b := vBytes("rnd", 128)
	var w [2]fp
	for r := 0; r < 2; r++ {
		for i := 0; i < 64; i++ {
			w[r][i/8] |= uint64(b[64*r+i]) << uint(8*(i%8))
		}
		w[r][7] &= 1<<63 - 1
	}
	ok0 := vLess(w[0][:], p[:])
	ok1 := vLess(w[1][:], p[:])
	vAssume(ok0 || ok1)
	var g fpRngGen
	var v fp
	copy(v[:], vWords("old", 8))
	g.randFp(&v, &vReader{b: b, chunk: vPick("chunk", []int{0, 60})})
	if ok0 {
		vAssert(v == w[0], "first draw below p is used")
	} else {
		vAssert(v == w[1], "draw above p is dropped")
	}
	vReach("rand")
}
