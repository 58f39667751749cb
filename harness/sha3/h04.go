package sha3

// Keccak-f[1600] of FIPS 202, section 3.2 and 3.3.
func modelKeccak(s [25]uint64) [25]uint64 {
	var a [5][5]uint64
	for x := 0; x < 5; x++ {
		for y := 0; y < 5; y++ {
			a[x][y] = s[5*y+x]
		}
	}
	rot := func(v uint64, n uint) uint64 { return v<<(n%64) | v>>((64-n%64)%64) }
	// round constants from the LFSR x^8+x^6+x^5+x^4+1
	lf := uint(1)
	rc := func() bool {
		b := lf&1 == 1
		lf <<= 1
		if lf&0x100 != 0 {
			lf ^= 0x171
		}
		return b
	}
	for r := 0; r < 24; r++ {
		// theta
		var c [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4]
		}
		for x := 0; x < 5; x++ {
			d := c[(x+4)%5] ^ rot(c[(x+1)%5], 1)
			for y := 0; y < 5; y++ {
				a[x][y] ^= d
			}
		}
		// rho
		x, y := 1, 0
		for t := 0; t < 24; t++ {
			a[x][y] = rot(a[x][y], uint((t+1)*(t+2)/2))
			x, y = y, (2*x+3*y)%5
		}
		// pi
		var b [5][5]uint64
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				b[x][y] = a[(x+3*y)%5][x]
			}
		}
		// chi
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				a[x][y] = b[x][y] ^ ^b[(x+1)%5][y]&b[(x+2)%5][y]
			}
		}
		// iota
		k := uint64(0)
		for j := uint(0); j < 7; j++ {
			if rc() {
				k |= uint64(1) << (uint(1)<<j - 1)
			}
		}
		a[0][0] ^= k
	}
	for x := 0; x < 5; x++ {
		for y := 0; y < 5; y++ {
			s[5*y+x] = a[x][y]
		}
	}
	return s
}

func H04_perm() {
	vCoarse()
	var mem [27]uint64
	copy(mem[:], vWords("a", 27))
	old := mem
	var s [25]uint64
	copy(s[:], mem[1:26])
	want := modelKeccak(s)
	st := struct {
		lo uint64
		a  [25]uint64
		hi uint64
	}{mem[0], s, mem[26]}
	keccakF1600(&st.a)
	for i := range want {
		vAssert(st.a[i] == want[i], "lane")
	}
	vAssert(st.lo == old[0] && st.hi == old[26], "neighbouring memory untouched")
	vReach("perm")
}

func H04_twice() {
	vCoarse()
	var s [25]uint64
	copy(s[:], vWords("a", 25))
	want := modelKeccak(modelKeccak(s))
	keccakF1600(&s)
	keccakF1600(&s)
	for i := range want {
		vAssert(s[i] == want[i], "lane after two applications")
	}
	vReach("twice")
}
