package sha3

func modelLeft(x uint64) []byte {
	var b []byte
	for x > 0 {
		b = append([]byte{byte(x)}, b...)
		x >>= 8
	}
	if len(b) == 0 {
		b = []byte{0}
	}
	return append([]byte{byte(len(b))}, b...)
}

// modelPrefix: SP 800-185, 3.3: bytepad(encode_string(N) || encode_string(S), w)
func modelPrefix(N, S []byte, w int) []byte {
	b := modelLeft(uint64(w))
	b = append(b, modelLeft(uint64(len(N))*8)...)
	b = append(b, N...)
	b = append(b, modelLeft(uint64(len(S))*8)...)
	b = append(b, S...)
	for len(b)%w != 0 {
		b = append(b, 0)
	}
	return b
}

func modelCShake(rate, n int, N, S, msg []byte) []byte {
	if len(N) == 0 && len(S) == 0 {
		return modelXOF(rate, 0x1f, n, msg)
	}
	return modelXOF(rate, 0x04, n, append(modelPrefix(N, S, rate), msg...))
}

func vCS(alg int, N, S []byte) (ShakeHash, int) {
	if alg == 0 {
		return NewCShake128(N, S), 168
	}
	return NewCShake256(N, S), 136
}

// H06_prefix: every length of S across two rate boundaries, selected lengths of N.
func H06_prefix() {
	alg := vChoose("alg", 2)
	N := vBytes("N", vPick("n", []int{0, 1, 2, 31, 32, 33}))
	S := vBytes("S", vChoose("s", vParam("maxs", 345)))
	msg := vBytes("msg", 3)
	d, rate := vCS(alg, N, S)
	d.Write(msg)
	o := make([]byte, 32)
	d.Read(o)
	vAssertBytes(o, modelCShake(rate, 32, N, S, msg), "cSHAKE output for every prefix length")
	vReach("prefix")
}

// H06_long: lengths at which left_encode grows to three bytes.
func H06_long() {
	alg := vChoose("alg", 2)
	n, s := 0, 0
	if vChoose("which", 2) == 0 {
		n = vPick("n", []int{8191, 8192})
	} else {
		s = vPick("s", []int{8191, 8192, 8193})
	}
	N, S := vBytes("N", n), vBytes("S", s)
	d, rate := vCS(alg, N, S)
	o := make([]byte, 32)
	d.Read(o)
	vAssertBytes(o, modelCShake(rate, 32, N, S, nil), "cSHAKE output for long N or S")
	vReach("long")
}

// H06_history: Reset, Clone, caller's slices changing, several reads.
func H06_history() {
	alg := vChoose("alg", 2)
	N := vBytes("N", vPick("n", []int{0, 4}))
	S := vBytes("S", vPick("s", []int{0, 1, 130, 158, 162}))
	kn, ks := append([]byte{}, N...), append([]byte{}, S...)
	// both strings lie inside larger buffers of the caller
	bn, bs := append(append([]byte{}, N...), make([]byte, 200)...), append(append([]byte{}, S...), make([]byte, 200)...)
	N, S = bn[:len(N)], bs[:len(S)]
	msg := vBytes("msg", vPick("m", []int{0, 1, 170}))
	d, rate := vCS(alg, N, S)
	for i := range N {
		N[i] ^= 0x55
	}
	for i := range S {
		S[i] ^= 0xaa
	}
	zero := make([]byte, 200)
	vAssertBytes(bn[len(N):], zero, "memory behind N unchanged")
	vAssertBytes(bs[len(S):], zero, "memory behind S unchanged")
	want := modelCShake(rate, rate+5, kn, ks, msg)
	switch vChoose("h", 5) {
	case 0: // use, reset, use
		d.Write(vBytes("x", 7))
		d.Reset()
	case 1: // use and read, reset
		d.Write(vBytes("x", rate))
		d.Read(make([]byte, 9))
		d.Reset()
	case 2: // clone, change the original, use the clone
		e := d.Clone()
		d.Write(vBytes("x", 7))
		d.Read(make([]byte, 5))
		d = e
	case 3: // clone is reset after use
		e := d.Clone()
		e.Write(vBytes("x", 7))
		e.Reset()
		d.Write([]byte{1})
		d = e
	case 4: // clone while squeezing, then reset of the clone
		d.Read(make([]byte, 1))
		e := d.Clone()
		e.Reset()
		d = e
	}
	d.Write(msg)
	o1, o2 := make([]byte, 5), make([]byte, rate)
	d.Read(o1)
	e := d.Clone()
	d.Read(o2)
	o3 := make([]byte, rate)
	e.Read(o3)
	vAssertBytes(o1, want[:5], "cSHAKE first read")
	vAssertBytes(o2, want[5:], "cSHAKE second read")
	vAssertBytes(o3, want[5:], "cSHAKE clone read")
	vReach("history")
}
