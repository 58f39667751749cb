package csidh

func vAcc(b byte) bool { return int8(b) <= 5 && int8(b) >= -5 }

// class of the byte at stream position i, for the chosen pattern:
// 0 arbitrary, 1 accepted, 2 rejected (large), 3 rejected (small), 4..6 boundary values
func vClass(pat, pos, i int) int {
	rej := 2 + i%2
	switch pat {
	case 0: // a few arbitrary bytes, the rest accepted
		if i >= pos && i < pos+3 {
			return 0
		}
		return 1
	case 1: // one rejection
		if i == pos {
			return rej
		}
		return 1
	case 2: // alternating
		if i%2 == 1 {
			return rej
		}
		return 1
	case 3: // a whole buffer rejected first
		if i < 64 {
			return rej
		}
		return 1
	case 4: // one accepted byte per buffer until the end
		if i%64 == 63 || i > 300 {
			return 1
		}
		return rej
	}
	return 1
}

var vCombo bool

// vStream builds a stream of symbolic bytes whose classes follow the pattern.
func vStream(n int) []byte {
	pat := vChoose("pattern", 5)
	vCombo = pat >= 2
	pos := 0
	if pat == 0 {
		pos = vPick("pos", []int{0, 30, 61, 62, 72})
	} else if pat == 1 {
		pos = vChoose("pos1", 76)
	}
	s := vBytes("rnd", n)
	for i := range s {
		v := int8(s[i])
		switch vClass(pat, pos, i) {
		case 1:
			vAssume(v <= 5)
			vAssume(v >= -5)
		case 2:
			vAssume(v > 5)
		case 3:
			vAssume(v < -5)
		}
	}
	return s
}

func vNib(e []byte, i int) int8 {
	if i%2 == 0 {
		return int8(e[i/2]<<4) >> 4
	}
	return int8(e[i/2]) >> 4
}

// C01_gen: the exponents are the accepted bytes of the random stream, in order.
func C01_gen() {
	s := vStream(384)
	var key PrivateKey
	used, chunk := 0, 0
	if vCombo {
		used, chunk = vChoose("used", 2), vPick("chunk", []int{0, 1, 50})
	}
	if used == 1 {
		old := vBytes("old", PrivateKeySize)
		for i := range old {
			key.e[i] = int8(old[i])
		}
	}
	err := GeneratePrivateKey(&key, &vReader{b: s, chunk: chunk})
	vAssert(err == nil, "generation succeeds on an endless stream")
	out := make([]byte, PrivateKeySize)
	vAssert(key.Export(out), "export")
	j := 0
	for i := 0; i < primeCount; i++ {
		for !vAcc(s[j]) {
			j++
		}
		n := vNib(out, i)
		vAssert(n == int8(s[j]) && n >= -5 && n <= 5, "exponent is the next accepted random byte and lies in [-5,5]")
		j++
	}
	vObserve("key", out)
	vReach("gen")
}

// C01_fail: a random source that ends too early is reported.
func C01_fail() {
	n := vChoose("n", 130)
	s := vBytes("rnd", n)
	rej := vChoose("rej", 2) == 1
	for i := range s {
		v := int8(s[i])
		if rej && i%2 == 0 {
			vAssume(v > 5)
		} else {
			vAssume(v <= 5)
			vAssume(v >= -5)
		}
	}
	var key PrivateKey
	err := GeneratePrivateKey(&key, &vReader{b: s, chunk: vPick("chunk", []int{0, 7})})
	full := n - n%64 // whole buffers
	acc := full
	if rej {
		acc = full / 2
	}
	// sources with a usable whole-buffer prefix may be accepted
	if acc < primeCount && n < 128 {
		vAssert(err != nil, "failing random source is reported")
	}
	vReach("fail")
}

// C01_codec: import and export of private keys.
func C01_codec() {
	n := vPick("n", []int{0, 1, 36, 37, 38, 40, 64, 100})
	b := vBytes("key", n)
	var key PrivateKey
	old := vBytes("old", PrivateKeySize)
	for i := range old {
		key.e[i] = int8(old[i])
	}
	r := false
	vAssert(!vPanics(func() { r = key.Import(b) }), "import does not crash")
	out := make([]byte, PrivateKeySize)
	vAssert(key.Export(out), "export into an exact buffer")
	if n == PrivateKeySize {
		vAssert(r, "import accepts the right length")
		vAssertBytes(out, b, "export returns what was imported")
	} else {
		vAssert(!r, "import refuses a wrong length")
		vAssertBytes(out, old, "refused import leaves the key alone")
	}
	m := vPick("m", []int{0, 1, 36, 38, 64})
	fill := vBytes("fill", m)
	buf := append([]byte{}, fill...)
	ok := true
	vAssert(!vPanics(func() { ok = key.Export(buf) }), "export does not crash")
	if m < PrivateKeySize {
		vAssert(!ok, "export refuses a short buffer")
		vAssertBytes(buf, fill, "refused export leaves the buffer alone")
	} else if ok {
		vAssertBytes(buf[:PrivateKeySize], out, "export into a larger buffer")
	}
	var cpy PrivateKey
	vAssert(cpy.Import(out) && cpy.e == key.e, "imported key equals the exported one")
	vReach("codec")
}
