package csidh

func C02_codec() {
	n := vPick("n", []int{0, 1, 8, 63, 64, 65, 72, 128})
	b := vBytes("key", n)
	w := vWords("old", 8)
	var pub PublicKey
	used := vChoose("used", 2) == 1
	if used {
		copy(pub.a[:], w)
	}
	r := false
	vAssert(!vPanics(func() { r = pub.Import(b) }), "import does not crash")
	out := make([]byte, 64)
	vAssert(pub.Export(out), "export into an exact buffer")
	if n == 64 {
		vAssert(r, "import accepts 64 bytes")
		vAssertBytes(out, b, "export returns what was imported")
		for i := 0; i < 8; i++ {
			var x uint64
			for k := 7; k >= 0; k-- {
				x = x<<8 | uint64(b[8*i+k])
			}
			vAssert(pub.a[i] == x, "coefficient is little endian")
		}
	} else {
		vAssert(!r, "import refuses a wrong length")
		var old fp
		if used {
			copy(old[:], w)
		}
		vAssert(pub.a == old, "refused import leaves the key alone")
	}
	m := vPick("m", []int{0, 1, 63, 65, 128})
	fill := vBytes("fill", m)
	buf := append([]byte{}, fill...)
	ok := true
	vAssert(!vPanics(func() { ok = pub.Export(buf) }), "export does not crash")
	vAssert(!ok, "export refuses a buffer of another length")
	vAssertBytes(buf, fill, "refused export leaves the buffer alone")
	vObserve("out", out)
	// a second import replaces the first
	c := vBytes("key2", 64)
	vAssert(pub.Import(c) && pub.Export(out), "second import")
	vAssertBytes(out, c, "second import replaces the key")
	// copies are independent
	cp := pub
	vAssert(cp.Import(make([]byte, 64)), "import into a copy")
	pub.Export(out)
	vAssertBytes(out, c, "copy does not share state")
	vReach("codec")
}
