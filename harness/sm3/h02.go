package sm3

func mRot(x uint32, n uint) uint32 { return x<<(n%32) | x>>((32-n)%32) }

// modelCF is the compression function of GB/T 32905-2016, section 5.3.
func modelCF(v [8]uint32, blk []byte) [8]uint32 {
	var w [68]uint32
	var w1 [64]uint32
	for i := 0; i < 16; i++ {
		w[i] = uint32(blk[4*i])<<24 | uint32(blk[4*i+1])<<16 | uint32(blk[4*i+2])<<8 | uint32(blk[4*i+3])
	}
	for j := 16; j < 68; j++ {
		x := w[j-16] ^ w[j-9] ^ mRot(w[j-3], 15)
		w[j] = x ^ mRot(x, 15) ^ mRot(x, 23) ^ mRot(w[j-13], 7) ^ w[j-6]
	}
	for j := 0; j < 64; j++ {
		w1[j] = w[j] ^ w[j+4]
	}
	a, b, c, d, e, f, g, h := v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]
	for j := 0; j < 64; j++ {
		t := uint32(0x79cc4519)
		if j >= 16 {
			t = 0x7a879d8a
		}
		ss1 := mRot(mRot(a, 12)+e+mRot(t, uint(j)), 7)
		ss2 := ss1 ^ mRot(a, 12)
		ff, gg := a^b^c, e^f^g
		if j >= 16 {
			ff, gg = a&b|a&c|b&c, e&f|^e&g
		}
		tt1 := ff + d + ss2 + w1[j]
		tt2 := gg + h + ss1 + w[j]
		d, c, b, a = c, mRot(b, 9), a, tt1
		h, g, f, e = g, mRot(f, 19), e, tt2^mRot(tt2, 9)^mRot(tt2, 17)
	}
	return [8]uint32{a ^ v[0], b ^ v[1], c ^ v[2], d ^ v[3], e ^ v[4], f ^ v[5], g ^ v[6], h ^ v[7]}
}

func H02_block() {
	vCoarse()
	n := vParam("blocks", 1)
	var d digest
	for i := range d.h {
		d.h[i] = vU32("h" + string(byte(48+i)))
	}
	want := d.h
	off := vChoose("offset", 2) * 3
	in := vBytes("in", 64*n+off)
	buf := append([]byte{}, in...)
	b0, l0 := vBytes("buf", 64), vU64("len")
	copy(d.b[:], b0)
	d.len = l0
	d.compress(in[off:], n)
	for k := 0; k < n; k++ {
		want = modelCF(want, buf[off+64*k:])
	}
	for i := range want {
		vAssert(d.h[i] == want[i], "chaining value")
	}
	vAssertBytes(d.b[:], b0, "buffer untouched")
	vAssert(d.len == l0, "length untouched")
	vAssertBytes(in, buf, "input untouched")
	vReach("block")
}

// H02_many: hundreds of blocks in one call, the last one arbitrary.
func H02_many() {
	vCoarse()
	n := [...]int{256, 257, 300}[vChoose("n", 3)]
	var d digest
	for i := range d.h {
		d.h[i] = uint32(i) * 0x9e3779b9
	}
	want := d.h
	in := make([]byte, 64*n)
	for i := range in {
		in[i] = byte(i>>6 + i)
	}
	copy(in[64*n-64:], vBytes("in", 64))
	d.compress(in, n)
	for k := 0; k < n; k++ {
		want = modelCF(want, in[64*k:])
	}
	for i := range want {
		vAssert(d.h[i] == want[i], "chaining value after many blocks")
	}
	vReach("many")
}
