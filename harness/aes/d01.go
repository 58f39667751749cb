package aes

// AES as FIPS 197 defines it: the S-box from inversion in GF(2^8) and the affine
// map, everything else bytewise.
func mXtime(b byte) byte { return b<<1 ^ byte(int8(b)>>7)&0x1b }

func mGmul(a, b byte) (r byte) {
	for i := 0; i < 8; i++ {
		if b>>uint(i)&1 == 1 {
			r ^= a
		}
		a = mXtime(a)
	}
	return
}

var mS, mI [256]byte

func init() {
	for i := 0; i < 256; i++ {
		inv := byte(0)
		if i != 0 {
			inv = 1 // i^254
			p := byte(i)
			for e := uint(1); e < 8; e++ {
				p = mGmul(p, p)
				inv = mGmul(inv, p)
			}
		}
		s := inv
		for k := uint(1); k < 5; k++ {
			s ^= inv<<k | inv>>(8-k)
		}
		s ^= 0x63
		mS[i] = s
		mI[s] = byte(i)
	}
}

func mExpand(key []byte) []byte {
	nk := len(key) / 4
	nr := nk + 6
	w := append([]byte{}, key...)
	rc := byte(1)
	for i := nk; i < 4*(nr+1); i++ {
		t := [4]byte{w[4*i-4], w[4*i-3], w[4*i-2], w[4*i-1]}
		if i%nk == 0 {
			t = [4]byte{mS[t[1]] ^ rc, mS[t[2]], mS[t[3]], mS[t[0]]}
			rc = mXtime(rc)
		} else if nk > 6 && i%nk == 4 {
			t = [4]byte{mS[t[0]], mS[t[1]], mS[t[2]], mS[t[3]]}
		}
		for j := 0; j < 4; j++ {
			w = append(w, w[4*(i-nk)+j]^t[j])
		}
	}
	return w
}

func mMix(s [16]byte, m [4]byte) (r [16]byte) {
	for c := 0; c < 16; c += 4 {
		for i := 0; i < 4; i++ {
			for j := 0; j < 4; j++ {
				r[c+i] ^= mGmulC(s[c+j], m[(j-i+4)%4])
			}
		}
	}
	return
}

func mGmulC(a, k byte) (r byte) { return mGmul(a, k) }

func mEncrypt(key, in []byte) []byte {
	w := mExpand(key)
	nr := len(key)/4 + 6
	var s [16]byte
	for i := range s {
		s[i] = in[i] ^ w[i]
	}
	for r := 1; r <= nr; r++ {
		var t [16]byte
		for i := range t {
			t[i] = mS[s[(i+4*(i%4))%16]]
		}
		if r < nr {
			t = mMix(t, [4]byte{2, 3, 1, 1})
		}
		for i := range t {
			s[i] = t[i] ^ w[16*r+i]
		}
	}
	return s[:]
}

func mDecrypt(key, in []byte) []byte {
	w := mExpand(key)
	nr := len(key)/4 + 6
	var s [16]byte
	for i := range s {
		s[i] = in[i] ^ w[16*nr+i]
	}
	for r := nr - 1; r >= 0; r-- {
		var t [16]byte
		for i := range t {
			t[(i+4*(i%4))%16] = mI[s[i]]
		}
		for i := range t {
			t[i] ^= w[16*r+i]
		}
		if r > 0 {
			t = mMix(t, [4]byte{14, 11, 13, 9})
		}
		s = t
	}
	return s[:]
}

var mSizes = []int{16, 24, 32}

func mNew() IAES {
	if vParam("asm", 0) == 1 {
		return mAsm()
	}
	return new(AES)
}

// mCheck compares one block operation with FIPS 197, for the ways a caller can lay
// out the buffers.
func mCheck(c IAES, key []byte, tag string) {
	in := vBytes(tag+"block", 16)
	dec := vChoose("decrypt", 2) == 1
	var want []byte
	if dec {
		want = mDecrypt(key, in)
	} else {
		want = mEncrypt(key, in)
	}
	op := c.Encrypt
	if dec {
		op = c.Decrypt
	}
	buf := make([]byte, 48)
	for i := range buf {
		buf[i] = byte(i)
	}
	switch vChoose("layout", 3) {
	case 0: // separate, longer buffers
		src := append(append([]byte{}, in...), 1, 2, 3)
		op(buf[8:30], src)
		vAssertBytes(buf[8:24], want, "block")
		vAssertBytes(src, append(append([]byte{}, in...), 1, 2, 3), "source untouched")
		for i := range buf {
			if i < 8 || i >= 24 {
				vAssert(buf[i] == byte(i), "outside the block untouched")
			}
		}
	case 1: // in place
		copy(buf[8:], in)
		op(buf[8:24], buf[8:24])
		vAssertBytes(buf[8:24], want, "block in place")
	case 2: // adjacent
		copy(buf[8:], in)
		op(buf[24:40], buf[8:24])
		vAssertBytes(buf[24:40], want, "adjacent block")
		vAssertBytes(buf[8:24], in, "source untouched")
	}
}

func D01_block() {
	vCoarse()
	n := mSizes[vParam("size", 0)]
	key := vBytes("key", n)
	k := append([]byte{}, key...)
	c := mNew()
	vAssert(c.SetKey(k) == nil, "key accepted")
	vAssertBytes(k, key, "key untouched")
	for i := range k {
		k[i] = 0
	}
	mCheck(c, key, "")
	vReach("block")
}

// D01_rekey sets a key, uses the object and sets another key.
func D01_rekey() {
	vCoarse()
	n := vParam("size", 0)
	key := vBytes("key", mSizes[n])
	c := mNew()
	m := vChoose("size", 3)
	first := make([]byte, mSizes[m])
	for i := range first {
		first[i] = byte(7*i + 1)
	}
	vAssert(c.SetKey(first) == nil, "key accepted")
	var b [16]byte
	if vChoose("use", 2) == 1 {
		c.Encrypt(b[:], b[:])
		c.Decrypt(b[:], b[:])
		vAssert(b == [16]byte{}, "round trip")
	}
	vAssert(c.SetKey(key) == nil, "key accepted")
	mCheck(c, key, "")
	vReach("rekey")
}

func D01_size() {
	n := vChoose("n", 70)
	c := mNew()
	bad := n != 16 && n != 24 && n != 32
	key := vBytes("key", n)
	if vChoose("nil", 2) == 1 && n == 0 {
		key = nil
	}
	var err error
	p := vPanics(func() { err = c.SetKey(key) })
	vAssert(!p, "SetKey does not panic")
	vAssert((err != nil) == bad, "exactly the three key sizes are accepted")
	vReach("size")
}

func D01_short() {
	c := mNew()
	vAssert(c.SetKey(make([]byte, 16)) == nil, "key accepted")
	a, b := vChoose("dst", 18), vChoose("src", 18)
	dst, src := make([]byte, a), make([]byte, b)
	op := c.Encrypt
	if vChoose("decrypt", 2) == 1 {
		op = c.Decrypt
	}
	p := vPanics(func() { op(dst, src) })
	vAssert(p == (a < 16 || b < 16), "short buffers are refused")
	if p {
		for i := range dst {
			vAssert(dst[i] == 0, "nothing written")
		}
	}
	vReach("short")
}
