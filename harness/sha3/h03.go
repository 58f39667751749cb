package sha3

// H03_sha3: hash.Hash contract.
func H03_sha3() {
	v := vSha3[vChoose("alg", 4)]
	r := v.rate
	a, b := vPick("a", []int{0, 1, r - 1, r, r + 1}), vPick("b", []int{0, 5, r, 2 * r})
	msg := vBytes("msg", a+b)
	keep := append([]byte{}, msg...)
	d := v.mk()
	vAssert(d.Size() == v.size && d.BlockSize() == v.rate, "SHA3 Size and BlockSize")
	n, err := d.Write(msg[:a])
	vAssert(n == a && err == nil, "SHA3 Write count")
	p := vPick("p", []int{0, 1, 33})
	cp := vPick("cap", []int{0, v.size - 1, v.size, v.size + 7})
	pre := make([]byte, p, p+cp)
	copy(pre, vBytes("pre", p))
	kp := append([]byte{}, pre...)
	good := append(append([]byte{}, kp...), modelXOF(r, 0x06, v.size, msg[:a])...)
	vAssertBytes(d.Sum(pre), good, "SHA3 Sum(b) is b followed by the digest")
	vAssertBytes(pre, kp, "SHA3 Sum leaves the bytes of b alone")
	vAssertBytes(d.Sum(nil), good[p:], "SHA3 Sum repeated gives the same digest")
	n, err = d.Write(msg[a:])
	vAssert(n == b && err == nil, "SHA3 Write after Sum is accepted")
	s := d.Sum(nil)
	t := d.Sum(nil)
	vAssertBytes(s, modelXOF(r, 0x06, v.size, msg), "SHA3 digest after Sum and further writes")
	s[0] ^= 1
	vAssertBytes(t, modelXOF(r, 0x06, v.size, msg), "SHA3 Sum results are independent")
	vAssertBytes(msg, keep, "SHA3 Write leaves its argument alone")
	vReach("sha3contract")
}
