package sm3

// H03_contract: Write count, Sum(nil) repeatable and followed by writes, inputs untouched.
func H03_contract() {
	a := []int{0, 1, 63, 64, 65, 130}[vChoose("a", 6)]
	b := []int{0, 5, 64, 70}[vChoose("b", 4)]
	msg := vBytes("msg", a+b)
	keep := append([]byte{}, msg...)
	d := New()
	vAssert(d.Size() == 32 && d.BlockSize() == 64, "SM3 Size and BlockSize")
	n, err := d.Write(msg[:a])
	vAssert(n == a && err == nil, "SM3 Write returns len(p), nil (first write)")
	s1 := d.Sum(nil)
	s2 := d.Sum(nil)
	vAssertBytes(s1, s2, "SM3 Sum twice gives the same digest")
	vAssertBytes(s1, modelSM3(msg[:a]), "SM3 Sum(nil) after first write")
	n, err = d.Write(msg[a:])
	vAssert(n == b && err == nil, "SM3 Write returns len(p), nil (second write)")
	vAssertBytes(d.Sum(nil), modelSM3(msg), "SM3 Sum does not disturb later writes")
	vAssertBytes(d.Sum(make([]byte, 0, 64)), modelSM3(msg), "SM3 Sum into an empty slice with capacity")
	vAssertBytes(msg, keep, "SM3 Write leaves its argument alone")
	// results of separate calls do not share memory
	x := d.Sum(nil)
	y := d.Sum(nil)
	x[0] ^= 0xff
	vAssertBytes(y, modelSM3(msg), "SM3 Sum results are independent")
	vReach("contract")
}

// H03_prefix: whatever Sum(b) returns, it leaves state and argument alone and it is
// the digest of what was written, appended to b, or (see known findings) of the
// message extended by b.
func H03_prefix() {
	a := []int{0, 1, 63, 64, 65}[vChoose("a", 5)]
	p := []int{1, 5, 63, 64, 65}[vChoose("p", 5)]
	cp := []int{0, 31, 32, 40}[vChoose("cap", 4)]
	msg := vBytes("msg", a)
	pre := make([]byte, p, p+cp)
	copy(pre, vBytes("pre", p))
	keep := append([]byte{}, pre...)
	d := New()
	d.Write(msg)
	out := d.Sum(pre)
	vAssertBytes(pre, keep, "SM3 Sum leaves the bytes of its argument alone")
	good := append(append([]byte{}, keep...), modelSM3(msg)...)
	legacy := modelSM3(append(append([]byte{}, msg...), keep...))
	vAssert(vSameBytes(out, good) || vSameBytes(out, legacy), "SM3 Sum(b) returns neither b||digest nor digest(msg||b)")
	vAssertBytes(d.Sum(nil), modelSM3(msg), "SM3 Sum(b) leaves the state alone")
	vReach("prefix")
}

// H03_append: the contract itself for a non-empty argument.
func H03_append() {
	a := []int{0, 64}[vChoose("a", 2)]
	p := []int{1, 65}[vChoose("p", 2)]
	msg, pre := vBytes("msg", a), vBytes("pre", p)
	d := New()
	d.Write(msg)
	out := d.Sum(pre)
	good := append(append([]byte{}, pre...), modelSM3(msg)...)
	vAssert(vSameBytes(out, good), "SM3 Sum(b) with non-empty b is b followed by the digest")
	vReach("append")
}
