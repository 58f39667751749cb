package sm3

// Induction step over histories of any length: the object is put into an arbitrary
// state that a history can reach (any chaining value, any number of bytes seen
// before, any partial block and any stale bytes behind it) and one Write is made.
func H01_step() {
	idx := vChoose("idx", 64)
	var d digest
	hw := vWords("h", 4)
	for i := range d.h {
		d.h[i] = uint32(hw[i/2] >> uint(32*(i&1)))
	}
	h0 := d.h
	blocks := vU64("blocks")
	vAssume(blocks < 1<<54)
	d.len = blocks*64 + uint64(idx)
	copy(d.b[:], vBytes("buf", 64))
	tail := append([]byte{}, d.b[:idx]...)
	ns := [...]int{0, 1, 63 - idx, 64 - idx, 65 - idx, 127 - idx, 128 - idx, 129 - idx, 192 - idx}
	n := ns[vChoose("n", len(ns))]
	if n < 0 {
		n = 2
	}
	in := vBytes("in", n)
	d.Write(in)
	all := append(tail, in...)
	h := h0
	k := len(all) / 64
	for i := 0; i < k; i++ {
		h = modelF(h, all[64*i:64*i+64])
	}
	rest := all[64*k:]
	vAssert(d.h == h, "chaining value after Write")
	vAssert(d.len == blocks*64+uint64(len(all)), "length after Write")
	vAssertBytes(d.b[:len(rest)], rest, "buffered bytes after Write")
	snap := d
	vAssertBytes(d.Sum(nil), modelTail(h, rest, blocks*64+uint64(len(all))), "digest from an arbitrary state")
	vAssert(snap == d, "Sum leaves the state alone")
	vReach("step")
}
