package sha3

// Induction step over histories: an arbitrary absorbing state (any lanes, any buffer
// position, any bytes already buffered) followed by one Write and the finalisation,
// and an arbitrary squeezing state followed by one Read.
func H05_step() {
	k := vChoose("alg", 6)
	ids := [...]uint8{SHA3_224, SHA3_256, SHA3_384, SHA3_512, SHAKE128, SHAKE256}
	sf := [...]byte{6, 6, 6, 6, 0x1f, 0x1f}
	rates := [...]int{144, 136, 104, 72, 168, 136}
	r := rates[k]
	var d state
	d.desc = Sha3Desc[ids[k]]
	d.sfx = sf[k]
	copy(d.a[:], vWords("a", 25))
	idx := vPick("idx", []int{0, 1, 7, 8, 9, r / 2, r - 9, r - 8, r - 7, r - 2, r - 1})
	buf := d.data.asBytes()
	copy(buf[:r], vBytes("buf", r))
	ref := modelSponge{a: d.a, rate: r}
	if vChoose("phase", 2) == 0 {
		d.idx = idx
		all := append([]byte{}, buf[:idx]...)
		ns := [...]int{0, 1, r - idx - 1, r - idx, r - idx + 1, 2*r - idx, 2*r - idx + 1}
		in := vBytes("in", ns[vChoose("n", len(ns))])
		d.Write(in)
		all = append(all, in...)
		out := make([]byte, 40)
		d.Read(out)
		vAssertBytes(out, ref.run(d.sfx, 40, all), "output after a write from an arbitrary state")
	} else {
		d.isSquezing = true
		left := idx + 1 // unread bytes of the current block
		copy(buf[:], func() []byte {
			o := make([]byte, r)
			for i := range o {
				o[i] = byte(d.a[i/8] >> uint(8*(i%8)))
			}
			return o
		}())
		d.idx = left
		ns := [...]int{0, 1, left - 1, left, left + 1, left + r, left + r + 1}
		n := ns[vChoose("n", len(ns))]
		out := make([]byte, n)
		d.Read(out)
		o2 := make([]byte, 9)
		d.Read(o2)
		w := ref.squeeze(r - left + n + 9)
		vAssertBytes(out, w[r-left:r-left+n], "read from an arbitrary squeezing state")
		vAssertBytes(o2, w[r-left+n:], "next read from an arbitrary squeezing state")
	}
	vReach("step")
}
