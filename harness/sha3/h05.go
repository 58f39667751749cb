package sha3

// H05_sha3: SHA3-n of a message in three writes.
func H05_sha3() {
	v := vSha3[vChoose("alg", 4)]
	l := vLens(v.rate)
	a, b, c := vPick("a", l), vPick("b", l), []int{0, 3}[vChoose("c", 2)]
	msg := vBytes("msg", a+b+c)
	d := v.mk()
	d.Write(msg[:a])
	d.Write(msg[a : a+b])
	d.Write(msg[a+b:])
	got := d.Sum(nil)
	vAssertBytes(got, modelXOF(v.rate, 0x06, v.size, msg), "SHA3 digest of a message in three writes")
	vObserve("digest", got)
	vReach("sha3")
}

// H05_sha3each: every length, one cut.
func H05_sha3each() {
	v := vSha3[vChoose("alg", 4)]
	n := vChoose("n", 2*v.rate+3)
	cut := []int{0, n / 3, n - n%8}[vChoose("cut", 3)]
	msg := vBytes("msg", n)
	d := v.mk()
	d.Write(msg[:cut])
	d.Write(msg[cut:])
	vAssertBytes(d.Sum(nil), modelXOF(v.rate, 0x06, v.size, msg), "SHA3 digest for every length")
	vReach("sha3each")
}

// H05_shake: writes and reads split.
func H05_shake() {
	v := vShake[vChoose("alg", 2)]
	r := v.rate
	a, b := vPick("a", []int{0, 1, r - 1, r, r + 1, 2 * r}), vPick("b", []int{0, 1, r - 1, r, 2*r + 1})
	x, y, z := vPick("x", []int{0, 1, r - 1, r, r + 1, 2 * r, 2*r + 1}), vPick("y", []int{0, 1, r - 1, r, r + 1, 2*r - 1, 3*r + 2}), vPick("z", []int{1, r})
	msg := vBytes("msg", a+b)
	d := v.mk()
	d.Write(msg[:a])
	d.Write(msg[a:])
	want := modelXOF(r, 0x1f, x+y+z, msg)
	o1, o2, o3 := make([]byte, x), make([]byte, y), make([]byte, z)
	n, err := d.Read(o1)
	vAssert(n == x && err == nil, "SHAKE Read count (1)")
	n, err = d.Read(o2)
	vAssert(n == y && err == nil, "SHAKE Read count (2)")
	d.Read(o3)
	vAssertBytes(o1, want[:x], "SHAKE first read")
	vAssertBytes(o2, want[x:x+y], "SHAKE second read")
	vAssertBytes(o3, want[x+y:], "SHAKE third read")
	vReach("shake")
}

// H05_shakesum: the one-shot functions.
func H05_shakesum() {
	n := vPick("n", []int{0, 1, 135, 136, 137, 167, 168, 169, 300})
	m := vPick("m", []int{0, 1, 135, 136, 137, 167, 168, 169, 337})
	msg := vBytes("msg", m)
	out := make([]byte, n)
	if vChoose("alg", 2) == 0 {
		ShakeSum128(out, msg)
		vAssertBytes(out, modelXOF(168, 0x1f, n, msg), "ShakeSum128")
	} else {
		ShakeSum256(out, msg)
		vAssertBytes(out, modelXOF(136, 0x1f, n, msg), "ShakeSum256")
	}
	vReach("shakesum")
}

// H05_waf: a write after a read is refused and does not change the stream.
func H05_waf() {
	v := vShake[vChoose("alg", 2)]
	r := v.rate
	a := vPick("a", []int{0, 5, r, r + 3})
	x := vPick("x", []int{0, 1, r - 1, r, r + 1})
	y := vPick("y", []int{1, r + 1})
	msg := vBytes("msg", a)
	d := v.mk()
	d.Write(msg)
	o1, o2 := make([]byte, x), make([]byte, y)
	d.Read(o1)
	n, err := d.Write(vBytes("late", vPick("w", []int{0, 1, r, 2 * r})))
	vAssert(n == 0 && err != nil, "write after read is refused")
	d.Read(o2)
	want := modelXOF(r, 0x1f, x+y, msg)
	vAssertBytes(o1, want[:x], "stream before the refused write")
	vAssertBytes(o2, want[x:], "stream after the refused write")
	vReach("waf")
}

// H05_clone: a clone continues in the same state, independently.
func H05_clone() {
	v := vShake[vChoose("alg", 2)]
	r := v.rate
	a := vPick("a", []int{0, 5, r - 1, r, r + 3})
	msg := vBytes("msg", a)
	d := v.mk()
	d.Write(msg)
	if vChoose("phase", 2) == 0 {
		// while absorbing
		m1, m2 := vBytes("m1", vPick("b", []int{0, 1, r})), vBytes("m2", 3)
		e := d.Clone()
		d.Write(m1)
		e.Write(m2)
		od, oe := make([]byte, r+1), make([]byte, r+1)
		d.Read(od)
		e.Read(oe)
		vAssertBytes(od, modelXOF(r, 0x1f, r+1, append(append([]byte{}, msg...), m1...)), "original after Clone")
		vAssertBytes(oe, modelXOF(r, 0x1f, r+1, append(append([]byte{}, msg...), m2...)), "clone taken while absorbing")
	} else {
		x := vPick("x", []int{0, 1, r - 1, r, r + 7})
		want := modelXOF(r, 0x1f, x+r+2, msg)
		o := make([]byte, x)
		d.Read(o)
		e := d.Clone()
		o1, o2 := make([]byte, 2), make([]byte, r+2)
		d.Read(o1)
		e.Read(o2)
		vAssertBytes(o1, want[x:x+2], "original after Clone while squeezing")
		vAssertBytes(o2, want[x:], "clone taken while squeezing")
		n, err := e.Write([]byte{1})
		vAssert(n == 0 && err != nil, "clone is still squeezing")
	}
	vReach("clone")
}

// H05_reset: Reset at any point gives the initial state.
func H05_reset() {
	k := vChoose("alg", 6)
	var w func([]byte) (int, error)
	var rd func([]byte) []byte
	var reset func()
	var rate, size int
	var sfx byte
	if k < 4 {
		v := vSha3[k]
		d := v.mk()
		rate, size, sfx = v.rate, v.size, 0x06
		w, reset = d.Write, d.Reset
		rd = func([]byte) []byte { return d.Sum(nil) }
	} else {
		v := vShake[k-4]
		d := v.mk()
		rate, size, sfx = v.rate, v.rate+9, 0x1f
		w, reset = d.Write, d.Reset
		rd = func(o []byte) []byte { d.Read(o); return o }
	}
	pre := vBytes("pre", vPick("p", []int{0, 1, rate - 1, rate, rate + 1}))
	w(pre)
	ph := vChoose("phase", 3)
	if ph > 0 {
		rd(make([]byte, []int{0, 3, rate}[ph]))
	}
	reset()
	if vChoose("again", 2) == 1 {
		w(pre)
		reset()
	}
	msg := vBytes("msg", vPick("n", []int{0, 1, rate - 1, rate, rate + 1}))
	n, err := w(msg)
	vAssert(n == len(msg) && err == nil, "write accepted after Reset")
	vAssertBytes(rd(make([]byte, size)), modelXOF(rate, sfx, size, msg), "output after Reset")
	vReach("reset")
}

// H05_indep: distinct objects do not influence each other.
func H05_indep() {
	i, j := vChoose("i", 2), vChoose("j", 2)
	v, u := vShake[i], vShake[j]
	d, e, h := v.mk(), u.mk(), New256()
	m1, m2, m3 := vBytes("m1", v.rate+1), vBytes("m2", u.rate-1), vBytes("m3", 137)
	d.Write(m1[:5])
	e.Write(m2)
	h.Write(m3[:100])
	d.Write(m1[5:])
	o1, o2 := make([]byte, 200), make([]byte, 200)
	d.Read(o1[:100])
	h.Write(m3[100:])
	e.Read(o2[:1])
	d.Read(o1[100:])
	e.Read(o2[1:])
	vAssertBytes(o1, modelXOF(v.rate, 0x1f, 200, m1), "first of three objects")
	vAssertBytes(o2, modelXOF(u.rate, 0x1f, 200, m2), "second of three objects")
	vAssertBytes(h.Sum(nil), modelXOF(136, 0x06, 32, m3), "third of three objects")
	vReach("indep")
}

// H05_long: single writes and reads of several hundred blocks.
func H05_long() {
	v := vShake[vChoose("alg", 2)]
	n := 257*v.rate + 3
	read := vChoose("read", 2) == 1
	l := 5
	if !read {
		l, n = n, 32
	}
	msg := make([]byte, l)
	for i := range msg {
		msg[i] = byte(i / v.rate)
	}
	copy(msg[l-5:], vBytes("msg", 5))
	d := v.mk()
	d.Write(msg)
	o := make([]byte, n)
	d.Read(o)
	vAssertBytes(o, modelXOF(v.rate, 0x1f, n, msg), "SHAKE of a long message or output")
	vReach("long")
}
