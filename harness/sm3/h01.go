package sm3

// lengths of a single write that matter for 64-byte blocks and 56-byte padding
var vLens = []int{0, 1, 7, 55, 56, 57, 63, 64, 65, 119, 120, 121, 127, 128, 129, 191, 192, 193}

// H01_split: a message in three writes on a fresh object.
func H01_split() {
	a := vLens[vChoose("a", len(vLens))]
	b := vLens[vChoose("b", len(vLens))]
	c := vLens[vChoose("c", 4)]
	msg := vBytes("msg", a+b+c)
	d := New()
	d.Write(msg[:a])
	d.Write(msg[a : a+b])
	d.Write(msg[a+b:])
	got := d.Sum(nil)
	vAssertBytes(got, modelSM3(msg), "SM3 digest of a message in three writes")
	vObserve("digest", got)
	vReach("split")
}

// H01_each: every total length up to a bound, in two writes cut anywhere.
func H01_each() {
	n := vChoose("n", vParam("max", 131))
	a := 0
	switch vChoose("cut", 3) {
	case 1:
		a = n / 2
	case 2:
		a = n - n%64
	}
	msg := vBytes("msg", n)
	d := New()
	d.Write(msg[:a])
	d.Write(msg[a:])
	vAssertBytes(d.Sum(nil), modelSM3(msg), "SM3 digest of a message of any length")
	vReach("each")
}

// H01_reset: earlier use followed by Reset changes nothing.
func H01_reset() {
	pre := vBytes("pre", vLens[vChoose("p", len(vLens))])
	n := vLens[vChoose("n", len(vLens))]
	msg := vBytes("msg", n)
	d := New()
	d.Write(pre)
	if vChoose("sum", 2) == 1 {
		d.Sum(nil)
	}
	d.Reset()
	if vChoose("again", 2) == 1 {
		d.Write(pre[:len(pre)/2])
		d.Reset()
	}
	d.Write(msg)
	vAssertBytes(d.Sum(nil), modelSM3(msg), "SM3 digest after Reset")
	vReach("reset")
}

// H01_indep: two objects do not influence each other.
func H01_indep() {
	n := vLens[vChoose("n", len(vLens))]
	m1, m2 := vBytes("m1", n), vBytes("m2", n+3)
	d1, d2 := New(), New()
	d1.Write(m1[:n/2])
	d2.Write(m2)
	d1.Write(m1[n/2:])
	vAssertBytes(d2.Sum(nil), modelSM3(m2), "SM3 digest of second object")
	vAssertBytes(d1.Sum(nil), modelSM3(m1), "SM3 digest of first object")
	vReach("indep")
}

// H01_long: one Write of several hundred blocks.
func H01_long() {
	n := 64*[...]int{256, 257, 300}[vChoose("blocks", 3)] + 3
	a := [...]int{0, 5}[vChoose("a", 2)]
	msg := make([]byte, a+n)
	for i := range msg {
		msg[i] = byte(i >> 6)
	}
	copy(msg[a+n-70:], vBytes("msg", 70))
	d := New()
	d.Write(msg[:a])
	d.Write(msg[a:])
	vAssertBytes(d.Sum(nil), modelSM3(msg), "SM3 digest of a long message")
	vReach("long")
}
