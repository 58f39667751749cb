package drbg

//verif:redirect CtrDrbg.inc stubInc

func stubInc(c *CtrDrbg) { copy(c.v[:], vInc(c.v[:])) }

// D02_one: instantiate and generate once, all input lengths.
func D02_one() {
	c := vNew()
	var m modelDRBG
	e := vBytes("entropy", vPick("e", []int{32, 47, 48, 49, 64}))
	p := vBytes("pers", vPick("p", []int{0, 1, 16, 47, 48, 49, 60}))
	vAssert(c.Init(e, p), "Init accepts the entropy")
	m.instantiate(e, p)
	n := vPick("n", []int{0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 49, 64, 65, 100})
	ad := vBytes("ad", vPick("ad", []int{0, 1, 47, 48, 49, 70}))
	out := make([]byte, n)
	var k int
	var err error
	if len(ad) == 0 && vChoose("plain", 2) == 1 {
		k, err = c.Read(out)
	} else {
		k, err = c.ReadWithAdditionalData(out, ad)
	}
	vAssert(k == n && err == nil, "Read fills the buffer")
	vAssertBytes(out, m.generate(n, ad), "output of the first generate call")
	vObserve("out", out)
	nxt := make([]byte, 17)
	c.Read(nxt)
	vAssertBytes(nxt, m.generate(17, nil), "output of the next generate call")
	vReach("one")
}

func vStep(c *CtrDrbg, m *modelDRBG, ns []int) {
	switch vChoose("op", 4) {
	case 0:
		e, p := vBytes("entropy", 48), vBytes("pers", vPick("p", []int{0, 48}))
		vAssert(c.Init(e, p), "Init accepts the entropy")
		m.instantiate(e, p)
	case 1:
		e, a := vBytes("entropy", vPick("e", []int{48, 20, 60})), vBytes("add", vPick("a", []int{0, 5, 60}))
		c.Reseed(e, a)
		m.reseed(e, a)
	case 2:
		n := vPick("n", ns)
		out := make([]byte, n)
		k, err := c.Read(out)
		vAssert(k == n && err == nil, "Read fills the buffer")
		vAssertBytes(out, m.generate(n, nil), "output of Read")
	case 3:
		n := vPick("n", ns)
		ad := vBytes("ad", vPick("ad", []int{3, 48, 60}))
		out := make([]byte, n)
		keep := append([]byte{}, ad...)
		k, err := c.ReadWithAdditionalData(out, ad)
		vAssert(k == n && err == nil, "ReadWithAdditionalData fills the buffer")
		vAssertBytes(ad, keep, "additional data is left alone")
		vAssertBytes(out, m.generate(n, ad), "output of ReadWithAdditionalData")
	}
}

// D02_history: every sequence of calls up to the bound on one object.
func D02_history() {
	c := vNew()
	var m modelDRBG
	e := vBytes("entropy", 48)
	c.Init(e, nil)
	m.instantiate(e, nil)
	steps := vParam("steps", 2)
	for i := 0; i < steps; i++ {
		vStep(c, &m, []int{0, 1, 16, 17, 40})
	}
	out := make([]byte, 33)
	c.Read(out)
	vAssertBytes(out, m.generate(33, nil), "output after a history of calls")
	vReach("history")
}

// D02_two: two generators do not influence each other.
func D02_two() {
	c, d := vNew(), vNew()
	var m, n modelDRBG
	e, f := vBytes("e1", 48), vBytes("e2", 48)
	c.Init(e, nil)
	d.Init(f, nil)
	m.instantiate(e, nil)
	n.instantiate(f, nil)
	o1, o2, o3 := make([]byte, 20), make([]byte, 20), make([]byte, 20)
	c.Read(o1)
	d.Read(o2)
	c.Read(o3)
	vAssertBytes(o1, m.generate(20, nil), "first generator")
	vAssertBytes(o2, n.generate(20, nil), "second generator")
	vAssertBytes(o3, m.generate(20, nil), "first generator again")
	vReach("two")
}

// D02_long: one output of several hundred blocks.
func D02_long() {
	c := vNew()
	var m modelDRBG
	e := vBytes("entropy", 48)
	c.Init(e, nil)
	m.instantiate(e, nil)
	n := vPick("n", []int{4096, 4100, 4800})
	out := make([]byte, n)
	k, err := c.Read(out)
	vAssert(k == n && err == nil, "Read fills a long buffer")
	vAssertBytes(out, m.generate(n, nil), "long output of Read")
	out = make([]byte, 5)
	c.Read(out)
	vAssertBytes(out, m.generate(5, nil), "output after a long output")
	vReach("long")
}
