package csidh

// vBigMul: schoolbook on 32-bit limbs
func vBigMul(x, y []uint64) []uint64 {
	o := make([]uint64, len(x)+len(y))
	for i := range x {
		var c uint64
		for j := range y {
			t := o[i+j] + x[i]*y[j] + c
			o[i+j] = t & 0xffffffff
			c = t >> 32
		}
		o[i+len(y)] = c
	}
	return o
}

func vLimbs(x *fp) []uint64 {
	var o []uint64
	for _, w := range x {
		o = append(o, w&0xffffffff, w>>32)
	}
	return o
}

func vBigCmp(x, y []uint64) int {
	for i := len(x) - 1; i >= 0; i-- {
		if x[i] != y[i] {
			if x[i] < y[i] {
				return -1
			}
			return 1
		}
	}
	return 0
}

// order > 4*sqrt(p)  <=>  order^2 > 16 p
func vBigEnough(miss []bool) bool {
	o := make([]uint64, 16)
	o[0] = 1
	for i, m := range miss {
		if !m {
			o = vBigMul(o, []uint64{primes[i]})[:16]
		}
	}
	l := vBigMul(o, o)
	r := vBigMul(vLimbs(&p), []uint64{16})
	for len(r) < len(l) {
		r = append(r, 0)
	}
	return vBigCmp(l, r) > 0
}

// vMissPattern: primes outside the window are missing or present so that the order of
// the point is close to the threshold; those in the window are symbolic.
func vMissPattern(round, win int) []bool {
	miss := make([]bool, primeCount)
	if round > 0 {
		return miss // later points have full order
	}
	lo := 0
	switch vChoose("pat", 5) {
	case 0: // small primes present, window at the threshold
		lo = 41
		for i := lo; i < primeCount; i++ {
			miss[i] = true
		}
	case 1: // large primes present
		lo = 37
		for i := 0; i < lo; i++ {
			miss[i] = true
		}
	case 2: // every other prime
		lo = 10
		for i := range miss {
			miss[i] = i%2 == 1
		}
	case 3: // almost nothing
		lo = 66
		for i := range miss {
			miss[i] = true
		}
	case 4: // almost everything
		lo = 0
	}
	for i := lo; i < lo+win && i < primeCount; i++ {
		miss[i] = vBool("miss")
	}
	return miss
}

// C04_order: Validate accepts exactly on a point of sufficient order.
func C04_order() {
	vInitGroup()
	g := &vGroup{}
	vG = g
	var pub PublicKey
	g.ordinary = vChoose("ordinary", 2) == 1
	if g.ordinary {
		pub.a = fp{12345, 678, 9}
	}
	g.startA = pub.a
	win := vParam("win", 5)
	for i := 0; i < 2; i++ {
		g.miss = append(g.miss, vMissPattern(i, win))
		g.sign = append(g.sign, 0)
	}
	rd := &vReader{}
	if !vSym() {
		if g.ordinary {
			x := &vRng{1}
			rd.b = make([]byte, 6400)
			x.Read(rd.b)
		} else {
			x := &vRng{2}
			for i := range g.miss {
				v := vRealPoint(&pub.a, g.miss[i], x)
				rd.b = append(rd.b, vLE(&v)...)
			}
		}
	}
	keep := pub.a
	r := Validate(&pub, rd)
	if vSym() {
		vAssert(g.bad == "", g.bad)
		vAssert(pub.a == keep, "Validate leaves the key alone")
	}
	if g.ordinary {
		vAssert(!r, "ordinary curve is rejected")
		vReach("ordinary")
		return
	}
	vAssert(r, "supersingular curve is accepted")
	if vSym() {
		// the first point decides only if its order exceeds 4*sqrt(p)
		vAssert((g.round == 1) == vBigEnough(g.miss[0]), "a curve is accepted exactly on a point of order above 4*sqrt(p)")
	} else {
		vAssert((rd.pos == 64) == vBigEnough(g.miss[0]), "a curve is accepted exactly on a point of order above 4*sqrt(p)")
	}
	vReach("supersingular")
}

// C04_range: every coefficient outside the range or singular is rejected.
func C04_range() {
	vInitGroup()
	g := &vGroup{}
	vG = g
	for i := 0; i < 1; i++ {
		g.miss = append(g.miss, make([]bool, primeCount))
		g.sign = append(g.sign, 0)
	}
	var pub PublicKey
	// 0: every coefficient; 1..: supersingular curves written unreduced, on which a
	// missing range test shows natively too
	w := make([]uint64, 8)
	switch kind := vChoose("kind", 5); kind {
	case 0:
		w = vWords("a", 8)
	case 1, 2:
		w = vAddP(w, kind)
	default:
		w = vAddP([]uint64{0x6e32fdac0445f3b1, 0x9c3c960a2ca3f252, 0x0ecb6f38c1a0336e, 0x6b89c2eaada62d0f,
			0x879fcdce2d39cd97, 0x0c114ce3f70f1c4a, 0xd2cc880054bc188c, 0x1b90f6cd29d6e47f}, kind-2)
	}
	copy(pub.a[:], w)
	g.startA = pub.a
	lt := vLess(w, p[:])
	t2 := pub.a == vTwo()
	m2 := pub.a == vMinusTwo()
	valid := lt && !t2 && !m2
	if !vSym() && valid {
		vAssume(false) // whether the real curve is supersingular is not known
	}
	r := Validate(&pub, &vRng{3})
	if !vSym() {
		// an invalid key has to be rejected whatever points are drawn
		for i := uint64(4); i < 40 && !r; i++ {
			r = Validate(&pub, &vRng{i})
		}
	}
	vAssert(r == valid, "only reduced, nonsingular coefficients pass")
	vReach("range")
}

// w + k*p mod 2^512
func vAddP(w []uint64, k int) []uint64 {
	o := append([]uint64{}, w...)
	for ; k > 0; k-- {
		var c uint64
		for i := range o {
			t := o[i] + p[i]
			n := uint64(0)
			if t < o[i] {
				n = 1
			}
			o[i] = t + c
			if o[i] < t {
				n = 1
			}
			c = n
		}
	}
	return o
}

// 2R mod p and -2R mod p, computed here
func vTwo() fp {
	v := fp{1}
	for i := 0; i < 513; i++ {
		v = vDblMod(v)
	}
	return v
}

func vMinusTwo() fp {
	t := vTwo()
	var o fp
	var b uint64
	for i := range o {
		x := p[i] - t[i]
		nb := uint64(0)
		if p[i] < t[i] || (x == 0 && b == 1) {
			nb = 1
		}
		o[i] = x - b
		b = nb
	}
	return o
}

func vDblMod(v fp) fp {
	var o fp
	for i := 7; i >= 0; i-- {
		o[i] = v[i] << 1
		if i > 0 {
			o[i] |= v[i-1] >> 63
		}
	}
	if vLess(o[:], p[:]) {
		return o
	}
	var b uint64
	for i := range o {
		x := o[i] - p[i]
		nb := uint64(0)
		if o[i] < p[i] || (x == 0 && b == 1) {
			nb = 1
		}
		o[i] = x - b
		b = nb
	}
	return o
}
