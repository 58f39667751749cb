package csidh

func vBase(pat int, e []int) {
	for i := range e {
		switch pat {
		case 0: // all zero
		case 1:
			e[i] = 1
		case 2:
			e[i] = -1
		case 3:
			e[i] = i%5 - 2
		case 4: // sparse, large
			if i%9 == 0 {
				e[i] = 5 - i%11
			}
		}
	}
}

// C03_action: the action applies exactly the secret exponents.
func C03_action() {
	vInitGroup()
	g := &vGroup{}
	vG = g
	e := make([]int, primeCount)
	pat := vChoose("base", 5)
	vBase(pat, e)
	ats := []int{0, 73, 36, 1, 64, 37, 2, 72, 63, 35}
	if vParam("all", 0) == 0 {
		ats = ats[2*pat : 2*pat+2]
	}
	at := vPick("at", ats)
	sym := vU8("exp")
	x := int8(sym)
	vAssume(x <= 5)
	vAssume(x >= -5)
	e[at] = 99 // symbolic
	var prv PrivateKey
	for i := 0; i < primeCount; i++ {
		n := byte(e[i]) & 15
		if i == at {
			n = sym & 15
		}
		// the action reads prime i from the upper half for even i, the lower for odd i
		if i%2 == 0 {
			n <<= 4
		}
		prv.e[i/2] |= int8(n)
	}
	keep := prv.e
	// random points: sign of each is arbitrary at first, then alternates; one prime may
	// be missing from the order of each of the first points
	rounds := vParam("rounds", 18)
	free := vParam("free", 2)
	for i := 0; i < rounds; i++ {
		miss := make([]bool, primeCount)
		s := i % 2
		if i < free {
			s = vChoose("sign", 2)
			if s == 0 {
				miss[at] = vBool("miss")
			} else {
				miss[at] = vBool("miss")
				miss[(at+1)%primeCount] = true
			}
		}
		g.miss = append(g.miss, miss)
		g.sign = append(g.sign, s)
	}
	var pub PublicKey
	if pat%2 == 1 {
		pub.a = fp{} // base curve
	}
	if vSym() {
		pub.a = fp{7, 7, 7}
	}
	g.startA = pub.a
	groupAction(&pub, &prv, &vRng{9})
	vAssert(prv.e == keep, "private key is left alone")
	e[at] = int(x)
	if !vSym() {
		want := vNaiveAction(fp{}, e, &vRng{10})
		same := pub.a == want
		// the orders and signs of the counterexample, on the curve known beforehand
		for i := 0; i < 2*free && same; i++ {
			x := &vRng{uint64(20 + i)}
			rd := &vReader{}
			for n := 0; n <= i/free; n++ { // repeated draws of one sign are dropped
				v := vSignedPoint(&fp{}, g.miss[(i+n)%free], g.sign[(i+n)%free], x)
				rd.b = append(rd.b, vLE(&v)...)
			}
			var q PublicKey
			groupAction(&q, &prv, vThen{rd, x})
			same = q.a == want
		}
		vAssert(same, "result equals the exponents applied one isogeny at a time")
		vReach("action")
		return
	}
	vAssert(g.bad == "", g.bad)
	for i := 0; i < primeCount; i++ {
		pos, neg := e[i], 0
		if e[i] < 0 {
			pos, neg = 0, -e[i]
		}
		vAssert(g.cnt[0][i] == pos && g.cnt[1][i] == neg, "number and direction of the isogenies are the exponents")
	}
	vAssert(pub.a == g.a(), "result is the normalised coefficient of the last curve")
	vReach("action")
}

// vThen reads the first source to its end, then the second.
type vThen struct {
	a *vReader
	b *vRng
}

func (t vThen) Read(p []byte) (int, error) {
	if t.a.pos < len(t.a.b) {
		return t.a.Read(p)
	}
	return t.b.Read(p)
}

// vSignedPoint is vRealPoint with the given sign.
func vSignedPoint(a *fp, miss []bool, sign int, x *vRng) fp {
	for {
		var rhs fp
		v := vRealPoint(a, miss, x)
		montEval(&rhs, a, &v)
		if rhs.isNonQuadRes() == sign {
			return v
		}
	}
}
