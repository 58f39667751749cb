package check

func init() {
	register("C01", "model_checking", 200, 850, func(r *Run) {
		h := []string{"csidh/model.go", "csidh/c01.go"}
		r.Bounds = []string{"random streams of 384 symbolic bytes following five rejection patterns (four consecutive arbitrary bytes at five places, one rejection at each of 76 positions, alternating, whole buffers), delivered in chunks; sources failing after 0..129 bytes; keys and import lengths 0..100 symbolic",
			"outside: streams with more than 310 rejected bytes"}
		for _, f := range []string{"C01_codec", "C01_gen", "C01_fail"} {
			r.Explore(Job{Pkg: "dh/csidh", Harness: h, Func: f})
		}
	})
	register("C02", "model_checking", 200, 850, func(r *Run) {
		h := []string{"csidh/model.go", "csidh/c02.go"}
		r.Bounds = []string{"every content of key objects and buffers; buffer lengths 0,1,8,63,64,65,72,128"}
		r.Explore(Job{Pkg: "dh/csidh", Harness: h, Func: "C02_codec"})
	})
}

func init() {
	gen := func(j Job) Job {
		// portable code for the encoding, the real (amd64) build for replays
		j.Pkg, j.Arch, j.Tags, j.NatArch, j.NatTags = "dh/csidh", "arm64", "noasm", "amd64", ""
		return j
	}
	g := []string{"csidh/model.go", "csidh/group.go", "csidh/c04v.go"}
	register("C03", "model_checking", 300, 850, func(r *Run) {
		free, all := 2, 0
		if r.Thorough() {
			free, all = 3, 1
		}
		r.Bounds = []string{"five exponent vectors, each with one of two (thorough: ten) positions symbolic in [-5,5]; the first two (thorough: three) random points of arbitrary sign and with up to two primes missing from their order, later points of full order and alternating sign, at most 18 points",
			"random field element: every pair of consecutive 64-byte draws"}
		r.Assumptions = append(r.Assumptions, "point multiplication, isogeny evaluation, residue test and inversion are an abstract group (F06-F08 decide them)")
		r.Explore(gen(Job{Harness: []string{"csidh/model.go", "csidh/c03r.go"}, Func: "C03_rand"}))
		r.Explore(gen(Job{Harness: append(append([]string{}, g...), "csidh/c03.go"), Func: "C03_action", Params: map[string]int{"free": free, "all": all}}))
	})
	register("C04", "model_checking", 300, 850, func(r *Run) {
		win := 5
		if r.Thorough() {
			win = 8
		}
		r.Bounds = []string{"every 512-bit coefficient against the range and singularity tests",
			"five families of point orders with a window of five (thorough: eight) symbolic primes each, around the 4*sqrt(p) threshold; ordinary and supersingular curves; two random points",
			"DeriveSecret: every key, coefficient and outcome of Validate"}
		r.Assumptions = append(r.Assumptions, "point multiplication and doubling are an abstract group (F08 decides them); on an ordinary curve [p+1]P is never infinity")
		h := append(append([]string{}, g...), "csidh/c04.go")
		r.Explore(gen(Job{Harness: []string{"csidh/model.go", "csidh/c04d.go", "csidh/c04v.go"}, Func: "C04_derive"}))
		r.Explore(gen(Job{Harness: []string{"csidh/model.go", "csidh/c04d.go", "csidh/c04v.go"}, Func: "C04_generate"}))
		r.Explore(gen(Job{Harness: h, Func: "C04_range"}))
		r.Explore(gen(Job{Harness: h, Func: "C04_order", Params: map[string]int{"win": win}}))
	})
}

func init() {
	gen := func(f string, p map[string]int, h ...string) Job {
		hs := []string{"csidh/f06.go", "csidh/nocpu.go", "csidh/fel.go"}
		return Job{Pkg: "dh/csidh", Arch: "arm64", Tags: "noasm", NatArch: "amd64", Harness: append(hs, h...), Func: f, Params: p}
	}
	register("F07", "model_checking", 300, 850, func(r *Run) {
		r.Bounds = []string{"every base below p; every 64-bit and 512-bit exponent"}
		r.Assumptions = append(r.Assumptions, "multiplication modulo p (F06)")
		r.ExploreAll(4, []Job{gen("F07_exp512", nil, "csidh/fstub.go", "csidh/f07.go"), gen("F07_exp64", nil, "csidh/fstub.go", "csidh/f07.go"), gen("F07_qr", nil, "csidh/fstub.go", "csidh/f07.go"), gen("F07_const", nil, "csidh/fstub.go", "csidh/f07.go")})
	})
	register("F08", "model_checking", 300, 850, func(r *Run) {
		r.Bounds = []string{"every projective point and coefficient, as polynomial identities", "scalar multiplication: every scalar whose highest set bit is at the sampled positions (thorough: all 512)", "isogenies of each of the 74 degrees"}
		r.Assumptions = append(r.Assumptions, "field operations (F06, F07)", "results are compared as projective values")
		all := map[string]int{}
		if r.Thorough() {
			all["all"] = 1
		}
		var js []Job
		for _, f := range []string{"F08_add", "F08_dbl", "F08_dbladd", "F08_eval"} {
			js = append(js, gen(f, nil, "csidh/fstub.go", "csidh/f08.go"))
		}
		js = append(js, gen("F08_mul", all, "csidh/f08mul.go"), gen("F08_iso", nil, "csidh/fstub.go", "csidh/f08iso.go"))
		r.ExploreAll(4, js)
	})
}
