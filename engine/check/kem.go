package check

func init() {
	register("C05", "model_checking", 200, 850, func(r *Run) {
		r.Bounds = []string{"every 16-byte message and key; one to three recipients; up to two earlier operations on the same object (encryption, decryption, use of its hash)"}
		r.Assumptions = append(r.Assumptions, "the group action is an abstract commutative function (C03), validity of a key is its range test (C04), Keccak-f is uninterpreted (H04)")
		for _, f := range []string{"C05_single", "C05_multi", "C05_invalid"} {
			r.Explore(Job{Pkg: "kem/mkem", Harness: []string{"mkem/c05.go"}, Func: f})
		}
	})
}

func init() {
	register("K01", "model_checking", 200, 850, func(r *Run) {
		r.Bounds = []string{"every key content (public keys: reduced field elements), three fields, three variants; wrong lengths around, below and above the right one; used and new objects"}
		r.Assumptions = append(r.Assumptions, "Montgomery conversion is an abstract bijection (F02, F03), the group operations are uninterpreted (F04, F05)")
		for _, f := range []string{"K01_pub", "K01_prv", "K01_agree"} {
			r.Explore(Job{Pkg: "dh/sidh", Harness: []string{"sidh/model.go", "sidh/k01.go"}, Func: f})
		}
	})
	register("K02", "model_checking", 200, 850, func(r *Run) {
		r.Bounds = []string{"every output of the random source, delivered in chunks; every failure point; three fields, three variants"}
		for _, f := range []string{"K02_gen", "K02_fail"} {
			r.Explore(Job{Pkg: "dh/sidh", Harness: []string{"sidh/model.go", "sidh/k02.go"}, Func: f})
		}
		r.Explore(Job{Pkg: "dh/sidh", Harness: []string{"sidh/model.go", "sidh/k02f.go"}, Func: "K02_free"})
	})
}

func init() {
	h := []string{"mkem/sike.go", "mkem/k03.go"}
	h6 := []string{"mkem/sike.go", "mkem/k06.go"}
	ass := "isogeny computations are abstract with a commutative secret (F04, F05), Montgomery conversion is an abstract bijection (F02, F03), Keccak-f is uninterpreted (H04)"
	each := func(r *Run, hs []string, f string) {
		for set := 0; set < 3; set++ {
			r.Explore(Job{Pkg: "kem/mkem", Harness: hs, Func: f, Params: map[string]int{"set": set, "all": b2i(r.Thorough())}})
		}
	}
	register("K03", "model_checking", 200, 850, func(r *Run) {
		r.Bounds = []string{"every key and message; three parameter sets; both implementations in both roles; up to one earlier operation on each object (encapsulation, decapsulation of an arbitrary ciphertext, Reset); buffers 0, 1 or 64 bytes too large"}
		r.Assumptions = append(r.Assumptions, ass)
		each(r, h, "K03_agree")
	})
	register("K04", "model_checking", 200, 850, func(r *Run) {
		r.Bounds = []string{"every key; every ciphertext, honest ones with any modification of the first, second or (keeping the recovered message) both parts; three parameter sets; both implementations; used and new objects"}
		r.Assumptions = append(r.Assumptions, ass)
		each(r, h, "K04_reject")
	})
	register("K05", "model_checking", 200, 850, func(r *Run) {
		r.Bounds = []string{"every key and message; three parameter sets; both implementations; random sources failing at four points"}
		r.Assumptions = append(r.Assumptions, ass)
		each(r, h, "K05_spec")
		r.Explore(Job{Pkg: "kem/mkem", Harness: h, Func: "K05_rng"})
	})
	register("K07", "model_checking", 200, 850, func(r *Run) {
		r.Bounds = []string{"every pair of field and variant for the two keys; buffers empty, one byte too small, exact, one byte and a key too large; every content of keys, buffers and ciphertext; both single-recipient implementations and the multi-recipient one"}
		r.Assumptions = append(r.Assumptions, ass)
		for _, f := range []string{"K07_sidh", "K07_kem", "K07_keys", "K07_multi"} {
			r.Explore(Job{Pkg: "kem/mkem", Harness: []string{"mkem/sike.go", "mkem/k07.go"}, Func: f})
		}
	})
	register("K06", "model_checking", 200, 850, func(r *Run) {
		r.Bounds = []string{"every key and message; one to three recipients; three parameter sets; arbitrary and modified parts and ephemeral keys"}
		r.Assumptions = append(r.Assumptions, ass)
		each(r, h6, "K06_agree")
		each(r, h6, "K06_reject")
		r.Explore(Job{Pkg: "kem/mkem", Harness: h6, Func: "K06_rng"})
	})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
