package check

func init() {
	register("D02", "model_checking", 200, 850, func(r *Run) {
		h := []string{"drbg/model.go", "drbg/h02.go"}
		steps := 2
		if r.Thorough() {
			steps = 3
		}
		r.Bounds = []string{"all contents symbolic; entropy of 20..64 bytes, personalization and additional input of 0..60 bytes, output of 0..100 bytes (lengths around the block and seed sizes)",
			"histories of Init followed by every sequence of two (thorough: three) further Init/Reseed/Read/ReadWithAdditionalData calls and one Read",
			"outputs of 4096, 4100 and 4800 bytes in one call", "counter increment: all 2^128 values"}
		r.Assumptions = append(r.Assumptions, "AES block encryption is an uninterpreted function of key and block; D01 decides that it is AES", "entropy shorter than 48 bytes is padded with zeros and longer input truncated, as the code documents")
		r.Explore(Job{Pkg: "drbg", Harness: []string{"drbg/model.go", "drbg/h02inc.go"}, Func: "D02_inc"})
		r.Explore(Job{Pkg: "drbg", Harness: h, Func: "D02_one"})
		r.Explore(Job{Pkg: "drbg", Harness: h, Func: "D02_two"})
		r.Explore(Job{Pkg: "drbg", Harness: h, Func: "D02_long"})
		r.Explore(Job{Pkg: "drbg", Harness: h, Func: "D02_history", Params: map[string]int{"steps": steps}})
	})
}
