package check

import "fmt"

func init() {
	register("H01", "model_checking", 150, 800, func(r *Run) {
		h := []string{"sm3/model.go", "sm3/h01.go"}
		r.Bounds = []string{
			"message content: every byte symbolic; total length 0..130 (each) and three-write splits with lengths from {0,1,7,55,56,57,63,64,65,119,120,121,127,128,129,191,192,193}",
			"one Write from an arbitrary object state (symbolic chaining value, symbolic count of preceding blocks below 2^54, every buffer position 0..63), write lengths around the next three block boundaries, followed by Sum",
			"single writes of 256, 257 and 300 blocks with a symbolic end",
			"outside: other lengths of single writes above 200 bytes, messages of 2^60 bytes and more",
		}
		r.Assumptions = append(r.Assumptions, "digest.compress on n blocks is n applications of one function of (chaining value, block); that it is SM3's compression function is decided by H02")
		for _, f := range []string{"H01_split", "H01_reset", "H01_indep", "H01_long"} {
			r.Explore(Job{Pkg: "hash/sm3", Harness: h, Func: f})
		}
		mx := 131
		if r.Thorough() {
			mx = 400
		}
		r.Explore(Job{Pkg: "hash/sm3", Harness: h, Func: "H01_each", Params: map[string]int{"max": mx}})
		r.Explore(Job{Pkg: "hash/sm3", Harness: []string{"sm3/model.go", "sm3/h01i.go"}, Func: "H01_step"})
	})
	register("H02", "model_checking", 200, 850, func(r *Run) {
		n := 3
		if r.Thorough() {
			n = 6
		}
		for k := 1; k <= n; k++ {
			r.Explore(Job{Pkg: "hash/sm3", Harness: []string{"sm3/h02.go"}, Func: "H02_block", Params: map[string]int{"blocks": k}})
		}
		r.Explore(Job{Pkg: "hash/sm3", Harness: []string{"sm3/h02.go"}, Func: "H02_many"})
		r.Bounds = []string{"256, 257 and 300 blocks in one call: constants followed by one arbitrary block", fmt.Sprintf("every chaining value and every content of 1..%d consecutive blocks; no other bound", n)}
	})
	register("H04", "model_checking", 200, 850, func(r *Run) {
		h := []string{"sha3/h04.go"}
		var js []Job
		for _, f := range []string{"H04_perm", "H04_twice"} {
			js = append(js, Job{Pkg: "hash/sha3", Harness: h, Func: f})
			js = append(js, Job{Pkg: "hash/sha3", Harness: h, Func: f, Arch: "arm64", Tags: "noasm", NatArch: "amd64", NatTags: "noasm"})
		}
		r.ExploreAll(2, js)
		r.Bounds = []string{"every state; one and two applications; amd64 machine code and portable code"}
	})
	register("D01", "model_checking", 300, 850, func(r *Run) {
		h := []string{"aes/d01.go", "aes/asm.go"}
		var js []Job
		for _, asm := range []int{0, 1} {
			for n := 0; n < 3; n++ {
				for _, f := range []string{"D01_block", "D01_rekey"} {
					js = append(js, Job{Pkg: "drbg/internal/aes", Harness: h, Func: f, Params: map[string]int{"size": n, "asm": asm}})
				}
			}
			for _, f := range []string{"D01_size", "D01_short"} {
				js = append(js, Job{Pkg: "drbg/internal/aes", Harness: h, Func: f, Params: map[string]int{"asm": asm}})
			}
		}
		r.ExploreAll(3, js)
		r.Bounds = []string{"every key of 128, 192 and 256 bits and every block; separate, identical and adjacent buffers; portable code and AES-NI machine code",
			"re-keying from each of the three sizes, with and without use in between; key lengths 0..69; buffer lengths 0..17"}
	})
	register("H03", "model_checking", 150, 800, func(r *Run) {
		h := []string{"sm3/model.go", "sm3/h03.go"}
		for _, f := range []string{"H03_contract", "H03_prefix", "H03_append"} {
			r.Explore(Job{Pkg: "hash/sm3", Harness: h, Func: f})
		}
		r.Explore(Job{Pkg: "hash/sha3", Harness: []string{"sha3/model.go", "sha3/h03.go"}, Func: "H03_sha3"})
		r.Bounds = []string{"contents symbolic; lengths around the block boundaries (see jobs); at most four Sum and two Write calls on an object",
			"SHA3-224/256/384/512 and SM3; outside: longer histories"}
	})
	sponge := func(r *Run, j Job) {
		r.Explore(j) // amd64
		j.Arch, j.Tags = "arm64", "noasm"
		j.NoNative = true // portable word access, selected on other architectures
		r.Explore(j)
	}
	register("H05", "model_checking", 300, 850, func(r *Run) {
		h := []string{"sha3/model.go", "sha3/h05.go"}
		r.Bounds = []string{"contents symbolic; SHA3-224/256/384/512, SHAKE128/256; message lengths and splits around one to three rate boundaries, every length up to 2*rate+2 for SHA3; up to three writes and three reads",
			"single writes and reads of 257 blocks with five symbolic bytes", "one Write or Read from an arbitrary sponge state (25 symbolic lanes, symbolic buffer, 11 buffer positions)",
			"both lane access variants (unaligned and portable)"}
		r.Assumptions = append(r.Assumptions, "keccakF1600 is one function of the 25 lanes (uninterpreted); that it is Keccak-f[1600] is decided by H04")
		for _, f := range []string{"H05_sha3", "H05_sha3each", "H05_shake", "H05_shakesum", "H05_waf", "H05_clone", "H05_reset", "H05_indep"} {
			sponge(r, Job{Pkg: "hash/sha3", Harness: h, Func: f})
		}
		sponge(r, Job{Pkg: "hash/sha3", Harness: []string{"sha3/model.go", "sha3/h05i.go"}, Func: "H05_step"})
		r.Explore(Job{Pkg: "hash/sha3", Harness: h, Func: "H05_long"})
	})
	register("H06", "model_checking", 300, 850, func(r *Run) {
		h := []string{"sha3/model.go", "sha3/h06.go"}
		r.Bounds = []string{"contents of N, S and data symbolic; every length of S from 0 to 344 with N of 0,1,2,31,32,33 bytes; N or S of 8191..8193 bytes; histories of one Reset/Clone, reads split in two"}
		r.Assumptions = append(r.Assumptions, "keccakF1600 is one function of the 25 lanes (uninterpreted); that it is Keccak-f[1600] is decided by H04")
		for _, f := range []string{"H06_prefix", "H06_long", "H06_history"} {
			r.Explore(Job{Pkg: "hash/sha3", Harness: h, Func: f})
		}
	})
}
