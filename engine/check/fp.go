package check

var sidhPrimes = []string{"p434", "p503", "p751"}

func init() {
	register("F01", "model_checking", 300, 850, func(r *Run) {
		r.Bounds = []string{"every pair of operands below 2p (reduction: every operand below 2p; double-width: every operand; swap: both masks); outputs aliased with each input", "p434, p503, p751; portable code (encoded for a 64-bit target, replayed on 386) and amd64 machine code on four processors"}
		r.Assumptions = append(r.Assumptions, "the disassembly of the linked test binary is the code that runs")
		var js []Job
		for _, p := range sidhPrimes {
			for _, f := range []string{"add", "sub", "mod", "cswap", "adl", "sul"} {
				js = append(js, Job{Pkg: "dh/sidh/internal/" + p, Arch: "arm64", Tags: "noasm", NatArch: "386", Harness: []string{"fp/f01.go", "fp/f02.go", "fp/nocpu.go"}, Func: "F01_" + f})
				js = append(js, Job{Pkg: "dh/sidh/internal/" + p, Harness: []string{"fp/f01.go", "fp/f02.go", "fp/cpu.go"}, Func: "F01_" + f})
			}
		}
		r.ExploreAll(3, js)
	})
	register("F02", "model_checking", 300, 850, func(r *Run) {
		r.Bounds = []string{"every pair of operands below 2p and squares; every dividend below p*2^W", "p434, p503, p751; portable code and amd64 machine code on four processors (neither, either and both of BMI2 and ADX)"}
		r.Assumptions = append(r.Assumptions, "the disassembly of the linked test binary is the code that runs")
		var js []Job
		for _, f := range []string{"rdc", "mul"} {
			for _, p := range []string{"p751", "p503", "p434"} {
				js = append(js, Job{Pkg: "dh/sidh/internal/" + p, Arch: "arm64", Tags: "noasm", NatArch: "386", Harness: []string{"fp/f01.go", "fp/f02.go", "fp/nocpu.go"}, Func: "F02_" + f})
				js = append(js, Job{Pkg: "dh/sidh/internal/" + p, Harness: []string{"fp/f01.go", "fp/f02.go", "fp/cpu.go"}, Func: "F02_" + f})
			}
		}
		r.ExploreAll(3, js)
	})
	field := func(r *Run, h []string, fs ...string) {
		var js []Job
		for _, p := range sidhPrimes {
			for _, f := range fs {
				js = append(js, Job{Pkg: "dh/sidh/internal/" + p, Arch: "arm64", Tags: "noasm", NatArch: "amd64", Harness: h, Func: f})
			}
		}
		r.ExploreAll(6, js)
	}
	register("F03", "model_checking", 300, 850, func(r *Run) {
		r.Bounds = []string{"every operand below 2p in each component; every aliasing of output and inputs; inversion for every non-zero element", "p434, p503, p751"}
		r.Assumptions = append(r.Assumptions, "base-field operations are those of GF(p) on representatives (F01, F02)")
		field(r, []string{"fp/f01.go", "fp/nocpu.go", "fp/fstub.go", "fp/f03.go"}, "F03_addsub", "F03_mul", "F03_sqr", "F03_inv", "F03_mont", "F03_swap", "F03_const")
	})
	register("F04", "model_checking", 300, 850, func(r *Run) {
		r.Bounds = []string{"every projective point and coefficient over GF(p^2), as polynomial identities; p434, p503, p751"}
		r.Assumptions = append(r.Assumptions, "GF(p^2) operations (F03)", "results are compared as projective values; degenerate denominators are zero on both sides or neither")
		field(r, []string{"fp/f01.go", "fp/nocpu.go", "fp/f2.go", "fp/f04.go"}, "F04_jinv", "F04_recover", "F04_params", "F04_dbladd", "F04_pow2", "F04_pow3", "F04_batch", "F04_iso3", "F04_iso4")
	})
	register("F05", "model_checking", 300, 850, func(r *Run) {
		r.Bounds = []string{"ladder: every scalar of the bit length of each side and of 1,7,8,9,64 and 65 bits", "traversal: the whole strategy of each parameter set and side, public key and shared secret; every secret"}
		r.Assumptions = append(r.Assumptions, "curve and isogeny formulas (F04); points are represented by the power of the generator and the isogeny level they belong to")
		field(r, []string{"fp/f01.go", "fp/nocpu.go", "fp/f2.go", "fp/f04.go", "fp/f05ref.go", "fp/f05lad.go"}, "F05_ladder")
		field(r, []string{"fp/f01.go", "fp/nocpu.go", "fp/f2.go", "fp/f04.go", "fp/f05ref.go", "fp/f05tree.go"}, "F05_pubA", "F05_pubB", "F05_deriveA", "F05_deriveB")
	})
}

func init() {
	register("F06", "model_checking", 300, 850, func(r *Run) {
		r.Bounds = []string{"every operand in the documented range (below p; any 512-bit value for the multi-word helpers and comparisons); outputs aliased with each input", "portable code and amd64 machine code on four processors"}
		r.Assumptions = append(r.Assumptions, "the disassembly of the linked test binary is the code that runs")
		var js []Job
		for _, f := range []string{"mul", "add", "sub", "sub512", "mulsmall", "cswap", "cmp", "eq"} {
			js = append(js, Job{Pkg: "dh/csidh", Arch: "arm64", Tags: "noasm", NatArch: "amd64", Harness: []string{"csidh/f06.go", "csidh/nocpu.go"}, Func: "F06_" + f})
			js = append(js, Job{Pkg: "dh/csidh", Harness: []string{"csidh/f06.go", "csidh/cpu.go"}, Func: "F06_" + f})
		}
		r.ExploreAll(3, js)
	})
}

func init() {
	register("T02", "model_checking", 300, 850, func(r *Run) {
		r.Bounds = []string{"CPUID: leaves 0..15 with subleaves 0 and 1, every 32-bit answer in every register; package initialisation included",
			"arithmetic on processors with none, one and both of BMI2 and ADX, all operands; drbg on processors with and without AES"}
		r.Assumptions = append(r.Assumptions, "golang.org/x/sys/cpu reports the processor's features correctly", "that results agree on all these processors is decided by F01, F02, F06 (each against the integer function) and D01")
		js := []Job{
			{Pkg: "utils", Harness: []string{"utils/t02.go"}, Func: "T02_flags"},
			{Pkg: "utils", Harness: []string{"utils/t02.go"}, Func: "T02_cpuid"},
			{Pkg: "drbg", Harness: []string{"drbg/t02.go"}, Func: "T02_drbg"},
			{Pkg: "dh/csidh", Harness: []string{"csidh/f06.go", "csidh/cpu.go", "csidh/t02.go"}, Func: "T02_run"},
		}
		for _, p := range sidhPrimes {
			js = append(js, Job{Pkg: "dh/sidh/internal/" + p, Harness: []string{"fp/f01.go", "fp/cpu.go", "fp/t02.go"}, Func: "T02_run"})
		}
		r.ExploreAll(4, js)
	})
}
