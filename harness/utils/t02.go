package utils

// T02_flags: every answer of CPUID, all leaves and registers arbitrary.
func T02_flags() {
	tab := make([]uint32, 128)
	for i := range tab {
		tab[i] = vU32("cpuid")
	}
	vCpuid(tab)
	bit := func(leaf, reg int, n uint) bool { return tab[8*leaf+reg]>>n&1 == 1 }
	max := tab[0]
	if max >= 7 {
		vAssert(X86.HasAES == bit(1, 2, 25), "AES flag is bit 25 of ecx of leaf 1")
		vAssert(X86.HasBMI2 == bit(7, 1, 8), "BMI2 flag is bit 8 of ebx of leaf 7")
		vAssert(X86.HasADX == bit(7, 1, 19), "ADX flag is bit 19 of ebx of leaf 7")
		vAssert(X86.HasRDSEED == bit(7, 1, 18), "RDSEED flag is bit 18 of ebx of leaf 7")
		vReach("leaf 7")
	} else {
		vAssert(!X86.HasAES || max >= 1 && bit(1, 2, 25), "AES flag without the feature")
		vAssert(!X86.HasBMI2 && !X86.HasADX && !X86.HasRDSEED, "flag of a leaf the processor does not have")
		vReach("no leaf 7")
	}
}

// T02_cpuid: the wrapper returns the four registers in order, for every leaf.
func T02_cpuid() {
	tab := make([]uint32, 128)
	for i := range tab {
		tab[i] = vU32("cpuid")
	}
	vCpuid(tab)
	l, s := vChoose("leaf", 16), vChoose("subleaf", 2)
	a, b, c, d := cpuid(uint32(l), uint32(s))
	t := tab[8*l+4*s:]
	vAssert(a == t[0] && b == t[1] && c == t[2] && d == t[3], "registers of the leaf")
	vReach("cpuid")
}
