package PKG

// vFlags chooses a processor and starts the package on it.
func vFlags() {
	n := vChoose("processor", 4)
	vCPU(n == 1 || n == 2, n >= 2, true)
}
