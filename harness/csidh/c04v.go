package csidh

// vRng is a deterministic source (splitmix64).
type vRng struct{ s uint64 }

func (r *vRng) Read(b []byte) (int, error) {
	for i := range b {
		r.s += 0x9e3779b97f4a7c15
		z := r.s
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		b[i] = byte(z >> 56)
	}
	return len(b), nil
}
