package csidh

import "io"

// vReader delivers the given bytes, at most chunk per call, then fails.
type vReader struct {
	b     []byte
	pos   int
	chunk int
}

func (r *vReader) Read(p []byte) (int, error) {
	if r.pos >= len(r.b) {
		return 0, io.ErrClosedPipe
	}
	n := len(p)
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	n = copy(p[:n], r.b[r.pos:])
	r.pos += n
	return n, nil
}

func vPick(name string, l []int) int { return l[vChoose(name, len(l))] }

// vLess is x < y on little-endian words, without branching.
func vLess(x, y []uint64) bool {
	var b uint64
	for i := range x {
		// borrow of x[i] - y[i] - b
		d := x[i] - y[i] - b
		b = ((^x[i] & y[i]) | (^(x[i] ^ y[i]) & d)) >> 63
	}
	return b == 1
}
