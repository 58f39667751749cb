package sidh

import "io"

// vReader delivers the given bytes, at most chunk per call, then fails.
type vReader struct {
	b     []byte
	pos   int
	chunk int
}

func (r *vReader) Read(p []byte) (int, error) {
	if r.pos >= len(r.b) {
		return 0, io.ErrClosedPipe
	}
	n := len(p)
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	n = copy(p[:n], r.b[r.pos:])
	r.pos += n
	return n, nil
}

func vPick(name string, l []int) int { return l[vChoose(name, len(l))] }

type vSet struct {
	id         uint8
	words, bl  int // words and bytes of a field element
	pk, ss     int
	msg        int
	bits       [2]int // key space of variant A and B
	bytes      [2]int
	top        byte // bytes bl-1 of reduced elements below this bound are always reduced
}

var vSets = []vSet{
	{Fp434, 7, 55, 330, 110, 16, [2]int{216, 217}, [2]int{28, 28}, 2},
	{Fp503, 8, 63, 378, 126, 24, [2]int{250, 252}, [2]int{32, 32}, 0x40},
	{Fp751, 12, 94, 564, 188, 32, [2]int{372, 378}, [2]int{47, 48}, 0x40},
}

var vVariants = []KeyVariant{KeyVariantSidhA, KeyVariantSidhB, KeyVariantSike}

func vPrvSize(s *vSet, v KeyVariant) int {
	switch v {
	case KeyVariantSidhA:
		return s.bytes[0]
	case KeyVariantSidhB:
		return s.bytes[1]
	}
	return s.bytes[1] + s.msg
}
