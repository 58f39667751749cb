package sha3

import "hash"

// The permutation is abstracted as an uninterpreted function of the 25 lanes; that
// both implementations compute Keccak-f[1600] is the subject of H04.

//verif:redirect keccakF1600 stubKeccak

func stubKeccak(a *[25]uint64) {
	o := vUFWords("keccakf", 25, a[:])
	copy(a[:], o)
}

func modelF(a *[25]uint64) {
	if vSym() {
		stubKeccak(a)
		return
	}
	keccakF1600(a)
}

type modelSponge struct {
	a    [25]uint64
	rate int
}

func (s *modelSponge) xor(i int, b byte) { s.a[i/8] ^= uint64(b) << uint(8*(i%8)) }

// modelXOF: FIPS 202 sponge[f, pad10*1, r](msg || sfx, n bytes), in bytes.
func modelXOF(rate int, sfx byte, n int, msg []byte) []byte {
	s := modelSponge{rate: rate}
	return s.run(sfx, n, msg)
}

func (s *modelSponge) run(sfx byte, n int, msg []byte) []byte {
	rate := s.rate
	for len(msg) >= rate {
		for i := 0; i < rate; i++ {
			s.xor(i, msg[i])
		}
		modelF(&s.a)
		msg = msg[rate:]
	}
	for i, b := range msg {
		s.xor(i, b)
	}
	s.xor(len(msg), sfx)
	s.xor(rate-1, 0x80)
	modelF(&s.a)
	return s.squeeze(n)
}

func (s *modelSponge) squeeze(n int) []byte {
	var out []byte
	for {
		for i := 0; i < s.rate; i++ {
			if len(out) == n {
				return out
			}
			out = append(out, byte(s.a[i/8]>>uint(8*(i%8))))
		}
		if len(out) == n {
			return out
		}
		modelF(&s.a)
	}
}

type vAlg struct {
	rate, size int
	mk         func() hash.Hash
}

var vSha3 = []vAlg{{144, 28, New224}, {136, 32, New256}, {104, 48, New384}, {72, 64, New512}}

type vXof struct {
	rate int
	mk   func() ShakeHash
}

var vShake = []vXof{{168, NewShake128}, {136, NewShake256}}

func vLens(r int) []int {
	return []int{0, 1, 7, 8, r - 9, r - 8, r - 2, r - 1, r, r + 1, 2*r - 1, 2 * r, 2*r + 1, 3*r + 5}
}

func vPick(name string, l []int) int { return l[vChoose(name, len(l))] }
