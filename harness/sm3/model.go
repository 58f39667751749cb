package sm3

// The compression function is abstracted as an uninterpreted function of the
// chaining value and the block; that the code computes SM3's compression function
// is the subject of H02.

//verif:redirect digest.compress stubCompress

func stubCompress(d *digest, in []byte, n int) {
	for k := 0; k < n; k++ {
		d.h = modelF(d.h, in[64*k:64*k+64])
	}
}

func modelF(h [8]uint32, blk []byte) [8]uint32 {
	if !vSym() {
		var d digest
		d.h = h
		d.compress(blk, 1)
		return d.h
	}
	var hb [32]byte
	for i, x := range h {
		hb[4*i], hb[4*i+1], hb[4*i+2], hb[4*i+3] = byte(x), byte(x>>8), byte(x>>16), byte(x>>24)
	}
	o := vUF("sm3F", 32, hb[:], blk[:64])
	var r [8]uint32
	for i := range r {
		r[i] = uint32(o[4*i]) | uint32(o[4*i+1])<<8 | uint32(o[4*i+2])<<16 | uint32(o[4*i+3])<<24
	}
	return r
}

// SM3 (GB/T 32905-2016, section 5): iv, padding, iteration, output.
var modelIV = [8]uint32{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}

// modelTail hashes the rest of a message of which total bytes precede in h.
func modelTail(h [8]uint32, tail []byte, total uint64) []byte {
	m := append([]byte{}, tail...)
	m = append(m, 0x80)
	for len(m)%64 != 56 {
		m = append(m, 0)
	}
	bits := total * 8
	for i := 7; i >= 0; i-- {
		m = append(m, byte(bits>>uint(8*i)))
	}
	for len(m) > 0 {
		h = modelF(h, m[:64])
		m = m[64:]
	}
	out := make([]byte, 32)
	for i, x := range h {
		out[4*i], out[4*i+1], out[4*i+2], out[4*i+3] = byte(x>>24), byte(x>>16), byte(x>>8), byte(x)
	}
	return out
}

func modelSM3(msg []byte) []byte {
	h := modelIV
	n := len(msg) / 64
	for k := 0; k < n; k++ {
		h = modelF(h, msg[64*k:64*k+64])
	}
	return modelTail(h, msg[64*n:], uint64(len(msg)))
}
