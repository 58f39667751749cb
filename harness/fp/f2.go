package PKG

import . "github.com/henrydcase/nobs/dh/sidh/common"

// The operations of the quadratic extension (F03) as operations on elements.

//verif:redirect add v2_add
//verif:redirect sub v2_sub
//verif:redirect mul v2_mul
//verif:redirect sqr v2_sqr
//verif:redirect inv v2_inv

type vE struct{ a, b []uint64 }

func vOf(e *Fp2) vE { return vE{e.A[:vN], e.B[:vN]} }
func (x vE) fp2() (e Fp2) {
	copy(e.A[:], x.a)
	copy(e.B[:], x.b)
	return
}
func vMk(a, b []uint64) vE       { return vE{a, b} }
func (x vE) add(y vE) vE         { return vMk(vF2Op("add", x.a, x.b, y.a, y.b)) }
func (x vE) sub(y vE) vE         { return vMk(vF2Op("sub", x.a, x.b, y.a, y.b)) }
func (x vE) mul(y vE) vE         { return vMk(vF2Op("mul", x.a, x.b, y.a, y.b)) }
func (x vE) inv() vE             { return vMk(vF2Op("inv", x.a, x.b)) }
func (x vE) sq() vE              { return x.mul(x) }
func (x vE) k(n int) vE          { return vK(n).mul(x) }
func vK(n int) vE                { return vE{vFC(n), make([]uint64, vN)} }
func vEl(name string) vE         { return vMk(vF2In(name)) }
func vEqE(l string, g *Fp2, w vE) { vF2Eq(l, g.A[:vN], g.B[:vN], w.a, w.b) }
func vProj(l string, gx, gz *Fp2, wx, wz vE, sc ...vE) {
	in := [][]uint64{gx.A[:vN], gx.B[:vN], gz.A[:vN], gz.B[:vN], wx.a, wx.b, wz.a, wz.b}
	for _, s := range sc {
		in = append(in, s.a, s.b)
	}
	vF2Proj(l, in...)
}

func v2_add(z, x, y *Fp2) { *z = vOf(x).add(vOf(y)).fp2() }
func v2_sub(z, x, y *Fp2) { *z = vOf(x).sub(vOf(y)).fp2() }
func v2_mul(z, x, y *Fp2) { *z = vOf(x).mul(vOf(y)).fp2() }
func v2_sqr(z, x *Fp2)    { *z = vOf(x).sq().fp2() }
func v2_inv(z, x *Fp2)    { *z = vOf(x).inv().fp2() }
