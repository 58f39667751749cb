package check

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"verifengine/sym"
)

const rtNative = `package %s

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"testing"
)

// set by instrumented copies of the package's assembly before instructions of
// BMI2, ADX and AES
var vUsed [3]byte

var vVals map[string]uint64
var vSeq map[string]int
var vPar map[string]int
var vRun int
var vObs []map[string]string

type vFail struct{ label string }
type vSkip struct{}

func vNext(name string) uint64 {
	k := fmt.Sprintf("%%s#%%d", name, vSeq[name])
	vSeq[name]++
	return vVals[k]
}
func vU64(name string) uint64 { return vNext(name) }
func vU32(name string) uint32 { return uint32(vNext(name)) }
func vU8(name string) uint8   { return uint8(vNext(name)) }
func vBool(name string) bool  { return vNext(name) != 0 }
func vBytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = vU8(name)
	}
	return b
}
func vWords(name string, n int) []uint64 {
	b := make([]uint64, n)
	for i := range b {
		b[i] = vU64(name)
	}
	return b
}
func vSecretBytes(name string, n int) []byte   { return vBytes(name, n) }
func vSecretWords(name string, n int) []uint64 { return vWords(name, n) }
func vDeclassify(b []byte)                     {}
func vCPU(bmi2, adx, aes bool) {
	tab := make([]uint32, 128)
	for i := range tab {
		tab[i] = 0xffffffff
	}
	tab[0], tab[4] = 7, 7
	s := []byte("111")
	if !bmi2 {
		tab[7*8+1] &^= 1 << 8
		s[0] = '0'
	}
	if !adx {
		tab[7*8+1] &^= 1 << 19
		s[1] = '0'
	}
	if !aes {
		tab[1*8+2] &^= 1 << 25
		s[2] = '0'
	}
	vReexec(string(s), tab)
}
func vCpuid(tab []uint32) { vReexec("111", tab) }

type vForward struct{ out map[string]interface{} }

// vReexec continues the run in a process started with the given processor.
func vReexec(cpu string, tab []uint32) {
	var hx []byte
	for _, w := range tab {
		hx = append(hx, byte(w), byte(w>>8), byte(w>>16), byte(w>>24))
	}
	th := hex.EncodeToString(hx)
	if os.Getenv("VERIF_CPU") == cpu && os.Getenv("VERIF_CPUID") == th {
		return
	}
	if os.Getenv("VERIF_CPU") != "" {
		panic("processor changed twice")
	}
	f, err := os.CreateTemp("", "verif")
	if err != nil {
		panic(err)
	}
	f.Close()
	defer os.Remove(f.Name())
	c := exec.Command(os.Args[0], os.Args[1:]...)
	c.Env = append(os.Environ(), "VERIF_CPU="+cpu, "VERIF_CPUID="+th, fmt.Sprintf("VERIF_REPLAY_ONLY=%%d", vRun), "VERIF_REPLAY_OUT="+f.Name())
	if o, err := c.CombinedOutput(); err != nil {
		panic(fmt.Sprintf("%%v %%s", err, o))
	}
	b, err := os.ReadFile(f.Name())
	if err != nil {
		panic(err)
	}
	var outs []map[string]interface{}
	if err := json.Unmarshal(b, &outs); err != nil {
		panic(err)
	}
	panic(vForward{outs[0]})
}
func vChoose(name string, n int) int {
	if n <= 1 && n > 0 {
		vNext(name)
		return 0
	}
	return int(vNext(name))
}
func vAssume(c bool) {
	if !c {
		panic(vSkip{})
	}
}
func vAssert(c bool, label string) {
	if !c {
		panic(vFail{label})
	}
}
func vSameBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
func vAssertBytes(a, b []byte, label string) {
	if !vSameBytes(a, b) {
		panic(vFail{fmt.Sprintf("%%s: got %%x want %%x", label, a, b)})
	}
}
func vReach(label string) {}
func vNote(label string)  {}
func vCoarse()            {}
func vObserve(label string, b []byte) {
	vObs = append(vObs, map[string]string{"label": label, "hex": hex.EncodeToString(b)})
}
func vPanics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case vFail, vSkip, vForward:
				panic(r)
			}
			p = true
		}
	}()
	f()
	return
}

type vZ int

var vZs []*big.Int

func vZNew(x *big.Int) vZ {
	vZs = append(vZs, x)
	return vZ(len(vZs) - 1)
}
func vZW(w []uint64) vZ {
	r := new(big.Int)
	for i := len(w) - 1; i >= 0; i-- {
		r.Lsh(r, 64)
		r.Or(r, new(big.Int).SetUint64(w[i]))
	}
	return vZNew(r)
}
func vZB(w []byte) vZ {
	r := new(big.Int)
	for i := len(w) - 1; i >= 0; i-- {
		r.Lsh(r, 8)
		r.Or(r, big.NewInt(int64(w[i])))
	}
	return vZNew(r)
}
func vZC(v int64) vZ { return vZNew(big.NewInt(v)) }
func vZHex(s string) vZ {
	r, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("vZHex")
	}
	return vZNew(r)
}
func vZAdd(a, b vZ) vZ     { return vZNew(new(big.Int).Add(vZs[a], vZs[b])) }
func vZSub(a, b vZ) vZ     { return vZNew(new(big.Int).Sub(vZs[a], vZs[b])) }
func vZMul(a, b vZ) vZ     { return vZNew(new(big.Int).Mul(vZs[a], vZs[b])) }
func vZShl(a vZ, n int) vZ { return vZNew(new(big.Int).Lsh(vZs[a], uint(n))) }
func vZIte(c bool, a, b vZ) vZ {
	if c {
		return a
	}
	return b
}
func vZAssumeLt(a, b vZ) { vAssume(vZs[a].Cmp(vZs[b]) < 0) }
func vZAssumeEq(a, b vZ) { vAssume(vZs[a].Cmp(vZs[b]) == 0) }
func vZAssertLt(a, b vZ, label string) {
	if vZs[a].Cmp(vZs[b]) >= 0 {
		panic(vFail{fmt.Sprintf("%%s: %%x not below %%x", label, vZs[a], vZs[b])})
	}
}
func vZAssertEq(a, b vZ, label string) {
	if vZs[a].Cmp(vZs[b]) != 0 {
		panic(vFail{fmt.Sprintf("%%s: got %%x want %%x", label, vZs[a], vZs[b])})
	}
}
func vZAssertMod(a, b, p vZ, label string) {
	d := new(big.Int).Sub(vZs[a], vZs[b])
	if d.Mod(d, vZs[p]).Sign() != 0 {
		panic(vFail{fmt.Sprintf("%%s: %%x and %%x differ modulo %%x", label, vZs[a], vZs[b], vZs[p])})
	}
}

var vFP, vFR *big.Int
var vFN int

func vFSet(p []uint64) {
	vFP, vFN = vZs[vZW(p)], len(p)
	vFR = new(big.Int).Lsh(big.NewInt(1), uint(64*vFN))
}
func vFWords(x *big.Int, n int) []uint64 {
	r := make([]uint64, n)
	b := new(big.Int).Set(x)
	for i := range r {
		r[i] = new(big.Int).And(b, new(big.Int).SetUint64(^uint64(0))).Uint64()
		b.Rsh(b, 64)
	}
	return r
}
func vFVal(w []uint64) *big.Int {
	r := new(big.Int).ModInverse(vFR, vFP)
	v := new(big.Int).Mul(vZs[vZW(w)], r)
	if len(w) == 2*vFN {
		v.Mul(v, r)
	}
	return v.Mod(v, vFP)
}
func vFMk(v *big.Int, n int) []uint64 {
	v = new(big.Int).Mul(v, vFR)
	if n == 2*vFN {
		v.Mul(v, vFR)
	}
	return vFWords(v.Mod(v, vFP), n)
}
func vFIn(name string, k int) []uint64 {
	n := vFN
	w := vWords(name, n)
	vAssume(vZs[vZW(w)].Cmp(new(big.Int).Mul(vFP, big.NewInt(int64(k)))) < 0)
	return w
}
func vFC(k int) []uint64 { return vFMk(big.NewInt(int64(k)), vFN) }
func vFOp(op string, k int, in ...[]uint64) []uint64 {
	a := vFVal(in[0])
	b := new(big.Int)
	if len(in) > 1 {
		b = vFVal(in[1])
	}
	n := vFN
	if op == "mulx" || op == "addx" || op == "subx" {
		n *= 2
	}
	switch op {
	case "add", "addx":
		a.Add(a, b)
	case "sub", "subx":
		a.Sub(a, b)
	case "mul", "mulx":
		a.Mul(a, b)
	case "inv":
		a.Exp(a, new(big.Int).Sub(vFP, big.NewInt(2)), vFP)
	}
	return vFMk(a, n)
}
func vFPow(b, e []uint64) []uint64 {
	return vFMk(new(big.Int).Exp(vFVal(b), vZs[vZW(e)], vFP), vFN)
}
func vFEq(label string, a, b []uint64) {
	if x, y := vFVal(a), vFVal(b); x.Cmp(y) != 0 {
		panic(vFail{fmt.Sprintf("%%s: got %%x want %%x", label, x, y)})
	}
}
func vFBelow(label string, x []uint64, k int) {
	l := new(big.Int).Mul(vFP, big.NewInt(int64(k)))
	if len(x) == 2*vFN {
		l.Mul(l, vFR)
	}
	if v := vZs[vZW(x)]; v.Cmp(l) >= 0 {
		panic(vFail{fmt.Sprintf("%%s: %%x not below %%x", label, v, l)})
	}
}
func vFProj(label string, gx, gz, wx, wz []uint64, scale ...[]uint64) {
	a, b, c, d := vFVal(gx), vFVal(gz), vFVal(wx), vFVal(wz)
	u, v := new(big.Int).Mul(a, d), new(big.Int).Mul(b, c)
	if u.Sub(u, v).Mod(u, vFP).Sign() != 0 || (a.Sign() == 0 && b.Sign() == 0) != (c.Sign() == 0 && d.Sign() == 0) {
		panic(vFail{fmt.Sprintf("%%s: got %%x : %%x want %%x : %%x", label, a, b, c, d)})
	}
}

func vFSel(c uint8, a, b []uint64) []uint64 {
	if c&1 == 1 {
		return a
	}
	return b
}
func vFSame(a, b []uint64) bool { return vFVal(a).Cmp(vFVal(b)) == 0 }

func vFPM(p, q, d []uint64) bool { return true }

type vG2 struct{ a, b *big.Int }

func vG2s(in [][]uint64) (r []vG2) {
	for i := 0; i+1 < len(in); i += 2 {
		r = append(r, vG2{vFVal(in[i]), vFVal(in[i+1])})
	}
	return
}
func vG2Mul(x, y vG2) vG2 {
	m := func(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
	a, b := m(x.a, y.a), m(x.a, y.b)
	a.Sub(a, m(x.b, y.b))
	b.Add(b, m(x.b, y.a))
	return vG2{a.Mod(a, vFP), b.Mod(b, vFP)}
}
func (x vG2) zero() bool { return x.a.Sign() == 0 && x.b.Sign() == 0 }
func vG2Sub(x, y vG2) vG2 {
	a, b := new(big.Int).Sub(x.a, y.a), new(big.Int).Sub(x.b, y.b)
	return vG2{a.Mod(a, vFP), b.Mod(b, vFP)}
}
func vF2In(name string) (a, b []uint64) {
	return vFIn(name, 2), vFIn(name+".i", 1)
}
func vF2Op(op string, in ...[]uint64) (a, b []uint64) {
	v := vG2s(in)
	x := v[0]
	switch op {
	case "add":
		x = vG2{new(big.Int).Add(x.a, v[1].a), new(big.Int).Add(x.b, v[1].b)}
	case "sub":
		x = vG2Sub(x, v[1])
	case "mul":
		x = vG2Mul(x, v[1])
	case "inv":
		n := new(big.Int).Mul(x.a, x.a)
		n.Add(n, new(big.Int).Mul(x.b, x.b))
		n.Exp(n, new(big.Int).Sub(vFP, big.NewInt(2)), vFP)
		x = vG2{new(big.Int).Mul(x.a, n), new(big.Int).Neg(new(big.Int).Mul(x.b, n))}
	}
	return vFMk(x.a, vFN), vFMk(x.b, vFN)
}
func vF2Eq(label string, in ...[]uint64) {
	v := vG2s(in)
	if !vG2Sub(v[0], v[1]).zero() {
		panic(vFail{fmt.Sprintf("%%s: got %%x,%%x want %%x,%%x", label, v[0].a, v[0].b, v[1].a, v[1].b)})
	}
}
func vF2Proj(label string, in ...[]uint64) {
	v := vG2s(in)
	if !vG2Sub(vG2Mul(v[0], v[3]), vG2Mul(v[1], v[2])).zero() || (v[0].zero() && v[1].zero()) != (v[2].zero() && v[3].zero()) {
		panic(vFail{fmt.Sprintf("%%s: got (%%x,%%x):(%%x,%%x) want (%%x,%%x):(%%x,%%x)", label, v[0].a, v[0].b, v[1].a, v[1].b, v[2].a, v[2].b, v[3].a, v[3].b)})
	}
}

// vF2Walk walks e isogenies of degree l (4 or 3) from the curve in[0:2] with the kernel
// of the point in[2:4], every kernel computed by multiplication; the rest of in are
// points to map. Returns the last coefficient and the images.
func vF2Walk(l, e int, in ...[]uint64) [][]uint64 {
	v := vG2s(in)
	mul := vG2Mul
	sub := vG2Sub
	add := func(x, y vG2) vG2 {
		a, b := new(big.Int).Add(x.a, y.a), new(big.Int).Add(x.b, y.b)
		return vG2{a.Mod(a, vFP), b.Mod(b, vFP)}
	}
	k := func(n int64, x vG2) vG2 {
		a, b := new(big.Int).Mul(x.a, big.NewInt(n)), new(big.Int).Mul(x.b, big.NewInt(n))
		return vG2{a.Mod(a, vFP), b.Mod(b, vFP)}
	}
	inv := func(x vG2) vG2 {
		n := new(big.Int).Mul(x.a, x.a)
		n.Add(n, new(big.Int).Mul(x.b, x.b))
		n.Mod(n, vFP)
		if n.Sign() != 0 {
			n.ModInverse(n, vFP)
		}
		a, b := new(big.Int).Mul(x.a, n), new(big.Int).Mul(x.b, n)
		b.Neg(b)
		return vG2{a.Mod(a, vFP), b.Mod(b, vFP)}
	}
	one := vG2{big.NewInt(1), new(big.Int)}
	a, r, pts := v[0], v[1], v[2:]
	for s := e - 1; s >= 0; s-- {
		x, z := r, one
		for i := 0; i < s; i++ {
			if l == 4 {
				for h := 0; h < 2; h++ {
					x2, z2, xz := mul(x, x), mul(z, z), mul(x, z)
					t := sub(x2, z2)
					x, z = mul(t, t), k(4, mul(xz, add(add(x2, mul(a, xz)), z2)))
				}
				continue
			}
			x2, z2, xz := mul(x, x), mul(z, z), mul(x, z)
			x4, z4, m, c := mul(x2, x2), mul(z2, z2), mul(x2, z2), mul(a, xz)
			n := sub(sub(sub(x4, k(6, m)), k(4, mul(c, z2))), k(3, z4))
			d := sub(add(add(k(3, x4), k(4, mul(c, x2))), k(6, m)), z4)
			x, z = mul(x, mul(n, n)), mul(z, mul(d, d))
		}
		t := mul(x, inv(z))
		t2 := mul(t, t)
		f := func(x vG2) vG2 {
			d, m := sub(x, t), sub(mul(x, t), one)
			if l == 4 {
				n := mul(mul(sub(add(mul(x, t2), x), k(2, t)), x), mul(m, m))
				d = mul(mul(d, d), sub(sub(k(2, mul(x, t)), t2), one))
				return mul(sub(vG2{new(big.Int), new(big.Int)}, n), inv(d))
			}
			return mul(mul(x, mul(m, m)), inv(mul(d, d)))
		}
		for i := range pts {
			pts[i] = f(pts[i])
		}
		if s > 0 {
			r = f(r)
		}
		if l == 4 {
			a = sub(k(4, mul(t2, t2)), k(2, one))
		} else {
			a = mul(add(sub(mul(a, t), k(6, t2)), k(6, one)), t)
		}
	}
	var out [][]uint64
	for _, x := range append([]vG2{a}, pts...) {
		out = append(out, vFMk(x.a, vFN), vFMk(x.b, vFN))
	}
	return out
}
func vSym() bool { return false }
func vUF(name string, outLen int, in ...[]byte) []byte {
	h := uint64(14695981039346656037)
	mix := func(b byte) { h = (h ^ uint64(b)) * 1099511628211 }
	for _, c := range name {
		mix(byte(c))
	}
	for _, s := range in {
		mix(byte(len(s)))
		mix(byte(len(s) >> 8))
		for _, b := range s {
			mix(b)
		}
	}
	o := make([]byte, outLen)
	for i := range o {
		mix(byte(i))
		o[i] = byte(h >> 32)
	}
	return o
}
func vUFWords(name string, n int, in ...[]uint64) []uint64 {
	var bs [][]byte
	for _, s := range in {
		var b []byte
		for _, w := range s {
			for k := 0; k < 8; k++ {
				b = append(b, byte(w>>uint(8*k)))
			}
		}
		bs = append(bs, b)
	}
	o := vUF(name, 8*n, bs...)
	r := make([]uint64, n)
	for i := range r {
		for k := 0; k < 8; k++ {
			r[i] |= uint64(o[8*i+k]) << uint(8*k)
		}
	}
	return r
}
func vParam(name string, def int) int {
	if v, ok := vPar[name]; ok {
		return v
	}
	return def
}

func TestVerifReplay(t *testing.T) {
	var runs []struct {
		Func   string
		Values map[string]uint64
		Params map[string]int
	}
	b, err := os.ReadFile(os.Getenv("VERIF_REPLAY_IN"))
	if err != nil {
		t.Fatal(err)
	}
	if err := json.Unmarshal(b, &runs); err != nil {
		t.Fatal(err)
	}
	var outs []map[string]interface{}
	for i, r := range runs {
		if o := os.Getenv("VERIF_REPLAY_ONLY"); o != "" && o != fmt.Sprint(i) {
			continue
		}
		vRun = i
		out := map[string]interface{}{"func": r.Func}
		var fwd map[string]interface{}
		vVals, vSeq, vPar, vObs, vZs = r.Values, map[string]int{}, r.Params, nil, nil
		func() {
			defer func() {
				if x := recover(); x != nil {
					switch f := x.(type) {
					case vFail:
						out["fail"] = f.label
					case vSkip:
						out["skip"] = true
					case vForward:
						fwd = f.out
					default:
						out["panic"] = fmt.Sprint(x)
					}
				}
			}()
			vUsed = [3]byte{}
			vHarnessFuncs[r.Func]()
			if c := os.Getenv("VERIF_CPU"); c != "" {
				for k, n := range []string{"BMI2", "ADX", "AES"} {
					if vUsed[k] != 0 && c[k] == '0' {
						panic(vFail{n + " instruction executed on a processor without it"})
					}
				}
			}
		}()
		out["obs"] = vObs
		if fwd != nil {
			out = fwd
		}
		outs = append(outs, out)
	}
	ob, _ := json.Marshal(outs)
	if err := os.WriteFile(os.Getenv("VERIF_REPLAY_OUT"), ob, 0644); err != nil {
		t.Fatal(err)
	}
}
`

// NativeRun is one concrete execution of a harness on the real build.
type NativeRun struct {
	Func   string
	Values map[string]uint64
	Params map[string]int
}

type NativeOut struct {
	Func  string              `json:"func"`
	Fail  string              `json:"fail"`
	Skip  bool                `json:"skip"`
	Panic string              `json:"panic"`
	Obs   []map[string]string `json:"obs"`
}

// NativeReplay builds the package with the harness and runs it on the given inputs.
func NativeReplay(repo, pkg, tags, arch string, harness []string, runs []NativeRun, scratch string) ([]NativeOut, error) {
	if len(runs) == 0 {
		return nil, nil
	}
	dir, err := os.MkdirTemp(scratch, "native")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	pdir := filepath.Join(repo, pkg)
	name, err := sym.PackageName(pdir)
	if err != nil {
		return nil, err
	}
	work, err := sym.WorkFile(repo, dir)
	if err != nil {
		return nil, err
	}
	repl := map[string]string{}
	if usesCPU(harness) {
		if err := fakeCPU(repo, dir, work, repl); err != nil {
			return nil, err
		}
	}
	if usesCPU(harness) {
		markOptional(pdir, dir, repl)
	}
	// hide the package's own tests: they are not needed and slow the build
	es, _ := os.ReadDir(pdir)
	empty := filepath.Join(dir, "empty_test.go")
	os.WriteFile(empty, []byte("package "+name+"\n"), 0o644)
	for _, e := range es {
		if strings.HasSuffix(e.Name(), "_test.go") {
			repl[filepath.Join(pdir, e.Name())] = empty
		}
	}
	for i, h := range harness {
		hb, err := os.ReadFile(h)
		if err != nil {
			return nil, err
		}
		hf := filepath.Join(dir, fmt.Sprintf("h%d.go", i))
		os.WriteFile(hf, []byte(sym.ExpandHarness(string(hb), name)), 0o644)
		repl[filepath.Join(pdir, fmt.Sprintf("zz_verif_h%d_test.go", i))] = hf
	}
	rt := filepath.Join(dir, "rt.go")
	src := fmt.Sprintf(rtNative, name)
	fns := map[string]bool{}
	for _, r := range runs {
		fns[r.Func] = true
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	src += "\nvar vHarnessFuncs = map[string]func(){\n"
	for _, f := range fl {
		src += fmt.Sprintf("\t%q: %s,\n", f, f)
	}
	src += "}\n"
	if err := os.WriteFile(rt, []byte(src), 0o644); err != nil {
		return nil, err
	}
	repl[filepath.Join(pdir, "zz_verif_rt_test.go")] = rt
	ob, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, ob, 0o644)
	in := filepath.Join(dir, "in.json")
	out := filepath.Join(dir, "out.json")
	rb, _ := json.Marshal(runs)
	os.WriteFile(in, rb, 0o644)
	args := []string{"test", "-overlay", ovf, "-vet=off", "-count=1", "-timeout=300s", "-run", "TestVerifReplay"}
	if tags != "" {
		args = append(args, "-tags="+tags)
	}
	args = append(args, ".")
	if arch == "" {
		arch = "amd64"
	}
	env := append(sym.GoEnv(), "GOWORK="+work, "GOARCH="+arch, "CGO_ENABLED=0", "VERIF_REPLAY_IN="+in, "VERIF_REPLAY_OUT="+out)
	txt, err := sym.RunCmd(pdir, env, 400*time.Second, "go", args...)
	b, rerr := os.ReadFile(out)
	if rerr != nil {
		return nil, fmt.Errorf("native run failed: %v\n%s", err, txt)
	}
	var outs []NativeOut
	if err := json.Unmarshal(b, &outs); err != nil {
		return nil, err
	}
	if len(outs) != len(runs) {
		return nil, fmt.Errorf("native run returned %d of %d results", len(outs), len(runs))
	}
	return outs, nil
}


func usesCPU(harness []string) bool {
	for _, h := range harness {
		if b, err := os.ReadFile(h); err == nil && (strings.Contains(string(b), "vCPU(") || strings.Contains(string(b), "vCpuid(")) {
			return true
		}
	}
	return false
}

const fakeSys = `package cpu

import "os"

func init() {
	if s := os.Getenv("VERIF_CPU"); s != "" {
		X86.HasBMI2 = s[0] == '1'
		X86.HasADX = s[1] == '1'
		X86.HasAES = s[2] == '1'
	}
}
`

const fakeUtils = `package utils

import (
	"encoding/hex"
	"os"
)

var vCpuidTab = func() (t [128]uint32) {
	b, _ := hex.DecodeString(os.Getenv("VERIF_CPUID"))
	for i := 0; i+3 < len(b) && i/4 < len(t); i += 4 {
		t[i/4] = uint32(b[i]) | uint32(b[i+1])<<8 | uint32(b[i+2])<<16 | uint32(b[i+3])<<24
	}
	return
}()
`

// answers from the table, like the CPUID instruction
const fakeCpuid = `
	LEAQ ·vCpuidTab(SB), R10
	ANDL $15, AX
	SHLL $5, AX
	ANDL $1, CX
	SHLL $4, CX
	ADDL AX, CX
	ADDQ CX, R10
	MOVL 0(R10), AX
	MOVL 4(R10), BX
	MOVL 8(R10), CX
	MOVL 12(R10), DX
`

var reOptional = regexp.MustCompile(`(?m)(^|;|\\\\)([ \t]*)(MULX[LQ]|RORX[LQ]|ADCX[LQ]|ADOX[LQ]|AESENCLAST|AESENC|AESDECLAST|AESDEC|AESIMC|AESKEYGENASSIST)\b`)

// markOptional makes the replay build record the use of optional instructions.
func markOptional(pdir, dir string, repl map[string]string) {
	es, _ := os.ReadDir(pdir)
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), "_amd64.s") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(pdir, e.Name()))
		if err != nil || !reOptional.Match(b) {
			continue
		}
		nb := reOptional.ReplaceAllStringFunc(string(b), func(s string) string {
			m := reOptional.FindStringSubmatch(s)
			k := map[string]int{"M": 0, "R": 0}[m[3][:1]]
			if strings.HasPrefix(m[3], "AD") {
				k = 1
			} else if strings.HasPrefix(m[3], "AES") {
				k = 2
			}
			return fmt.Sprintf("%s%sMOVB $1, ·vUsed+%d(SB); %s", m[1], m[2], k, m[3])
		})
		f := filepath.Join(dir, "mark_"+e.Name())
		os.WriteFile(f, []byte(nb), 0o644)
		repl[filepath.Join(pdir, e.Name())] = f
	}
}

var reCpuid = regexp.MustCompile(`(?m)^([ \t]*)CPUID[ \t]*(//.*)?$`)

// fakeCPU makes the replay build take the processor from the environment.
func fakeCPU(repo, dir, work string, repl map[string]string) error {
	out, err := sym.RunCmd(repo, append(sym.GoEnv(), "GOWORK="+work), 60*time.Second, "go", "list", "-m", "-f", "{{.Dir}}", "golang.org/x/sys")
	if err != nil {
		return fmt.Errorf("%v %s", err, out)
	}
	src := strings.TrimSpace(out)
	dst := filepath.Join(dir, "sys")
	if err := os.MkdirAll(filepath.Join(dst, "cpu"), 0o755); err != nil {
		return err
	}
	es, err := os.ReadDir(filepath.Join(src, "cpu"))
	if err != nil {
		return err
	}
	for _, e := range es {
		if strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, "cpu", e.Name()))
		if err != nil {
			return err
		}
		os.WriteFile(filepath.Join(dst, "cpu", e.Name()), b, 0o644)
	}
	os.WriteFile(filepath.Join(dst, "cpu", "zz_verif.go"), []byte(fakeSys), 0o644)
	mod, err := os.ReadFile(filepath.Join(src, "go.mod"))
	if err != nil {
		mod = []byte("module golang.org/x/sys\n\ngo 1.12\n")
	}
	os.WriteFile(filepath.Join(dst, "go.mod"), mod, 0o644)
	wb, err := os.ReadFile(work)
	if err != nil {
		return err
	}
	if err := os.WriteFile(work, append(wb, []byte("\nreplace golang.org/x/sys => "+dst+"\n")...), 0o644); err != nil {
		return err
	}
	ud := filepath.Join(repo, "utils")
	us, _ := os.ReadDir(ud)
	for _, e := range us {
		if !strings.HasSuffix(e.Name(), ".s") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(ud, e.Name()))
		if err != nil || !reCpuid.Match(b) {
			continue
		}
		f := filepath.Join(dir, "utils_"+e.Name())
		os.WriteFile(f, reCpuid.ReplaceAllLiteral(b, []byte(fakeCpuid)), 0o644)
		repl[filepath.Join(ud, e.Name())] = f
		g := filepath.Join(dir, "utils_tab.go")
		os.WriteFile(g, []byte(fakeUtils), 0o644)
		repl[filepath.Join(ud, "aa_verif_tab.go")] = g
	}
	return nil
}
