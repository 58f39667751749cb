package sym

import (
	"fmt"
	"go/types"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verifengine/term"
)

func (m *Machine) strArg(v Value) string {
	s, ok := v.(Str)
	if !ok {
		fail("intrinsic string argument %T", v)
	}
	return string(s)
}

func (m *Machine) constArg(v Value) int64 {
	t := v.(*term.Term)
	if !t.IsConst() {
		return int64(m.Concretize(t))
	}
	return int64(t.K)
}

func (m *Machine) freshSeq(name string) string {
	k := m.varSeq[name]
	m.varSeq[name] = k + 1
	return fmt.Sprintf("%s#%d", name, k)
}

// packBytes packs bytes little endian into 64-bit terms.
func (m *Machine) packBytes(bs []*term.Term) []*term.Term {
	var out []*term.Term
	for i := 0; i < len(bs); i += 8 {
		w := bs[i]
		for k := 1; k < 8 && i+k < len(bs); k++ {
			w = m.C.Concat(bs[i+k], w)
		}
		out = append(out, w)
	}
	return out
}

func (m *Machine) variadic(v Value, elem types.Type) []Value {
	s := v.(Slice)
	var r []Value
	sz := m.sizeof(elem)
	for i := int64(0); i < s.Len; i++ {
		p := s.P
		p.Off += i * sz
		r = append(r, m.Load(p, elem))
	}
	return r
}

// harness intrinsics
func (m *Machine) harnessIntrinsic(fn *ssa.Function, args []Value) (Value, bool) {
	c := m.C
	if strings.HasPrefix(fn.Name(), "vZ") {
		return m.zIntrinsic(fn.Name(), args)
	}
	if strings.HasPrefix(fn.Name(), "vF") && len(fn.Name()) > 2 && (fn.Name()[2] >= 'A' && fn.Name()[2] <= 'Z' || fn.Name()[2] == '2') {
		if v, ok := m.fieldIntrinsic(fn.Name(), args); ok {
			return v, true
		}
	}
	switch fn.Name() {
	case "vU64":
		return m.fresh(m.strArg(args[0]), 64), true
	case "vU32":
		return m.fresh(m.strArg(args[0]), 32), true
	case "vU8":
		return m.fresh(m.strArg(args[0]), 8), true
	case "vBool":
		return m.fresh(m.strArg(args[0]), 1), true
	case "vBytes", "vSecretBytes":
		n := m.constArg(args[1])
		ts := make([]*term.Term, n)
		for i := range ts {
			ts[i] = m.fresh(m.strArg(args[0]), 8)
		}
		if fn.Name() == "vSecretBytes" {
			m.markSecret(ts)
		}
		return m.BytesSlice(ts), true
	case "vWords", "vSecretWords":
		n := m.constArg(args[1])
		ts := make([]*term.Term, n)
		for i := range ts {
			ts[i] = m.fresh(m.strArg(args[0]), 64)
		}
		if fn.Name() == "vSecretWords" {
			m.markSecret(ts)
		}
		return m.WordsSlice(ts), true
	case "vChoose":
		n := m.constArg(args[1])
		k := m.Choose(int(n))
		m.Inputs = append(m.Inputs, Input{Name: m.freshSeq(m.strArg(args[0])), Val: uint64(k)})
		return c.Const(uint64(k), 64), true
	case "vAssume":
		m.Assume(args[0].(*term.Term))
		return nil, true
	case "vCoarse":
		m.C.Coarse = true
		return nil, true
	case "vAssert":
		m.Assert(args[0].(*term.Term), m.strArg(args[1]))
		return nil, true
	case "vAssertBytes":
		a, b := args[0].(Slice), args[1].(Slice)
		lbl := m.strArg(args[2])
		if a.Len != b.Len {
			m.Assert(c.Bool(false), lbl+" (length)")
			return nil, true
		}
		m.Assert(m.bytesEqual(a, b), lbl)
		return nil, true
	case "vSameBytes":
		a, b := args[0].(Slice), args[1].(Slice)
		if a.Len != b.Len {
			return c.Bool(false), true
		}
		return m.bytesEqual(a, b), true
	case "vReach":
		m.reached[m.strArg(args[0])]++
		return nil, true
	case "vNote":
		m.Notes[m.strArg(args[0])] = true
		return nil, true
	case "vObserve":
		m.Obs = append(m.Obs, Observed{m.strArg(args[0]), m.SliceBytes(args[1].(Slice))})
		return nil, true
	case "vPanics":
		cl := args[0].(*Closure)
		p := false
		d, st := m.depth, len(m.stack)
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(*GoPanic); ok {
						p = true
						m.depth = d
						m.stack = m.stack[:st]
						return
					}
					panic(r)
				}
			}()
			m.Call(cl.Fn, nil, cl.Bind)
		}()
		return c.Bool(p), true
	case "vSym":
		return c.Bool(true), true
	case "vParam":
		n := m.strArg(args[0])
		if v, ok := m.opts.Params[n]; ok {
			return c.Const(uint64(v), 64), true
		}
		return args[1], true
	case "vUF":
		name := m.strArg(args[0])
		n := int(m.constArg(args[1]))
		var ins []*term.Term
		tag := ""
		for _, a := range m.variadic(args[2], types.NewSlice(types.Typ[types.Uint8])) {
			s := a.(Slice)
			tag += fmt.Sprintf("/%d", s.Len)
			ins = append(ins, m.packBytes(m.SliceBytes(s))...)
		}
		if len(ins) == 0 {
			ins = append(ins, c.Const(0, 8))
		}
		tok := c.UF(name+tag, 0, ins...)
		outs := make([]*term.Term, 0, n)
		for i := 0; i < n; i += 8 {
			w := c.UF(fmt.Sprintf("%s.o%d", name, i/8), 64, tok)
			for k := 0; k < 8 && i+k < n; k++ {
				outs = append(outs, c.Extract(w, uint8(8*k), 8))
			}
		}
		return m.BytesSlice(outs), true
	case "vUFWords":
		name := m.strArg(args[0])
		n := int(m.constArg(args[1]))
		var ins []*term.Term
		tag := ""
		for _, a := range m.variadic(args[2], types.NewSlice(types.Typ[types.Uint64])) {
			s := a.(Slice)
			tag += fmt.Sprintf("/%d", s.Len)
			ins = append(ins, m.SliceWords(s)...)
		}
		if len(ins) == 0 {
			ins = append(ins, c.Const(0, 8))
		}
		tok := c.UF(name+tag, 0, ins...)
		outs := make([]*term.Term, n)
		for i := range outs {
			outs[i] = c.UF(fmt.Sprintf("%s.o%d", name, i), 64, tok)
		}
		return m.WordsSlice(outs), true
	case "vCPU":
		f := CPUFeatures{m.Decide(args[0].(*term.Term)), m.Decide(args[1].(*term.Term)), m.Decide(args[2].(*term.Term))}
		m.setCPU(f)
		return nil, true
	case "vCpuid":
		sl := args[0].(Slice)
		var tab []*term.Term
		for i := 0; i < int(sl.Len); i++ {
			tab = append(tab, m.Load(Ptr{Obj: sl.P.Obj, Off: sl.P.Off + int64(4*i)}, types.Typ[types.Uint32]).(*term.Term))
		}
		m.extra["cpuid"] = tab
		m.reinitPackages()
		return nil, true
	case "vDeclassify":
		m.declassify(m.SliceBytes(args[0].(Slice)))
		return nil, true
	}
	return nil, false
}

func (m *Machine) bytesEqual(a, b Slice) *term.Term {
	c := m.C
	x, y := m.packBytes(m.SliceBytes(a)), m.packBytes(m.SliceBytes(b))
	r := c.Bool(true)
	for i := range x {
		r = c.And(r, c.Eq(x[i], y[i]))
	}
	return r
}

func (m *Machine) opaqueErr(name string) Value {
	return Iface{T: opaqueErrType, V: Ptr{Obj: m.newObj(1, name)}}
}

// intercept handles intrinsics, redirects and modelled library functions.
func (m *Machine) intercept(fn *ssa.Function, args []Value) (Value, bool) {
	if fn.Pkg == m.E.Pkg && len(fn.Name()) > 1 && fn.Name()[0] == 'v' && fn.Parent() == nil && m.E.isHarness(fn) {
		if v, ok := m.harnessIntrinsic(fn, args); ok {
			return v, true
		}
	}
	if m.hook != nil {
		if v, ok := m.hook(fn, args); ok {
			return v, true
		}
	}
	if r, ok := m.E.extRedir[fn.String()]; ok {
		return r(m, fn, args), true
	}
	if st, ok := m.E.redirects[fn]; ok {
		// a stub calling its own target runs the real one
		for _, f := range m.stack {
			if f == st {
				return nil, false
			}
		}
		return m.Call(st, args, nil), true
	}
	if fn.Pkg == nil {
		if fn.Origin() != nil && fn.Origin().Pkg != nil {
			return nil, false
		}
		return nil, false
	}
	pp := fn.Pkg.Pkg.Path()
	if fn.Name() == "init" && !m.E.initPkg(pp) {
		return nil, true
	}
	if m.E.initPkg(pp) {
		return nil, false
	}
	c := m.C
	t := func(i int) *term.Term { return args[i].(*term.Term) }
	switch pp {
	case "math/bits":
		switch fn.Name() {
		case "Add64", "Add32", "Add", "Sub64", "Sub32", "Sub":
			a, b, ci := t(0), t(1), t(2)
			if c.Upper(ci) > 1 {
				if m.Decide(c.Ult(c.Const(1, ci.W), ci)) {
					fail("bits.%s with carry > 1", fn.Name())
				}
			}
			cb := c.Extract(ci, 0, 1)
			if strings.HasPrefix(fn.Name(), "Add") {
				return Tuple{c.Adc(a, b, cb), c.ZExt(c.AdcC(a, b, cb), a.W)}, true
			}
			return Tuple{c.Sbb(a, b, cb), c.ZExt(c.SbbB(a, b, cb), a.W)}, true
		case "Mul64":
			return Tuple{c.MulHi(t(0), t(1)), c.Mul(t(0), t(1))}, true
		case "Mul32":
			p := c.Mul(c.ZExt(t(0), 64), c.ZExt(t(1), 64))
			return Tuple{c.Extract(p, 32, 32), c.Extract(p, 0, 32)}, true
		case "RotateLeft64", "RotateLeft32", "RotateLeft8", "RotateLeft16", "RotateLeft":
			if t(1).IsConst() {
				w := uint64(t(0).W)
				k := t(1).K % w
				return c.Rotl(t(0), uint(k)), true
			}
		case "ReverseBytes64", "ReverseBytes32", "ReverseBytes16":
			x := t(0)
			r := c.Extract(x, 0, 8)
			for i := uint8(8); i < x.W; i += 8 {
				r = c.Concat(r, c.Extract(x, i, 8))
			}
			return r, true
		case "Len", "Len64", "Len32", "Len8", "TrailingZeros64", "TrailingZeros", "TrailingZeros32", "OnesCount64":
			x := t(0)
			if x.IsConst() {
				var r int
				switch fn.Name() {
				case "TrailingZeros64", "TrailingZeros":
					r = bits.TrailingZeros64(x.K)
				case "TrailingZeros32":
					r = bits.TrailingZeros32(uint32(x.K))
				case "OnesCount64":
					r = bits.OnesCount64(x.K)
				default:
					r = bits.Len64(x.K)
				}
				return c.Const(uint64(r), 64), true
			}
		}
	case "crypto/subtle", "crypto/internal/fips140/subtle":
		switch fn.Name() {
		case "ConstantTimeCompare":
			a, b := args[0].(Slice), args[1].(Slice)
			if a.Len != b.Len {
				return c.Const(0, 64), true
			}
			return c.ZExt(m.bytesEqual(a, b), 64), true
		case "ConstantTimeByteEq", "ConstantTimeEq":
			return c.ZExt(c.Eq(t(0), t(1)), 64), true
		case "ConstantTimeSelect":
			// ^(v-1)&x | (v-1)&y
			v1 := c.Sub(t(0), c.Const(1, 64))
			return c.Or(c.And(c.Not(v1), t(1)), c.And(v1, t(2))), true
		case "ConstantTimeLessOrEq":
			return c.ZExt(c.Sle(t(0), t(1)), 64), true
		case "ConstantTimeCopy":
			x, y := args[1].(Slice), args[2].(Slice)
			if x.Len != y.Len {
				m.goPanic("subtle: slices have different lengths")
			}
			v1 := c.Extract(c.Sub(t(0), c.Const(1, 64)), 0, 8)
			xm, ym := v1, c.Not(v1)
			xb, yb := m.SliceBytes(x), m.SliceBytes(y)
			for i := range xb {
				p := x.P
				p.Off += int64(i)
				m.Store(p, c.Or(c.And(xm, xb[i]), c.And(ym, yb[i])), types.Typ[types.Uint8])
			}
			return nil, true
		case "XORBytes":
			d, x, y := args[0].(Slice), args[1].(Slice), args[2].(Slice)
			n := x.Len
			if y.Len < n {
				n = y.Len
			}
			if n == 0 {
				return c.Const(0, 64), true
			}
			if d.Len < n {
				m.goPanic("subtle.XORBytes: dst too short")
			}
			xb, yb := m.SliceBytes(x), m.SliceBytes(y)
			for i := int64(0); i < n; i++ {
				p := d.P
				p.Off += i
				m.Store(p, c.Xor(xb[i], yb[i]), types.Typ[types.Uint8])
			}
			return c.Const(uint64(n), 64), true
		}
	case "bytes", "internal/bytealg":
		switch fn.Name() {
		case "Equal":
			a, b := args[0].(Slice), args[1].(Slice)
			if a.Len != b.Len {
				return c.Bool(false), true
			}
			return m.bytesEqual(a, b), true
		case "Compare":
			a, b := m.SliceBytes(args[0].(Slice)), m.SliceBytes(args[1].(Slice))
			one, mone, zero := c.Const(1, 64), c.Const(^uint64(0), 64), c.Const(0, 64)
			r := zero
			if len(a) < len(b) {
				r = mone
			} else if len(a) > len(b) {
				r = one
			}
			n := len(a)
			if len(b) < n {
				n = len(b)
			}
			for i := n - 1; i >= 0; i-- {
				r = c.Ite(c.Eq(a[i], b[i]), r, c.Ite(c.Ult(a[i], b[i]), mone, one))
			}
			return r, true
		}
	case "fmt":
		switch fn.Name() {
		case "Errorf":
			return m.opaqueErr("fmt.Errorf"), true
		case "Sprintf", "Sprint", "Sprintln":
			return Str("<fmt>"), true
		case "Printf", "Println", "Print", "Fprintf", "Fprintln", "Fprint":
			return Tuple{c.Const(0, 64), Iface{}}, true
		}
	case "crypto":
		if fn.Name() == "RegisterHash" {
			return nil, true
		}
	case "runtime":
		switch fn.Name() {
		case "KeepAlive", "GC", "SetFinalizer":
			return nil, true
		}
	case "golang.org/x/sys/cpu":
		if fn.Name() == "init" {
			return nil, true
		}
	case "sync":
		switch fn.String() {
		case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
			return nil, true
		case "(*sync.Once).Do":
			p := args[0].(Ptr)
			k := fmt.Sprintf("once%d.%d", p.Obj.ID, p.Off)
			if m.extra[k] == nil {
				m.extra[k] = true
				cl := args[1].(*Closure)
				m.Call(cl.Fn, nil, cl.Bind)
			}
			return nil, true
		}
	}
	return nil, false
}

func (m *Machine) external(fn *ssa.Function, args []Value) Value {
	if m.base == nil {
		// package initialisation: hardware probes return zeros
		r := fn.Signature.Results()
		switch r.Len() {
		case 0:
			return nil
		case 1:
			return m.zero(r.At(0).Type())
		}
		return m.zero(r)
	}
	return m.callX86(fn, args)
}
