package sym

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/bits"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verifengine/smt"
	"verifengine/term"
)

// Machine executes one path (or package initialisation).
type Machine struct {
	E       *Engine
	C       *term.Ctx
	base    *Machine
	nextID  int
	globals map[*ssa.Global]*Object
	reinit  bool               // package initialisation was repeated on this path
	over    map[*Object][]Cell // copy-on-write overrides of base objects
	mover   map[*MapObj]*MapObj

	PC       []*term.Term
	pcSet    map[*term.Term]bool
	qcache   map[string]qres
	supp     map[*term.Term]map[string]bool
	prefix   []int64
	pos      int
	taken    []int64
	newWork  [][]int64
	sess     *smt.Session
	steps    int64
	depth    int
	varSeq   map[string]int
	Inputs   []Input
	reached  map[string]int
	Asserts  int
	Proved   int
	Trivial  int
	Sweeps   int
	FieldIds int
	fst      *fieldState
	sw       *sweeper
	Failures []*Failure
	Unknowns []string
	models   []*term.Model
	tokSeq   int
	stack    []*ssa.Function
	Encoded  map[string]bool
	opts     *RunOpts
	Obs      []Observed
	hook     func(fn *ssa.Function, args []Value) (Value, bool)
	CT       *ctState
	Notes    map[string]bool
	inX86    bool
	extra    map[string]interface{}
	fixTerm  map[int32]*term.Term
}

// Observed is a value handed out by the harness through vObserve.
type Observed struct {
	Label string
	T     []*term.Term
}

type Input struct {
	Name string
	T    *term.Term // nil for choices
	Val  uint64     // for choices
}

type Failure struct {
	Label  string
	Kind   string // assert | panic
	Values map[string]uint64
	Stack  string
	Note   string
}

func (m *Machine) newObj(size int64, name string) *Object {
	m.nextID++
	id := m.nextID
	if m.base != nil {
		id += 1 << 20
	}
	return &Object{ID: id, Name: name, Cells: make([]Cell, size), Base: 0xc000000000 + uint64(id)<<20, Owner: m}
}

func (m *Machine) cells(o *Object, write bool) []Cell {
	if o.Owner == m {
		return o.Cells
	}
	if c, ok := m.over[o]; ok {
		return c
	}
	if !write {
		return o.Cells
	}
	c := append([]Cell(nil), o.Cells...)
	m.over[o] = c
	return c
}

func (m *Machine) sizeof(t types.Type) int64 { return m.E.Sizes.Sizeof(t) }

func typeW(t types.Type) uint8 {
	switch b := t.Underlying().(type) {
	case *types.Basic:
		switch b.Kind() {
		case types.Bool, types.UntypedBool:
			return 1
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32, types.UntypedRune:
			return 32
		case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
			return 64
		}
	}
	return 0
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

// ---- memory ----

func (m *Machine) storeCells(cs []Cell, v Value, t types.Type) {
	n := int64(len(cs))
	switch x := v.(type) {
	case *term.Term:
		if x.W == 1 {
			x = m.C.ZExt(x, 8)
		}
		if int64(x.W)/8 != n {
			fail("store width %d into %d bytes (%v)", x.W, n, t)
		}
		for i := range cs {
			cs[i] = Cell{T: x, I: uint8(i)}
		}
	case Agg:
		copy(cs, x.Cells)
	case nil:
		for i := range cs {
			cs[i] = Cell{}
		}
	default:
		for i := range cs {
			cs[i] = Cell{V: v, I: uint8(i), N: uint8(n)}
		}
	}
}

func (m *Machine) byteOf(c Cell) *term.Term {
	if c.T != nil {
		return m.C.Extract(c.T, c.I*8, 8)
	}
	if c.V != nil {
		if p, ok := c.V.(Ptr); ok && p.Obj != nil && p.Sym == nil {
			a := p.Obj.Base + uint64(p.Off)
			return m.C.Const(a>>(8*c.I), 8)
		}
		fail("byte of opaque value %T", c.V)
	}
	return m.C.Const(0, 8)
}

// loadBits loads w bits (8..64) little endian.
func (m *Machine) loadBits(cs []Cell) *term.Term {
	n := len(cs)
	c0 := cs[0]
	if c0.T != nil && c0.I == 0 && int(c0.T.W) == 8*n {
		ok := true
		for i := 1; i < n; i++ {
			if cs[i].T != c0.T || int(cs[i].I) != i {
				ok = false
				break
			}
		}
		if ok {
			return c0.T
		}
	}
	allzero := true
	for i := range cs {
		if cs[i].T != nil || cs[i].V != nil {
			allzero = false
		}
	}
	if allzero {
		return m.C.Const(0, uint8(8*n))
	}
	r := m.byteOf(cs[0])
	i := 1
	for i < n {
		// group runs from the same term
		j := i
		if cs[i].T != nil {
			for j+1 < n && cs[j+1].T == cs[i].T && cs[j+1].I == cs[j].I+1 {
				j++
			}
			r = m.C.Concat(m.C.Extract(cs[i].T, cs[i].I*8, uint8(8*(j-i+1))), r)
		} else {
			r = m.C.Concat(m.byteOf(cs[i]), r)
		}
		i = j + 1
	}
	return r
}

func (m *Machine) loadCells(cs []Cell, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return m.loadOpaque(cs, t)
		}
		if u.Info()&types.IsString != 0 {
			v := m.loadOpaque(cs, t)
			if v == nil {
				return Str("")
			}
			return v
		}
		if u.Info()&types.IsFloat != 0 {
			fail("float")
		}
		if len(cs) == 8 && cs[0].V != nil {
			return m.loadOpaque(cs, t)
		}
		v := m.loadBits(cs)
		if typeW(t) == 1 {
			return m.C.Extract(v, 0, 1)
		}
		return v
	case *types.Array, *types.Struct:
		return Agg{Cells: append([]Cell(nil), cs...), T: t}
	default:
		v := m.loadOpaque(cs, t)
		return v
	}
}

func (m *Machine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return Ptr{}
		}
		if u.Info()&types.IsString != 0 {
			return Str("")
		}
		if w := typeW(t); w > 0 {
			return m.C.Const(0, w)
		}
		fail("zero of %v", t)
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return mapRef{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return nil
	case *types.Array, *types.Struct:
		return Agg{Cells: make([]Cell, m.sizeof(t)), T: t}
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = m.zero(u.At(i).Type())
		}
		return tp
	}
	fail("zero of %v", t)
	return nil
}

func (m *Machine) loadOpaque(cs []Cell, t types.Type) Value {
	c0 := cs[0]
	zero := true
	for _, c := range cs {
		if c.V != nil || (c.T != nil && !(c.T.IsConst() && c.T.K>>(8*c.I)&0xff == 0)) {
			zero = false
		}
	}
	if zero {
		return m.zero(t)
	}
	if c0.V == nil || c0.I != 0 || int(c0.N) != len(cs) {
		fail("opaque load of %v misaligned", t)
	}
	for i, c := range cs {
		if c.V == nil || int(c.I) != i {
			fail("opaque load of %v torn", t)
		}
	}
	return c0.V
}

func (m *Machine) goPanic(f string, a ...interface{}) {
	panic(&GoPanic{Msg: fmt.Sprintf(f, a...), Where: m.stackString()})
}

func (m *Machine) checkRange(p Ptr, n int64) {
	if p.Obj == nil {
		m.goPanic("nil pointer dereference")
	}
	if p.Off < 0 || p.Off+n > int64(len(p.Obj.Cells)) {
		fail("memory access outside object %s: off %d size %d of %d", p.Obj.Name, p.Off, n, len(p.Obj.Cells))
	}
}

func (m *Machine) Load(p Ptr, t types.Type) Value {
	n := m.sizeof(t)
	if p.Sym != nil {
		m.ctAddr(p.Sym)
		return m.loadSym(p, t, n)
	}
	if n == 0 {
		return m.zero(t)
	}
	m.checkRange(p, n)
	return m.loadCells(m.cells(p.Obj, false)[p.Off:p.Off+n], t)
}

func (m *Machine) loadSym(p Ptr, t types.Type, n int64) Value {
	w := typeW(t)
	if at, ok := t.Underlying().(*types.Array); ok && m.fst != nil && typeW(at.Elem()) == 64 {
		// field elements are selected word by word
		cs := make([]Cell, n)
		for i := int64(0); i < at.Len(); i++ {
			q := p
			q.Off += 8 * i
			m.storeCells(cs[8*i:8*i+8], m.loadSym(q, at.Elem(), 8), at.Elem())
		}
		return m.loadCells(cs, t)
	}
	if w == 0 {
		// fork on the index
		k := m.Concretize(p.Sym)
		q := Ptr{Obj: p.Obj, Off: p.Off + int64(k)*p.Stride}
		return m.Load(q, t)
	}
	lw := w
	if w == 1 {
		lw = 8
	}
	els := make([]*term.Term, p.Count)
	allc := true
	cs := m.cells(p.Obj, false)
	for i := range els {
		o := p.Off + int64(i)*p.Stride
		els[i] = m.loadBits(cs[o : o+n])
		if !els[i].IsConst() {
			allc = false
		}
	}
	var r *term.Term
	if allc {
		d := make([]uint64, len(els))
		for i := range d {
			d[i] = els[i].K
		}
		r = m.C.TabLookup(m.C.AddTable(lw, d), p.Sym)
	} else {
		nb := bits.Len(uint(len(els) - 1))
		r = m.iteTree(els, p.Sym, nb-1, 0)
	}
	if w == 1 {
		return m.C.Extract(r, 0, 1)
	}
	return r
}

func (m *Machine) iteTree(els []*term.Term, idx *term.Term, bit int, base int) *term.Term {
	if bit < 0 {
		return els[base]
	}
	l := m.iteTree(els, idx, bit-1, base)
	hb := base | 1<<uint(bit)
	if hb >= len(els) {
		return l
	}
	h := m.iteTree(els, idx, bit-1, hb)
	return m.C.Ite(m.C.Extract(idx, uint8(bit), 1), h, l)
}

func (m *Machine) Store(p Ptr, v Value, t types.Type) {
	n := m.sizeof(t)
	if p.Sym != nil {
		m.ctAddr(p.Sym)
		vt, ok := v.(*term.Term)
		if !ok {
			k := m.Concretize(p.Sym)
			m.Store(Ptr{Obj: p.Obj, Off: p.Off + int64(k)*p.Stride}, v, t)
			return
		}
		if vt.W == 1 {
			vt = m.C.ZExt(vt, 8)
		}
		cs := m.cells(p.Obj, true)
		for i := int64(0); i < p.Count; i++ {
			o := p.Off + i*p.Stride
			old := m.loadBits(cs[o : o+n])
			nv := m.C.Ite(m.C.Eq(p.Sym, m.C.Const(uint64(i), 64)), vt, old)
			m.storeCells(cs[o:o+n], nv, t)
		}
		return
	}
	if n == 0 {
		return
	}
	m.checkRange(p, n)
	if p.Obj.Kind == "ro" {
		fail("store to read-only object %s", p.Obj.Name)
	}
	m.storeCells(m.cells(p.Obj, true)[p.Off:p.Off+n], v, t)
}

// ---- path control ----

const maxSteps = 400_000_000

func (m *Machine) addPC(t *term.Term) {
	if t.IsTrue() || m.pcSet[t] {
		return
	}
	if m.pcSet == nil {
		m.pcSet = map[*term.Term]bool{}
	}
	m.pcSet[t] = true
	m.PC = append(m.PC, t)
}

// support returns the variables (and uninterpreted function names) t depends on,
// or nil,false when t is too large to look at.
func (m *Machine) support(t *term.Term) (map[string]bool, bool) {
	if m.supp == nil {
		m.supp = m.base.supp // shared by the paths of a worker
		if m.supp == nil {
			m.supp = map[*term.Term]map[string]bool{}
			m.base.supp = m.supp
		}
	}
	if s, ok := m.supp[t]; ok {
		return s, s != nil
	}
	s := map[string]bool{}
	seen := map[*term.Term]bool{t: true}
	st := []*term.Term{t}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		switch x.Op {
		case term.Var:
			s[x.Name] = true
		case term.UF:
			s["()"+x.Name] = true
		}
		for _, a := range x.Args {
			if !seen[a] {
				seen[a] = true
				st = append(st, a)
			}
		}
		if len(seen) > 4000 {
			m.supp[t] = nil
			return nil, false
		}
	}
	m.supp[t] = s
	return s, true
}

// slice returns the literals of the path condition that share variables, directly
// or through other literals, with c. The path condition is satisfiable, so the
// others do not matter.
func (m *Machine) slice(c *term.Term) []*term.Term {
	s, ok := m.support(c)
	if !ok {
		return append([]*term.Term(nil), m.PC...)
	}
	in := map[string]bool{}
	for k := range s {
		in[k] = true
	}
	used := make([]bool, len(m.PC))
	var out []*term.Term
	for ch := true; ch; {
		ch = false
		for i, p := range m.PC {
			if used[i] {
				continue
			}
			ps, ok := m.support(p)
			if !ok {
				return append([]*term.Term(nil), m.PC...)
			}
			hit := false
			for k := range ps {
				if in[k] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				out = append(out, p)
				for k := range ps {
					in[k] = true
				}
			}
		}
	}
	return out
}

type qres struct {
	r  smt.Result
	md *term.Model
}

// query asks the solver, remembering the answers within a worker.
func (m *Machine) query(q []*term.Term, timeout time.Duration) (smt.Result, *term.Model) {
	ids := make([]int, len(q))
	for i, t := range q {
		ids[i] = int(t.ID)
	}
	sort.Ints(ids)
	k := fmt.Sprint(ids)
	if m.base.qcache == nil {
		m.base.qcache = map[string]qres{}
	}
	if c, ok := m.base.qcache[k]; ok {
		return c.r, c.md
	}
	r, md := m.session().Check(q, timeout, true)
	if r != smt.Unknown {
		m.base.qcache[k] = qres{r, md}
	}
	return r, md
}

func (m *Machine) feasible(cond *term.Term) bool {
	// cached models
	var base *term.Model
	for _, md := range m.models {
		ev := m.C.NewEval(md)
		ok := true
		hit := ev.Eval(cond) == 1
		if !hit && base != nil {
			continue
		}
		for _, p := range m.PC {
			if ev.Eval(p) != 1 {
				ok = false
				break
			}
		}
		if ok && hit {
			return true
		}
		if ok {
			base = md
		}
	}
	limit := m.opts.FeasTimeout
	if m.big(cond) {
		goals := append(append([]*term.Term(nil), m.PC...), cond)
		for k := uint64(0); k < 3; k++ {
			b := &backProp{m: m, v: map[int32]uint64{}, rng: rand.New(rand.NewSource(int64(k))), def: randomDef(k)}
			if md := b.solve(goals, 100); md != nil {
				if m.models = append(m.models, md); len(m.models) > 8 {
					m.models = m.models[1:]
				}
				return true
			}
		}
		limit /= 10
	}
	r, md := m.query(append(m.slice(cond), cond), limit)
	if r == smt.Sat && md != nil {
		if base != nil { // the slice is independent of the rest
			v := map[int32]uint64{}
			for k, x := range base.V {
				v[k] = x
			}
			for k, x := range md.V {
				v[k] = x
			}
			md = &term.Model{V: v, Def: base.Def, Salt: base.Salt}
		}
		// only keep models we can evaluate consistently
		ev := m.C.NewEval(md)
		if ev.Eval(cond) == 1 {
			m.models = append(m.models, md)
			if len(m.models) > 8 {
				m.models = m.models[1:]
			}
		}
	}
	return r != smt.Unsat
}

func (m *Machine) session() *smt.Session {
	if m.sess == nil {
		fail("symbolic decision during initialisation")
	}
	return m.sess
}

// Decide resolves a branch condition. Every outcome (also an implied one) is
// recorded, so that replaying a prefix needs no solver and is deterministic.
func (m *Machine) Decide(cond *term.Term) bool {
	if cond.IsConst() {
		return cond.K == 1
	}
	m.ctBranch(cond)
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.taken = append(m.taken, d)
		switch d {
		case 1:
			m.addPC(cond)
			return true
		case 0:
			m.addPC(m.C.Not(cond))
			return false
		case 2:
			return true
		case 3:
			return false
		}
		fail("replay mismatch")
	}
	m.late()
	rec := func(d int64) {
		m.pos++
		m.prefix = append(m.prefix, d)
		m.taken = append(m.taken, d)
	}
	nc := m.C.Not(cond)
	if m.pcSet[cond] {
		rec(2)
		return true
	}
	if m.pcSet[nc] {
		rec(3)
		return false
	}
	if !m.feasible(cond) {
		rec(3)
		return false
	}
	if !m.feasible(nc) {
		rec(2)
		return true
	}
	if m.big(cond) && m.typical(nc) { // the common side first
		m.newWork = append(m.newWork, append(append([]int64(nil), m.taken...), 1))
		rec(0)
		m.addPC(nc)
		return false
	}
	m.newWork = append(m.newWork, append(append([]int64(nil), m.taken...), 0))
	rec(1)
	m.addPC(cond)
	return true
}

// typical tells whether some known input of this path satisfies c.
func (m *Machine) typical(c *term.Term) bool {
	for _, md := range m.models {
		ev := m.C.NewEval(md)
		ok := true
		for _, p := range m.PC {
			if ev.Eval(p) != 1 {
				ok = false
				break
			}
		}
		if ok {
			return ev.Eval(c) == 1
		}
	}
	return false
}

func (m *Machine) late() {
	if m.opts != nil && !m.opts.Deadline.IsZero() && time.Now().After(m.opts.Deadline) {
		fail("deadline")
	}
}

// Choose forks n ways.
func (m *Machine) Choose(n int) int {
	if n <= 0 {
		panic(pathEnd{"choose 0"})
	}
	if n == 1 {
		return 0
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.taken = append(m.taken, d)
		return int(d)
	}
	for i := n - 1; i > 0; i-- {
		m.newWork = append(m.newWork, append(append([]int64(nil), m.taken...), int64(i)))
	}
	m.pos++
	m.prefix = append(m.prefix, 0)
	m.taken = append(m.taken, 0)
	return 0
}

// Concretize forks over all feasible values of t.
func (m *Machine) Concretize(t *term.Term) uint64 {
	for n := 0; ; n++ {
		if t.IsConst() {
			return t.K
		}
		if n > 300 {
			fail("too many values to concretize")
		}
		var v uint64
		if m.pos < len(m.prefix) {
			v = uint64(m.prefix[m.pos])
		} else {
			v = m.minValue(t)
			m.prefix = append(m.prefix, int64(v))
		}
		m.pos++
		m.taken = append(m.taken, int64(v))
		if m.Decide(m.C.Eq(t, m.C.Const(v, t.W))) {
			return v
		}
	}
}

// minValue finds the smallest feasible value of t (binary search, deterministic).
func (m *Machine) minValue(t *term.Term) uint64 {
	lo, hi := uint64(0), m.C.Upper(t)
	s := m.session()
	chk := func(c *term.Term) bool {
		r, _ := s.Check(append(m.slice(c), c), m.opts.FeasTimeout, false)
		return r != smt.Unsat
	}
	if !chk(m.C.Bool(true)) {
		panic(pathEnd{"infeasible"})
	}
	for lo < hi {
		mid := lo + (hi-lo)/2
		if chk(m.C.Ule(t, m.C.Const(mid, t.W))) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	return lo
}

// Assume adds a constraint; ends the path when unsatisfiable.
func (m *Machine) Assume(c *term.Term) {
	if c.IsTrue() {
		return
	}
	if c.IsFalse() {
		panic(pathEnd{"assume false"})
	}
	if m.pos >= len(m.prefix) {
		if !m.feasible(c) {
			panic(pathEnd{"assume infeasible"})
		}
	}
	m.addPC(c)
}

func (m *Machine) stackString() string {
	var s []string
	for i := len(m.stack) - 1; i >= 0; i-- {
		s = append(s, m.stack[i].String())
	}
	return strings.Join(s, " < ")
}

func (m *Machine) inputValues(md *term.Model) map[string]uint64 {
	r := map[string]uint64{}
	for _, in := range m.Inputs {
		if in.T == nil {
			r[in.Name] = in.Val
		} else if md != nil {
			r[in.Name] = md.V[in.T.ID]
		} else {
			r[in.Name] = 0
		}
	}
	return r
}

// big tells whether a condition is compared word by word (sweep.go).
func (m *Machine) big(t *term.Term) bool {
	n := 0
	seen := map[int32]bool{}
	st := []*term.Term{t}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x.ID] {
			continue
		}
		seen[x.ID] = true
		if n++; n > 1500 {
			return true
		}
		st = append(st, x.Args...)
	}
	return false
}

func (m *Machine) modelInputs(md *term.Model) map[string]uint64 {
	r := map[string]uint64{}
	ev := m.C.NewEval(md)
	for _, in := range m.Inputs {
		if in.T == nil {
			r[in.Name] = in.Val
		} else {
			r[in.Name] = ev.Eval(in.T)
		}
	}
	return r
}

// Assert checks cond on the current path.
func (m *Machine) Assert(cond *term.Term, label string) {
	m.Asserts++
	if m.opts.OnAssert != nil && m.opts.OnAssert(m, cond, label) {
		return
	}
	if cond.IsTrue() {
		m.Trivial++
		m.Proved++
		return
	}
	if m.pcSet[cond] {
		m.Trivial++
		m.Proved++
		return
	}
	if m.pos < len(m.prefix) {
		// assertion was already checked on the parent path (same prefix of decisions)
		m.Asserts--
		m.addPC(cond)
		return
	}
	m.late()
	r, md := smt.Unknown, (*term.Model)(nil)
	if m.big(cond) {
		if m.sw == nil {
			m.sw = newSweeper(m)
		}
		ok, cx := m.sw.prove(cond)
		if ok {
			m.Proved++
			m.Sweeps++
			return
		}
		if cx != nil {
			m.Failures = append(m.Failures, &Failure{Label: label, Kind: "assert", Values: m.modelInputs(cx), Stack: m.stackString()})
			panic(pathEnd{"assert failed: " + label})
		}
		m.tryPathModels(cond, label)
	}
	q := append(m.slice(m.C.Not(cond)), m.C.Not(cond))
	r, md = m.query(q, m.opts.QuickTimeout)
	if r == smt.Sat {
		// the model has to cover every input
		q = append(append([]*term.Term(nil), m.PC...), m.C.Not(cond))
		r, md = m.session().Check(q, m.opts.QuickTimeout, true)
	}
	if r == smt.Unknown {
		if !m.big(cond) {
			m.tryPathModels(cond, label)
		}
		r, md, _, _ = smt.Race(m.C, m.opts.Solvers, q, m.opts.AssertTimeout)
	}
	switch r {
	case smt.Unsat:
		m.Proved++
		m.addPC(cond)
		return
	case smt.Sat:
		m.fieldCandidates(cond, label)
		f := &Failure{Label: label, Kind: "assert", Values: m.inputValues(md), Stack: m.stackString()}
		m.Failures = append(m.Failures, f)
		// continue under the assumption it holds, if possible
		panic(pathEnd{"assert failed: " + label})
	default:
		m.Unknowns = append(m.Unknowns, label)
		m.addPC(cond)
	}
}

// ---- SSA interpretation ----

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	defers []func()
	result Value
}

func (m *Machine) globalObj(g *ssa.Global) *Object {
	if o, ok := m.globals[g]; ok {
		return o
	}
	if m.base != nil && !m.reinit {
		if o, ok := m.base.globals[g]; ok {
			return o
		}
	}
	et := g.Type().Underlying().(*types.Pointer).Elem()
	o := m.newObj(m.sizeof(et), g.String())
	m.globals[g] = o
	// errors of packages whose init is not interpreted: opaque distinct values
	if g.Pkg != nil && !m.E.initPkg(g.Pkg.Pkg.Path()) && et.String() == "error" {
		ev := m.newObj(1, "error "+g.String())
		m.storeCells(o.Cells, Iface{T: opaqueErrType, V: Ptr{Obj: ev}}, et)
	}
	return o
}

var opaqueErrType = types.NewNamed(types.NewTypeName(token.NoPos, nil, "opaqueError", nil), types.NewStruct(nil, nil), nil)

func (m *Machine) get(fr *frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return m.constant(x)
	case *ssa.Global:
		return Ptr{Obj: m.globalObj(x)}
	case *ssa.Function:
		return &Closure{Fn: x}
	case *ssa.Builtin:
		return BuiltinFn{x.Name()}
	}
	r, ok := fr.env[v]
	if !ok {
		fail("no value for %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (m *Machine) constant(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return m.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return Str(constant.StringVal(c.Value))
		}
		if u.Info()&types.IsBoolean != 0 {
			return m.C.Bool(constant.BoolVal(c.Value))
		}
		if w := typeW(t); w > 0 {
			if v, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return m.C.Const(uint64(v), w)
			}
			v, _ := constant.Uint64Val(constant.ToInt(c.Value))
			return m.C.Const(v, w)
		}
	}
	fail("constant %v", c)
	return nil
}

func (m *Machine) Call(fn *ssa.Function, args []Value, bind []Value) Value {
	if r, ok := m.intercept(fn, args); ok {
		return r
	}
	if fn.Blocks == nil {
		return m.external(fn, args)
	}
	if m.depth > 400 {
		fail("call depth")
	}
	m.depth++
	m.stack = append(m.stack, fn)
	if m.Encoded != nil {
		m.Encoded[fn.String()] = true
	}
	d := m.depth
	defer func() {
		m.depth = d - 1
		m.stack = m.stack[:d-1]
	}()
	fr := &frame{fn: fn, env: make(map[ssa.Value]Value, 32)}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = bind[i]
	}
	fr.block = fn.Blocks[0]
	for fr.block != nil {
		m.runBlock(fr)
	}
	return fr.result
}

func (m *Machine) runBlock(fr *frame) {
	b := fr.block
	// phis in parallel
	var phis []Value
	np := 0
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range b.Preds {
			if pr == fr.prev {
				phis = append(phis, m.get(fr, p.Edges[i]))
				break
			}
		}
		np++
	}
	for i := 0; i < np; i++ {
		fr.env[b.Instrs[i].(*ssa.Phi)] = phis[i]
	}
	for _, in := range b.Instrs[np:] {
		m.steps++
		if m.steps > maxSteps {
			fail("step limit")
		}
		if m.steps&0xfff == 0 && m.opts != nil && !m.opts.Deadline.IsZero() && time.Now().After(m.opts.Deadline) {
			fail("deadline")
		}
		switch i := in.(type) {
		case *ssa.Jump:
			fr.prev, fr.block = b, b.Succs[0]
			return
		case *ssa.If:
			c := m.get(fr, i.Cond).(*term.Term)
			if m.Decide(c) {
				fr.prev, fr.block = b, b.Succs[0]
			} else {
				fr.prev, fr.block = b, b.Succs[1]
			}
			return
		case *ssa.Return:
			switch len(i.Results) {
			case 0:
			case 1:
				fr.result = m.get(fr, i.Results[0])
			default:
				tp := make(Tuple, len(i.Results))
				for k, r := range i.Results {
					tp[k] = m.get(fr, r)
				}
				fr.result = tp
			}
			fr.block = nil
			return
		case *ssa.Panic:
			v := m.get(fr, i.X)
			msg := "panic"
			if f, ok := v.(Iface); ok {
				msg = fmt.Sprint(f.V)
			}
			panic(&GoPanic{Val: v, Msg: msg})
		case *ssa.RunDefers:
			for k := len(fr.defers) - 1; k >= 0; k-- {
				fr.defers[k]()
			}
			fr.defers = nil
		case *ssa.Defer:
			fn, args := m.prepCall(fr, &i.Call)
			fr.defers = append(fr.defers, func() { fn(args) })
		case *ssa.Go, *ssa.Send, *ssa.Select:
			fail("concurrency in %s", fr.fn)
		case *ssa.Store:
			m.Store(m.get(fr, i.Addr).(Ptr), m.get(fr, i.Val), i.Val.Type())
		case *ssa.MapUpdate:
			m.mapUpdate(m.get(fr, i.Map), m.get(fr, i.Key), m.get(fr, i.Value))
		case *ssa.DebugRef:
		case ssa.Value:
			fr.env[i] = m.eval(fr, i)
		default:
			fail("instr %T", in)
		}
	}
	fail("fell off block")
}

func (m *Machine) eval(fr *frame, v ssa.Value) Value {
	switch i := v.(type) {
	case *ssa.Alloc:
		et := i.Type().Underlying().(*types.Pointer).Elem()
		return Ptr{Obj: m.newObj(m.sizeof(et), i.Comment)}
	case *ssa.BinOp:
		return m.binop(i.Op, m.get(fr, i.X), m.get(fr, i.Y), i.X.Type(), i.Y.Type())
	case *ssa.UnOp:
		x := m.get(fr, i.X)
		switch i.Op {
		case token.MUL:
			return m.Load(x.(Ptr), i.Type())
		case token.SUB:
			return m.C.Neg(x.(*term.Term))
		case token.XOR:
			return m.C.Not(x.(*term.Term))
		case token.NOT:
			return m.C.Not(x.(*term.Term))
		}
		fail("unop %v", i.Op)
	case *ssa.Call:
		fn, args := m.prepCall(fr, &i.Call)
		return fn(args)
	case *ssa.ChangeType:
		x := m.get(fr, i.X)
		return x
	case *ssa.ChangeInterface:
		return m.get(fr, i.X)
	case *ssa.Convert:
		return m.convert(m.get(fr, i.X), i.X.Type(), i.Type())
	case *ssa.MakeInterface:
		return Iface{T: i.X.Type(), V: m.get(fr, i.X)}
	case *ssa.Extract:
		return m.get(fr, i.Tuple).(Tuple)[i.Index]
	case *ssa.FieldAddr:
		p := m.get(fr, i.X).(Ptr)
		if p.Obj == nil {
			m.goPanic("nil pointer dereference")
		}
		st := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		p.Off += m.E.fieldOff(st, i.Field)
		return p
	case *ssa.Field:
		a := m.get(fr, i.X).(Agg)
		st := i.X.Type().Underlying().(*types.Struct)
		o := m.E.fieldOff(st, i.Field)
		ft := st.Field(i.Field).Type()
		n := m.sizeof(ft)
		if n == 0 {
			return m.zero(ft)
		}
		return m.loadCells(a.Cells[o:o+n], ft)
	case *ssa.IndexAddr:
		return m.indexAddr(m.get(fr, i.X), i.X.Type(), m.get(fr, i.Index).(*term.Term), i.Index.Type())
	case *ssa.Index:
		x := m.get(fr, i.X)
		idx := m.get(fr, i.Index).(*term.Term)
		switch a := x.(type) {
		case Agg:
			at := i.X.Type().Underlying().(*types.Array)
			o := m.newObj(int64(len(a.Cells)), "tmp")
			o.Cells = a.Cells
			p := m.elemPtr(Ptr{Obj: o}, at.Elem(), at.Len(), m.idx64(idx, i.Index.Type()))
			return m.Load(p, at.Elem())
		case Str:
			k := m.Concretize(m.idx64(idx, i.Index.Type()))
			if k >= uint64(len(a)) {
				m.goPanic("index out of range")
			}
			return m.C.Const(uint64(a[k]), 8)
		}
		fail("index %T", x)
	case *ssa.Lookup:
		x := m.get(fr, i.X)
		if s, ok := x.(Str); ok {
			k := m.Concretize(m.idx64(m.get(fr, i.Index).(*term.Term), i.Index.Type()))
			if k >= uint64(len(s)) {
				m.goPanic("index out of range")
			}
			return m.C.Const(uint64(s[k]), 8)
		}
		mr, _ := x.(mapRef)
		mt := i.X.Type().Underlying().(*types.Map)
		var val Value
		ok := false
		if mr.M != nil {
			val, ok = m.mapObj(mr.M).M[m.mapKey(m.get(fr, i.Index))]
		}
		if !ok {
			val = m.zero(mt.Elem())
		}
		if i.CommaOk {
			return Tuple{val, m.C.Bool(ok)}
		}
		return val
	case *ssa.MakeClosure:
		c := &Closure{Fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			c.Bind = append(c.Bind, m.get(fr, b))
		}
		return c
	case *ssa.MakeMap:
		m.nextID++
		return mapRef{&MapObj{ID: m.nextID, M: map[string]Value{}, Owner: m}}
	case *ssa.MakeSlice:
		l := int64(m.Concretize(m.idx64(m.get(fr, i.Len).(*term.Term), i.Len.Type())))
		cp := int64(m.Concretize(m.idx64(m.get(fr, i.Cap).(*term.Term), i.Cap.Type())))
		if l < 0 || cp < l || cp > 1<<24 {
			m.goPanic("makeslice: len out of range")
		}
		et := i.Type().Underlying().(*types.Slice).Elem()
		return Slice{P: Ptr{Obj: m.newObj(m.sizeof(et)*cp, "make")}, Len: l, Cap: cp}
	case *ssa.Slice:
		return m.sliceOp(fr, i)
	case *ssa.SliceToArrayPointer:
		s := m.get(fr, i.X).(Slice)
		at := i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if s.Len < at.Len() {
			m.goPanic("slice to array pointer: length")
		}
		return s.P
	case *ssa.TypeAssert:
		return m.typeAssert(m.get(fr, i.X).(Iface), i)
	case *ssa.Range:
		x := m.get(fr, i.X)
		switch a := x.(type) {
		case Str:
			return &rangeIter{str: []rune(string(a))}
		case mapRef:
			it := &rangeIter{}
			if a.M != nil {
				it.m = m.mapObj(a.M)
				it.keys = it.m.Keys
			}
			return it
		}
		fail("range %T", x)
	case *ssa.Next:
		it := m.get(fr, i.Iter).(*rangeIter)
		tt := i.Type().(*types.Tuple)
		if i.IsString {
			if it.i >= len(it.str) {
				return Tuple{m.C.Bool(false), m.C.Const(0, 64), m.C.Const(0, 32)}
			}
			off := len(string(it.str[:it.i]))
			r := it.str[it.i]
			it.i++
			return Tuple{m.C.Bool(true), m.C.Const(uint64(off), 64), m.C.Const(uint64(r), 32)}
		}
		if it.i >= len(it.keys) {
			zv := func(t types.Type) Value {
				if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
					return nil
				}
				return m.zero(t)
			}
			return Tuple{m.C.Bool(false), zv(tt.At(1).Type()), zv(tt.At(2).Type())}
		}
		k := it.keys[it.i]
		it.i++
		return Tuple{m.C.Bool(true), k, it.m.M[m.mapKey(k)]}
	case *ssa.MultiConvert:
		return m.convert(m.get(fr, i.X), i.X.Type(), i.Type())
	}
	fail("value %T", v)
	return nil
}

func (m *Machine) mapObj(o *MapObj) *MapObj {
	if c, ok := m.mover[o]; ok {
		return c
	}
	return o
}

func (m *Machine) mapKey(k Value) string {
	switch x := k.(type) {
	case *term.Term:
		v := m.Concretize(x)
		return fmt.Sprintf("i%d", v)
	case Str:
		return "s" + string(x)
	case Ptr:
		if x.Obj == nil {
			return "p0"
		}
		return fmt.Sprintf("p%d.%d", x.Obj.ID, x.Off)
	case Iface:
		if x.T == nil {
			return "nil"
		}
		return x.T.String() + ":" + m.mapKey(x.V)
	case Agg:
		s := "a"
		for _, c := range x.Cells {
			s += fmt.Sprintf(",%d", m.Concretize(m.byteOf(c)))
		}
		return s
	}
	fail("map key %T", k)
	return ""
}

func (m *Machine) mapUpdate(mv, k, v Value) {
	mr := mv.(mapRef)
	if mr.M == nil {
		m.goPanic("assignment to entry in nil map")
	}
	o := m.mapObj(mr.M)
	if o.Owner != m {
		n := &MapObj{ID: o.ID, M: map[string]Value{}, Owner: m, Keys: append([]Value(nil), o.Keys...)}
		for a, b := range o.M {
			n.M[a] = b
		}
		m.mover[mr.M] = n
		o = n
	}
	ks := m.mapKey(k)
	if _, ok := o.M[ks]; !ok {
		o.Keys = append(o.Keys, k)
	}
	o.M[ks] = v
}

func (m *Machine) idx64(t *term.Term, ty types.Type) *term.Term {
	if t.W == 64 {
		return t
	}
	if isSigned(ty) {
		return m.C.SExt(t, 64)
	}
	return m.C.ZExt(t, 64)
}

func (m *Machine) elemPtr(p Ptr, et types.Type, n int64, idx *term.Term) Ptr {
	sz := m.sizeof(et)
	if idx.IsConst() {
		if idx.K >= uint64(n) {
			m.goPanic("index out of range [%d] with length %d", int64(idx.K), n)
		}
		p.Off += int64(idx.K) * sz
		return p
	}
	if m.C.Upper(idx) >= uint64(n) {
		if !m.Decide(m.C.Ult(idx, m.C.Const(uint64(n), 64))) {
			m.goPanic("index out of range (symbolic) with length %d", n)
		}
	}
	if p.Sym != nil {
		// double symbolic: concretize the new index
		k := m.Concretize(idx)
		p.Off += int64(k) * sz
		return p
	}
	p.Sym, p.Stride, p.Count = idx, sz, n
	return p
}

func (m *Machine) indexAddr(x Value, xt types.Type, idx *term.Term, it types.Type) Value {
	i64 := m.idx64(idx, it)
	switch a := x.(type) {
	case Slice:
		et := xt.Underlying().(*types.Slice).Elem()
		if a.P.Sym != nil {
			fail("slice at symbolic address")
		}
		return m.elemPtr(a.P, et, a.Len, i64)
	case Ptr:
		at := xt.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if a.Obj == nil {
			m.goPanic("nil pointer dereference")
		}
		return m.elemPtr(a, at.Elem(), at.Len(), i64)
	}
	fail("indexaddr %T", x)
	return nil
}

func (m *Machine) fixPtr(p Ptr) Ptr {
	if p.Sym != nil {
		k := m.Concretize(p.Sym)
		return Ptr{Obj: p.Obj, Off: p.Off + int64(k)*p.Stride}
	}
	return p
}

func (m *Machine) sliceOp(fr *frame, i *ssa.Slice) Value {
	geti := func(v ssa.Value) (int64, bool) {
		if v == nil {
			return 0, false
		}
		t := m.get(fr, v).(*term.Term)
		return int64(m.Concretize(m.idx64(t, v.Type()))), true
	}
	x := m.get(fr, i.X)
	lo, _ := geti(i.Low)
	hi, hok := geti(i.High)
	mx, mok := geti(i.Max)
	switch a := x.(type) {
	case Str:
		if !hok {
			hi = int64(len(a))
		}
		if lo < 0 || hi < lo || hi > int64(len(a)) {
			m.goPanic("slice bounds out of range")
		}
		return a[lo:hi]
	case Slice:
		et := i.X.Type().Underlying().(*types.Slice).Elem()
		if !hok {
			hi = a.Len
		}
		if !mok {
			mx = a.Cap
		}
		if lo < 0 || hi < lo || mx < hi || mx > a.Cap {
			m.goPanic("slice bounds out of range [%d:%d:%d] cap %d", lo, hi, mx, a.Cap)
		}
		r := Slice{P: a.P, Len: hi - lo, Cap: mx - lo}
		r.P.Off += lo * m.sizeof(et)
		if r.Cap == 0 && a.P.Obj != nil {
			r.P = a.P // keep inside the object
		}
		return r
	case Ptr:
		if a.Obj == nil {
			m.goPanic("nil pointer dereference")
		}
		a = m.fixPtr(a)
		at := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := at.Len()
		if !hok {
			hi = n
		}
		if !mok {
			mx = n
		}
		if lo < 0 || hi < lo || mx < hi || mx > n {
			m.goPanic("slice bounds out of range [%d:%d:%d] cap %d", lo, hi, mx, n)
		}
		r := Slice{P: a, Len: hi - lo, Cap: mx - lo}
		r.P.Off += lo * m.sizeof(at.Elem())
		return r
	}
	fail("slice of %T", x)
	return nil
}

func (m *Machine) typeAssert(x Iface, i *ssa.TypeAssert) Value {
	ok := false
	if x.T != nil {
		if it, isI := i.AssertedType.Underlying().(*types.Interface); isI {
			ok = x.T != opaqueErrType && types.Implements(x.T, it) || (x.T == opaqueErrType && i.AssertedType.String() == "error")
		} else {
			ok = types.Identical(x.T, i.AssertedType)
		}
	}
	var r Value
	if ok {
		if _, isI := i.AssertedType.Underlying().(*types.Interface); isI {
			r = x
		} else {
			r = x.V
		}
	} else {
		if !i.CommaOk {
			m.goPanic("interface conversion")
		}
		r = m.zero(i.AssertedType)
	}
	if i.CommaOk {
		return Tuple{r, m.C.Bool(ok)}
	}
	return r
}

func (m *Machine) prepCall(fr *frame, cc *ssa.CallCommon) (func([]Value) Value, []Value) {
	var args []Value
	if cc.IsInvoke() {
		recv := m.get(fr, cc.Value).(Iface)
		if recv.T == nil {
			m.goPanic("nil interface method call")
		}
		for _, a := range cc.Args {
			args = append(args, m.get(fr, a))
		}
		if recv.T == opaqueErrType {
			return func([]Value) Value { return Str("opaque error") }, nil
		}
		fn := m.E.Prog.LookupMethod(recv.T, cc.Method.Pkg(), cc.Method.Name())
		if fn == nil {
			fail("no method %s on %v", cc.Method.Name(), recv.T)
		}
		full := append([]Value{recv.V}, args...)
		return func(a []Value) Value { return m.Call(fn, a, nil) }, full
	}
	for _, a := range cc.Args {
		args = append(args, m.get(fr, a))
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		return func(a []Value) Value { return m.builtin(f, cc, a) }, args
	case *ssa.Function:
		return func(a []Value) Value { return m.Call(f, a, nil) }, args
	}
	fv := m.get(fr, cc.Value)
	cl, ok := fv.(*Closure)
	if !ok || cl == nil {
		m.goPanic("call of nil function")
	}
	return func(a []Value) Value { return m.Call(cl.Fn, a, cl.Bind) }, args
}

func (m *Machine) memmove(dst, src Ptr, n int64) {
	if n == 0 {
		return
	}
	dst, src = m.fixPtr(dst), m.fixPtr(src)
	m.checkRange(dst, n)
	m.checkRange(src, n)
	tmp := append([]Cell(nil), m.cells(src.Obj, false)[src.Off:src.Off+n]...)
	copy(m.cells(dst.Obj, true)[dst.Off:dst.Off+n], tmp)
}

func (m *Machine) builtin(f *ssa.Builtin, cc *ssa.CallCommon, args []Value) Value {
	switch f.Name() {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return m.C.Const(uint64(x.Len), 64)
		case Str:
			return m.C.Const(uint64(len(x)), 64)
		case Agg:
			return m.C.Const(uint64(cc.Args[0].Type().Underlying().(*types.Array).Len()), 64)
		case Ptr:
			return m.C.Const(uint64(cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()), 64)
		case mapRef:
			if x.M == nil {
				return m.C.Const(0, 64)
			}
			return m.C.Const(uint64(len(m.mapObj(x.M).M)), 64)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return m.C.Const(uint64(x.Cap), 64)
		case Agg:
			return m.C.Const(uint64(cc.Args[0].Type().Underlying().(*types.Array).Len()), 64)
		case Ptr:
			return m.C.Const(uint64(cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()), 64)
		}
	case "copy":
		d := args[0].(Slice)
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		sz := m.sizeof(et)
		switch s := args[1].(type) {
		case Slice:
			n := d.Len
			if s.Len < n {
				n = s.Len
			}
			m.memmove(d.P, s.P, n*sz)
			return m.C.Const(uint64(n), 64)
		case Str:
			n := d.Len
			if int64(len(s)) < n {
				n = int64(len(s))
			}
			for i := int64(0); i < n; i++ {
				p := d.P
				p.Off += i
				m.Store(p, m.C.Const(uint64(s[i]), 8), types.Typ[types.Uint8])
			}
			return m.C.Const(uint64(n), 64)
		}
	case "append":
		d := args[0].(Slice)
		st := cc.Args[0].Type().Underlying().(*types.Slice)
		sz := m.sizeof(st.Elem())
		var s Slice
		switch y := args[1].(type) {
		case Slice:
			s = y
		case Str:
			o := m.newObj(int64(len(y)), "str")
			for i := 0; i < len(y); i++ {
				o.Cells[i] = Cell{T: m.C.Const(uint64(y[i]), 8)}
			}
			s = Slice{P: Ptr{Obj: o}, Len: int64(len(y)), Cap: int64(len(y))}
		}
		if s.Len == 0 {
			return d
		}
		if d.Len+s.Len <= d.Cap {
			p := d.P
			p.Off += d.Len * sz
			m.memmove(p, s.P, s.Len*sz)
			d.Len += s.Len
			return d
		}
		nc := growCap(d.Cap, d.Len+s.Len, sz)
		o := m.newObj(nc*sz, "append")
		m.memmove(Ptr{Obj: o}, d.P, d.Len*sz)
		m.memmove(Ptr{Obj: o, Off: d.Len * sz}, s.P, s.Len*sz)
		return Slice{P: Ptr{Obj: o}, Len: d.Len + s.Len, Cap: nc}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0].(*term.Term)
		sg := isSigned(cc.Args[0].Type())
		for _, a := range args[1:] {
			b := a.(*term.Term)
			var lt *term.Term
			if sg {
				lt = m.C.Slt(b, r)
			} else {
				lt = m.C.Ult(b, r)
			}
			if f.Name() == "max" {
				if sg {
					lt = m.C.Slt(r, b)
				} else {
					lt = m.C.Ult(r, b)
				}
			}
			r = m.C.Ite(lt, b, r)
		}
		return r
	case "clear":
		if s, ok := args[0].(Slice); ok {
			sz := m.sizeof(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
			if s.Len > 0 {
				cs := m.cells(s.P.Obj, true)[s.P.Off : s.P.Off+s.Len*sz]
				for i := range cs {
					cs[i] = Cell{}
				}
			}
			return nil
		}
	case "delete":
		mr := args[0].(mapRef)
		if mr.M != nil {
			fail("map delete")
		}
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.Obj == nil {
			m.goPanic("nil receiver")
		}
		return args[0]
	case "recover":
		return Iface{}
	case "String": // unsafe.String
	case "StringData":
	case "SliceData":
		return args[0].(Slice).P
	case "Slice":
		n := int64(m.Concretize(args[1].(*term.Term)))
		return Slice{P: args[0].(Ptr), Len: n, Cap: n}
	case "Add":
		p := args[0].(Ptr)
		p.Off += int64(m.Concretize(args[1].(*term.Term)))
		return p
	}
	fail("builtin %s", f.Name())
	return nil
}

// growCap mimics the runtime size classes closely enough that capacity-dependent
// behaviour is exercised (exact classes are not part of any claim).
func growCap(old, need, sz int64) int64 {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	if sz == 1 {
		nc = (nc + 7) &^ 7
	}
	return nc
}

func (m *Machine) ptrInt(v Value) (*term.Term, bool) {
	switch x := v.(type) {
	case *term.Term:
		return x, true
	case Ptr:
		if x.Obj == nil {
			return m.C.Const(0, 64), true
		}
		x = m.fixPtr(x)
		return m.C.Const(x.Obj.Base+uint64(x.Off), 64), true
	}
	return nil, false
}

func (m *Machine) binop(op token.Token, x, y Value, xt, yt types.Type) Value {
	c := m.C
	a, aok := x.(*term.Term)
	b, bok := y.(*term.Term)
	if aok && bok {
		sg := isSigned(xt)
		switch op {
		case token.ADD:
			return c.Add(a, b)
		case token.SUB:
			return c.Sub(a, b)
		case token.MUL:
			return c.Mul(a, b)
		case token.QUO, token.REM:
			if b.IsConst() {
				if b.K == 0 {
					m.goPanic("integer divide by zero")
				}
			} else if m.Decide(c.Eq(b, c.Const(0, b.W))) {
				m.goPanic("integer divide by zero")
			}
			m.ctDiv(a, b)
			switch {
			case op == token.QUO && sg:
				return c.SDiv(a, b)
			case op == token.QUO:
				return c.UDiv(a, b)
			case sg:
				return c.SRem(a, b)
			default:
				return c.URem(a, b)
			}
		case token.AND:
			return c.And(a, b)
		case token.OR:
			return c.Or(a, b)
		case token.XOR:
			return c.Xor(a, b)
		case token.AND_NOT:
			return c.And(a, c.Not(b))
		case token.SHL, token.SHR:
			n := b
			if isSigned(yt) && !b.IsConst() {
				if m.Decide(c.Slt(b, c.Const(0, b.W))) {
					m.goPanic("negative shift amount")
				}
			} else if isSigned(yt) && b.IsConst() && b.K>>(b.W-1) == 1 {
				m.goPanic("negative shift amount")
			}
			if op == token.SHL {
				return c.Shl(a, n)
			}
			if sg {
				return c.Ashr(a, n)
			}
			return c.Lshr(a, n)
		case token.EQL:
			return c.Eq(a, b)
		case token.NEQ:
			return c.Not(c.Eq(a, b))
		case token.LSS:
			if sg {
				return c.Slt(a, b)
			}
			return c.Ult(a, b)
		case token.GTR:
			if sg {
				return c.Slt(b, a)
			}
			return c.Ult(b, a)
		case token.LEQ:
			if sg {
				return c.Sle(a, b)
			}
			return c.Ule(a, b)
		case token.GEQ:
			if sg {
				return c.Sle(b, a)
			}
			return c.Ule(b, a)
		}
		fail("binop %v", op)
	}
	switch op {
	case token.EQL, token.NEQ:
		r := m.equal(x, y, xt)
		if op == token.NEQ {
			r = c.Not(r)
		}
		return r
	}
	if s, ok := x.(Str); ok {
		t := y.(Str)
		switch op {
		case token.ADD:
			return s + t
		case token.LSS:
			return c.Bool(s < t)
		case token.GTR:
			return c.Bool(s > t)
		case token.LEQ:
			return c.Bool(s <= t)
		case token.GEQ:
			return c.Bool(s >= t)
		}
	}
	// pointer integers (uintptr)
	if p, ok := x.(Ptr); ok && (op == token.ADD || op == token.SUB) && bok && b.IsConst() && p.Sym == nil {
		if op == token.ADD {
			p.Off += int64(b.K)
		} else {
			p.Off -= int64(b.K)
		}
		return p
	}
	ai, o1 := m.ptrInt(x)
	bi, o2 := m.ptrInt(y)
	if o1 && o2 {
		return m.binop(op, ai, bi, types.Typ[types.Uint64], types.Typ[types.Uint64])
	}
	fail("binop %v on %T %T", op, x, y)
	return nil
}

func (m *Machine) equal(x, y Value, t types.Type) *term.Term {
	c := m.C
	switch a := x.(type) {
	case *term.Term:
		if b, ok := y.(*term.Term); ok {
			return c.Eq(a, b)
		}
		if p, ok := m.ptrInt(y); ok {
			return c.Eq(a, p)
		}
	case Ptr:
		if b, ok := y.(Ptr); ok {
			if a.Obj == nil || b.Obj == nil {
				return c.Bool(a.Obj == b.Obj)
			}
			if a.Obj != b.Obj {
				return c.Bool(false)
			}
			a, b = m.fixPtr(a), m.fixPtr(b)
			return c.Bool(a.Off == b.Off)
		}
		if b, ok := y.(*term.Term); ok {
			p, _ := m.ptrInt(x)
			return c.Eq(p, b)
		}
	case Slice: // comparison with nil
		return c.Bool(a.P.Obj == nil)
	case Str:
		return c.Bool(a == y.(Str))
	case mapRef:
		return c.Bool(a.M == nil)
	case *Closure:
		return c.Bool(a == nil)
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			fail("iface compare %T", y)
		}
		if a.T == nil || b.T == nil {
			return c.Bool(a.T == nil && b.T == nil)
		}
		if !types.Identical(a.T, b.T) {
			return c.Bool(false)
		}
		return m.equal(a.V, b.V, a.T)
	case Agg:
		b := y.(Agg)
		return m.aggEqual(a, b, t)
	case nil:
		return c.Bool(y == nil)
	}
	fail("equal %T %T", x, y)
	return nil
}

func (m *Machine) aggEqual(a, b Agg, t types.Type) *term.Term {
	c := m.C
	switch u := t.Underlying().(type) {
	case *types.Array:
		r := c.Bool(true)
		sz := m.sizeof(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			x := m.loadCells(a.Cells[i*sz:(i+1)*sz], u.Elem())
			y := m.loadCells(b.Cells[i*sz:(i+1)*sz], u.Elem())
			r = c.And(r, m.equal(x, y, u.Elem()))
		}
		return r
	case *types.Struct:
		r := c.Bool(true)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			o, sz := m.E.fieldOff(u, i), m.sizeof(ft)
			if sz == 0 {
				continue
			}
			x := m.loadCells(a.Cells[o:o+sz], ft)
			y := m.loadCells(b.Cells[o:o+sz], ft)
			r = c.And(r, m.equal(x, y, ft))
		}
		return r
	}
	fail("aggEqual %v", t)
	return nil
}

func (m *Machine) convert(x Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if t, ok := x.(*term.Term); ok {
		w := typeW(to)
		if w > 1 {
			if w <= t.W {
				return m.C.Extract(t, 0, w)
			}
			if isSigned(from) {
				return m.C.SExt(t, w)
			}
			return m.C.ZExt(t, w)
		}
		if b, ok := tu.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return Str(string(rune(m.Concretize(t))))
		}
		if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer && t.IsZero() {
			return Ptr{}
		}
		fail("convert %v -> %v", from, to)
	}
	switch v := x.(type) {
	case Ptr:
		return v // pointer <-> unsafe.Pointer <-> uintptr
	case Str:
		if s, ok := tu.(*types.Slice); ok {
			if typeW(s.Elem()) == 8 {
				o := m.newObj(int64(len(v)), "bytes")
				for i := 0; i < len(v); i++ {
					o.Cells[i] = Cell{T: m.C.Const(uint64(v[i]), 8)}
				}
				return Slice{P: Ptr{Obj: o}, Len: int64(len(v)), Cap: int64(len(v))}
			}
		}
		return v
	case Slice:
		if b, ok := tu.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			bs := make([]byte, v.Len)
			for i := range bs {
				p := v.P
				p.Off += int64(i)
				t := m.Load(p, types.Typ[types.Uint8]).(*term.Term)
				if !t.IsConst() {
					fail("symbolic string")
				}
				bs[i] = byte(t.K)
			}
			return Str(bs)
		}
		return v
	}
	_ = fu
	return x
}

// ---- helpers for the checks ----

func (m *Machine) SliceBytes(s Slice) []*term.Term {
	r := make([]*term.Term, s.Len)
	for i := range r {
		p := s.P
		p.Off += int64(i)
		r[i] = m.Load(p, types.Typ[types.Uint8]).(*term.Term)
	}
	return r
}

func (m *Machine) SliceWords(s Slice) []*term.Term {
	r := make([]*term.Term, s.Len)
	for i := range r {
		p := s.P
		p.Off += int64(8 * i)
		r[i] = m.Load(p, types.Typ[types.Uint64]).(*term.Term)
	}
	return r
}

func (m *Machine) BytesSlice(ts []*term.Term) Slice {
	o := m.newObj(int64(len(ts)), "bytes")
	for i, t := range ts {
		o.Cells[i] = Cell{T: t}
	}
	return Slice{P: Ptr{Obj: o}, Len: int64(len(ts)), Cap: int64(len(ts))}
}

func (m *Machine) WordsSlice(ts []*term.Term) Slice {
	o := m.newObj(int64(8*len(ts)), "words")
	for i, t := range ts {
		for k := 0; k < 8; k++ {
			o.Cells[8*i+k] = Cell{T: t, I: uint8(k)}
		}
	}
	return Slice{P: Ptr{Obj: o}, Len: int64(len(ts)), Cap: int64(len(ts))}
}

func (m *Machine) fresh(name string, w uint8) *term.Term {
	k := m.varSeq[name]
	m.varSeq[name] = k + 1
	full := fmt.Sprintf("%s#%d", name, k)
	t := m.C.Var(full, w)
	m.Inputs = append(m.Inputs, Input{Name: full, T: t})
	return t
}

func sortedKeys(mm map[string]bool) []string {
	var r []string
	for k := range mm {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var debug = os.Getenv("VERIF_DEBUG") != ""
