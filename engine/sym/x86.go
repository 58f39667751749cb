package sym

import (
	"debug/elf"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"

	"verifengine/term"
)

// Symbolic execution of amd64 machine code: the assembly functions of a package
// are taken from a binary built from the current sources and executed
// instruction by instruction.

// X86Image is a built binary.
type X86Image struct {
	path  string
	syms  []x86sym
	byN   map[string]x86sym
	file  *elf.File
	mu    sync.Mutex
	funcs map[uint64]*x86func
	err   error
}

type x86sym struct {
	name string
	addr uint64
	size uint64
	sec  elf.SectionIndex
}

type x86func struct {
	sym  x86sym
	ins  []x86ins
	byAd map[uint64]int
}

type x86op struct {
	kind  byte // r x m i s(fs segment)
	reg   int
	w     uint8 // bits
	imm   uint64
	base  int
	index int
	scale uint64
	abs   uint64 // rip relative address
	rip   bool
}

type x86ins struct {
	addr uint64
	next uint64
	mn   string
	ops  []x86op
	text string
}

var x86mu sync.Mutex
var x86images = map[string]*X86Image{}

// x86Image builds (once) the test binary of the package with all assembly
// functions referenced.
func (e *Engine) x86Image(pkg *ssa.Package) (*X86Image, error) {
	key := e.Cfg.Repo + "|" + pkg.Pkg.Path()
	x86mu.Lock()
	defer x86mu.Unlock()
	if im, ok := x86images[key]; ok {
		return im, im.err
	}
	im := &X86Image{funcs: map[uint64]*x86func{}, byN: map[string]x86sym{}}
	x86images[key] = im
	im.err = im.build(e, pkg)
	return im, im.err
}

func (im *X86Image) build(e *Engine, pkg *ssa.Package) error {
	var names []string
	dir := ""
	for n, mb := range pkg.Members {
		f, ok := mb.(*ssa.Function)
		if !ok {
			continue
		}
		pos := e.Prog.Fset.Position(f.Pos())
		if f.Blocks == nil && f.Pos().IsValid() {
			dir = filepath.Dir(pos.Filename)
			names = append(names, n)
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		return fmt.Errorf("no assembly functions in %s", pkg.Pkg.Path())
	}
	sc, err := os.MkdirTemp(e.Cfg.Scratch, "x86")
	if err != nil {
		return err
	}
	src := "package " + pkg.Pkg.Name() + "\n\nvar vAsmRefs = []interface{}{" + strings.Join(names, ", ") + "}\n\nfunc init() { if len(vAsmRefs) == 0 { panic(vAsmRefs) } }\n"
	rf := filepath.Join(sc, "refs.go")
	if err := os.WriteFile(rf, []byte(src), 0o644); err != nil {
		return err
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": map[string]string{filepath.Join(dir, "zz_verif_refs_test.go"): rf}})
	of := filepath.Join(sc, "overlay.json")
	os.WriteFile(of, ov, 0o644)
	work, err := WorkFile(e.Cfg.Repo, sc)
	if err != nil {
		return err
	}
	im.path = filepath.Join(sc, "image")
	env := append(GoEnv(), "GOWORK="+work, "GOARCH=amd64", "CGO_ENABLED=0")
	out, err := RunCmd(dir, env, 240*time.Second, "go", "test", "-c", "-vet=off", "-overlay="+of, "-o", im.path, ".")
	if err != nil {
		return fmt.Errorf("building %s: %v %s", pkg.Pkg.Path(), err, out)
	}
	f, err := elf.Open(im.path)
	if err != nil {
		return err
	}
	im.file = f
	ss, err := f.Symbols()
	if err != nil {
		return err
	}
	for _, s := range ss {
		x := x86sym{s.Name, s.Value, s.Size, s.Section}
		im.syms = append(im.syms, x)
		im.byN[s.Name] = x
	}
	sort.Slice(im.syms, func(i, j int) bool { return im.syms[i].addr < im.syms[j].addr })
	return nil
}

func (im *X86Image) symAt(a uint64) (x86sym, bool) {
	i := sort.Search(len(im.syms), func(i int) bool { return im.syms[i].addr > a })
	for i--; i >= 0; i-- {
		s := im.syms[i]
		if a < s.addr+s.size || a == s.addr {
			return s, true
		}
		if s.size > 0 {
			break
		}
	}
	return x86sym{}, false
}

// data reads initialised bytes.
func (im *X86Image) data(a, n uint64) ([]byte, bool) {
	for _, s := range im.file.Sections {
		if a >= s.Addr && a+n <= s.Addr+s.Size && s.Addr != 0 {
			if s.Type == elf.SHT_NOBITS {
				return make([]byte, n), true
			}
			b := make([]byte, n)
			if _, err := s.ReadAt(b, int64(a-s.Addr)); err != nil {
				return nil, false
			}
			return b, true
		}
	}
	return nil, false
}

var reIns = regexp.MustCompile(`^\s*([0-9a-f]+):\s+(\S+)\s*(.*)$`)

func (im *X86Image) fn(addr uint64) (*x86func, error) {
	im.mu.Lock()
	defer im.mu.Unlock()
	s, ok := im.symAt(addr)
	if !ok {
		return nil, fmt.Errorf("no symbol at %x", addr)
	}
	if f, ok := im.funcs[s.addr]; ok {
		return f, nil
	}
	out, err := RunCmd("/", os.Environ(), 60*time.Second, "objdump", "-d", "--no-show-raw-insn", "-M", "intel", fmt.Sprintf("--start-address=%#x", s.addr), fmt.Sprintf("--stop-address=%#x", s.addr+s.size), im.path)
	if err != nil {
		return nil, fmt.Errorf("objdump: %v %s", err, out)
	}
	f := &x86func{sym: s, byAd: map[uint64]int{}}
	for _, l := range strings.Split(out, "\n") {
		mt := reIns.FindStringSubmatch(l)
		if mt == nil || strings.HasSuffix(strings.TrimSpace(l), ">:") {
			continue
		}
		a, err := strconv.ParseUint(mt[1], 16, 64)
		if err != nil {
			continue
		}
		in, err := parseIns(a, mt[2], mt[3])
		if err != nil {
			return nil, fmt.Errorf("%s: %v", l, err)
		}
		in.text = strings.TrimSpace(l)
		f.byAd[a] = len(f.ins)
		f.ins = append(f.ins, in)
	}
	for i := range f.ins {
		if i+1 < len(f.ins) {
			f.ins[i].next = f.ins[i+1].addr
		} else {
			f.ins[i].next = s.addr + s.size
		}
	}
	im.funcs[s.addr] = f
	return f, nil
}

var regNames = map[string]struct {
	n int
	w uint8
}{}

func init() {
	g := []string{"ax", "cx", "dx", "bx", "sp", "bp", "si", "di"}
	lo := []string{"al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil"}
	for i := range g {
		regNames["r"+g[i]] = struct {
			n int
			w uint8
		}{i, 64}
		regNames["e"+g[i]] = struct {
			n int
			w uint8
		}{i, 32}
		regNames[g[i]] = struct {
			n int
			w uint8
		}{i, 16}
		regNames[lo[i]] = struct {
			n int
			w uint8
		}{i, 8}
	}
	for i := 8; i < 16; i++ {
		for sf, w := range map[string]uint8{"": 64, "d": 32, "w": 16, "b": 8} {
			regNames[fmt.Sprintf("r%d%s", i, sf)] = struct {
				n int
				w uint8
			}{i, w}
		}
	}
}

func parseIns(a uint64, mn, rest string) (x86ins, error) {
	in := x86ins{addr: a, mn: mn}
	for mn == "rep" || mn == "repz" || mn == "repnz" || mn == "lock" || mn == "data16" || mn == "cs" || mn == "ds" {
		in.mn = mn + " " + strings.Fields(rest + " ?")[0]
		return in, nil
	}
	var ripAbs uint64
	if i := strings.Index(rest, "#"); i >= 0 {
		c := strings.Fields(rest[i+1:])
		if len(c) > 0 {
			ripAbs, _ = strconv.ParseUint(c[0], 16, 64)
		}
		rest = strings.TrimSpace(rest[:i])
	}
	if rest == "" {
		return in, nil
	}
	if mn[0] == 'j' || mn == "call" {
		t, err := strconv.ParseUint(strings.Fields(rest)[0], 16, 64)
		if err != nil {
			return in, nil // indirect: fails if executed
		}
		in.ops = []x86op{{kind: 'i', imm: t, w: 64}}
		return in, nil
	}
	if i := strings.Index(rest, " <"); i >= 0 {
		rest = rest[:i]
	}
	for _, o := range strings.Split(rest, ",") {
		op, err := parseOp(strings.TrimSpace(o), ripAbs)
		if err != nil {
			in.ops = nil
			in.mn = mn + "?" // fails if executed
			return in, nil
		}
		in.ops = append(in.ops, op)
	}
	return in, nil
}

func parseOp(o string, ripAbs uint64) (x86op, error) {
	if r, ok := regNames[o]; ok {
		return x86op{kind: 'r', reg: r.n, w: r.w}, nil
	}
	if strings.HasPrefix(o, "xmm") {
		n, err := strconv.Atoi(o[3:])
		return x86op{kind: 'x', reg: n, w: 128}, err
	}
	w := uint8(64)
	for p, b := range map[string]uint8{"BYTE PTR ": 8, "WORD PTR ": 16, "DWORD PTR ": 32, "QWORD PTR ": 64, "XMMWORD PTR ": 128} {
		if strings.HasPrefix(o, p) {
			w = b
			o = o[len(p):]
			break
		}
	}
	if strings.HasPrefix(o, "fs:") {
		return x86op{kind: 's', w: w}, nil
	}
	if strings.HasPrefix(o, "[") {
		x := x86op{kind: 'm', base: -1, index: -1, w: w}
		in := strings.Trim(o, "[]")
		in = strings.ReplaceAll(in, "-", "+-")
		for _, p := range strings.Split(in, "+") {
			p = strings.TrimSpace(p)
			if p == "" {
				continue
			}
			if p == "rip" {
				x.rip = true
				x.abs = ripAbs
				continue
			}
			if i := strings.Index(p, "*"); i > 0 {
				r, ok := regNames[p[:i]]
				s, err := strconv.Atoi(p[i+1:])
				if !ok || err != nil {
					return x, fmt.Errorf("operand %q", o)
				}
				x.index, x.scale = r.n, uint64(s)
				continue
			}
			if r, ok := regNames[p]; ok {
				if x.base < 0 {
					x.base = r.n
				} else {
					x.index, x.scale = r.n, 1
				}
				continue
			}
			neg := strings.HasPrefix(p, "-")
			v, err := strconv.ParseUint(strings.TrimPrefix(p, "-"), 0, 64)
			if err != nil {
				return x, fmt.Errorf("operand %q", o)
			}
			if neg {
				v = -v
			}
			x.imm += v
		}
		if x.rip {
			x.imm = 0
		}
		return x, nil
	}
	neg := strings.HasPrefix(o, "-")
	v, err := strconv.ParseUint(strings.TrimPrefix(o, "-"), 0, 64)
	if err != nil {
		return x86op{}, fmt.Errorf("operand %q", o)
	}
	if neg {
		v = -v
	}
	return x86op{kind: 'i', imm: v, w: 64}, nil
}

// x86cpu is the state while machine code runs.
type x86cpu struct {
	m     *Machine
	im    *X86Image
	r     [16]Value
	x     [16][2]*term.Term
	cf    *term.Term
	of    *term.Term
	zf    *term.Term
	sf    *term.Term
	stack *Object
	fn    *ssa.Function
}

const x86RetMagic = 0x7fffdeadbeef

// CPUFeatures that the modelled processor has; nil means all.
type CPUFeatures struct{ BMI2, ADX, AES bool }

func abiLayout(m *Machine, sig *types.Signature) (in, out []int64, total int64) {
	off := int64(0)
	add := func(t types.Type) int64 {
		a := m.E.Sizes.Alignof(t)
		off = (off + a - 1) / a * a
		o := off
		off += m.sizeof(t)
		return o
	}
	if sig.Recv() != nil {
		in = append(in, add(sig.Recv().Type()))
	}
	for i := 0; i < sig.Params().Len(); i++ {
		in = append(in, add(sig.Params().At(i).Type()))
	}
	off = (off + 7) / 8 * 8
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, add(sig.Results().At(i).Type()))
	}
	off = (off + 7) / 8 * 8
	return in, out, off
}

func (m *Machine) callX86(fn *ssa.Function, args []Value) Value {
	if fn.Pkg == nil || !m.E.initPkg(fn.Pkg.Pkg.Path()) {
		fail("external function %s", fn)
	}
	if m.E.Cfg.Arch != "" && m.E.Cfg.Arch != "amd64" {
		fail("assembly function %s (%s)", fn, m.E.Cfg.Arch)
	}
	im, err := m.E.x86Image(fn.Pkg)
	if err != nil {
		fail("machine code of %s: %v", fn, err)
	}
	s, ok := im.byN[fn.Pkg.Pkg.Path()+"."+fn.Name()+".abi0"]
	if !ok {
		s, ok = im.byN[fn.Pkg.Pkg.Path()+"."+fn.Name()]
	}
	if !ok {
		fail("no machine code for %s", fn)
	}
	in, out, total := abiLayout(m, fn.Signature)
	const depth = 1 << 14
	st := m.newObj(depth+8+total, "x86 stack")
	cpu := &x86cpu{m: m, im: im, stack: st, fn: fn}
	for i := range cpu.r {
		cpu.r[i] = m.fresh(fmt.Sprintf("x86_r%d", i), 64)
		if i < 16 {
			cpu.x[i] = [2]*term.Term{m.fresh(fmt.Sprintf("x86_x%dl", i), 64), m.fresh(fmt.Sprintf("x86_x%dh", i), 64)}
		}
	}
	sp := Ptr{Obj: st, Off: depth}
	cpu.r[4] = sp
	bp := cpu.r[5]
	cs := m.cells(st, true)
	m.storeCells(cs[depth:depth+8], m.C.Const(x86RetMagic, 64), nil)
	var tys []types.Type
	if fn.Signature.Recv() != nil {
		tys = append(tys, fn.Signature.Recv().Type())
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		tys = append(tys, fn.Signature.Params().At(i).Type())
	}
	for i, o := range in {
		m.x86StoreArg(Ptr{Obj: st, Off: depth + 8 + o}, args[i], tys[i])
	}
	// results are not initialised
	for i, o := range out {
		t := fn.Signature.Results().At(i).Type()
		if w := typeW(t); w > 1 {
			m.Store(Ptr{Obj: st, Off: depth + 8 + o}, m.fresh("x86_res", w), t)
		}
	}
	m.stack = append(m.stack, fn)
	m.depth++
	if m.Encoded != nil {
		m.Encoded[fn.String()+" (amd64 machine code)"] = true
	}
	cpu.run(s.addr)
	m.depth--
	m.stack = m.stack[:len(m.stack)-1]
	if p, ok := cpu.r[4].(Ptr); !ok || p.Obj != st || p.Off != depth+8 {
		fail("stack pointer not restored by %s", fn)
	}
	if cpu.r[5] != bp {
		// Go code calls assembly through a wrapper that saves the frame pointer
		m.Notes[fn.Name()+" does not preserve BP"] = true
	}
	res := fn.Signature.Results()
	var vs Tuple
	for i, o := range out {
		vs = append(vs, m.Load(Ptr{Obj: st, Off: depth + 8 + o}, res.At(i).Type()))
	}
	switch len(vs) {
	case 0:
		return nil
	case 1:
		return vs[0]
	}
	return vs
}

func (m *Machine) x86StoreArg(p Ptr, v Value, t types.Type) {
	if s, ok := v.(Slice); ok {
		cs := m.cells(p.Obj, true)
		var pv Value = s.P
		if s.P.Obj == nil {
			pv = m.C.Const(0, 64)
		}
		m.storeCells(cs[p.Off:p.Off+8], pv, nil)
		m.storeCells(cs[p.Off+8:p.Off+16], m.C.Const(uint64(s.Len), 64), nil)
		m.storeCells(cs[p.Off+16:p.Off+24], m.C.Const(uint64(s.Cap), 64), nil)
		return
	}
	m.Store(p, v, t)
}

func (c *x86cpu) bad(in *x86ins, f string, a ...interface{}) {
	fail("x86: %s: %s", in.text, fmt.Sprintf(f, a...))
}

func (c *x86cpu) run(addr uint64) {
	m := c.m
	for {
		f, err := c.im.fn(addr)
		if err != nil {
			fail("x86: %v", err)
		}
		i, ok := f.byAd[addr]
		if !ok {
			fail("x86: jump into the middle of an instruction at %x", addr)
		}
		jumped := false
		for !jumped {
			if i >= len(f.ins) {
				fail("x86: ran off the end of %s", f.sym.name)
			}
			in := &f.ins[i]
			m.steps++
			if m.steps > maxSteps {
				fail("step limit")
			}
			if m.steps&0xfff == 0 && !m.opts.Deadline.IsZero() && time.Now().After(m.opts.Deadline) {
				fail("deadline")
			}
			nx, jump := c.step(in)
			if !jump {
				i++
				continue
			}
			if nx == x86RetMagic {
				return
			}
			if k, ok := f.byAd[nx]; ok {
				i = k
				continue
			}
			addr = nx
			jumped = true
		}
	}
}

func (c *x86cpu) num(v Value) *term.Term {
	switch x := v.(type) {
	case *term.Term:
		return x
	case Ptr:
		if x.Obj == nil {
			return c.m.C.Const(0, 64)
		}
		if x.Sym == nil {
			return c.m.C.Const(x.Obj.Base+uint64(x.Off), 64)
		}
	}
	fail("x86: numeric use of %T", v)
	return nil
}

// mem returns the pointer of a memory operand.
func (c *x86cpu) mem(in *x86ins, o x86op) Ptr {
	m := c.m
	if o.rip {
		return c.global(in, o.abs)
	}
	if o.base < 0 {
		c.bad(in, "absolute address")
	}
	off := o.imm
	var sym *term.Term
	if o.index >= 0 {
		ix := c.r[o.index]
		if p, ok := ix.(Ptr); ok && o.scale == 1 {
			if b, ok := c.r[o.base].(*term.Term); ok && b.IsConst() {
				p.Off += int64(b.K + off)
				return p
			}
		}
		t := c.num(ix)
		if t.IsConst() {
			off += t.K * o.scale
		} else {
			sym = t
		}
	}
	p, ok := c.r[o.base].(Ptr)
	if !ok {
		c.bad(in, "address is not a pointer")
	}
	p.Off += int64(off)
	if sym != nil {
		m.ctAddr(sym)
		p.Off += int64(m.Concretize(sym) * o.scale)
	}
	return p
}

func (c *x86cpu) global(in *x86ins, a uint64) Ptr {
	m := c.m
	s, ok := c.im.symAt(a)
	if !ok {
		c.bad(in, "no symbol at %x", a)
	}
	if i := strings.LastIndex(s.name, "."); i > 0 {
		for _, p := range m.E.Prog.AllPackages() {
			if p.Pkg.Path() == s.name[:i] {
				if g := p.Var(s.name[i+1:]); g != nil {
					return Ptr{Obj: m.globalObj(g), Off: int64(a - s.addr)}
				}
			}
		}
	}
	// data of the assembler file
	key := fmt.Sprintf("x86data %x", s.addr)
	if o, ok := m.extra[key].(*Object); ok {
		return Ptr{Obj: o, Off: int64(a - s.addr)}
	}
	n := s.size
	if n == 0 {
		c.bad(in, "symbol %s has no size", s.name)
	}
	b, ok := c.im.data(s.addr, n)
	if !ok {
		c.bad(in, "no data for %s", s.name)
	}
	o := m.newObj(int64(n), s.name)
	for i := range b {
		o.Cells[i] = Cell{T: m.C.Const(uint64(b[i]), 8)}
	}
	o.Kind = "ro"
	m.extra[key] = o
	return Ptr{Obj: o, Off: int64(a - s.addr)}
}

func (c *x86cpu) loadMem(p Ptr, w uint8) Value {
	m := c.m
	m.checkRange(p, int64(w/8))
	cs := m.cells(p.Obj, false)[p.Off : p.Off+int64(w/8)]
	if w == 64 && cs[0].V != nil && cs[0].I == 0 {
		if q, ok := cs[0].V.(Ptr); ok && cs[0].N == 8 {
			whole := true
			for i := range cs {
				if cs[i].V == nil || int(cs[i].I) != i {
					whole = false
				}
			}
			if whole {
				return q
			}
		}
	}
	return m.loadBits(cs)
}

func (c *x86cpu) storeMem(p Ptr, v Value, w uint8) {
	m := c.m
	m.checkRange(p, int64(w/8))
	if p.Obj.Kind == "ro" {
		fail("x86: store to read-only data")
	}
	cs := m.cells(p.Obj, true)[p.Off : p.Off+int64(w/8)]
	m.storeCells(cs, v, nil)
}

// get returns the value of an integer operand, zero/sign handling by the caller.
func (c *x86cpu) get(in *x86ins, o x86op) Value {
	m := c.m
	switch o.kind {
	case 'r':
		v := c.r[o.reg]
		if o.w == 64 {
			return v
		}
		return m.C.Extract(c.num(v), 0, o.w)
	case 'm':
		return c.loadMem(c.mem(in, o), o.w)
	case 's':
		// g: an object whose stack guard is below every stack pointer
		if g, ok := m.extra["x86g"].(*Object); ok {
			return Ptr{Obj: g}
		}
		g := m.newObj(64, "g")
		for i := range g.Cells {
			g.Cells[i] = Cell{}
		}
		m.extra["x86g"] = g
		return Ptr{Obj: g}
	}
	c.bad(in, "operand")
	return nil
}

func (c *x86cpu) val(in *x86ins, o x86op, w uint8) *term.Term {
	if o.kind == 'i' {
		return c.m.C.Const(o.imm, w)
	}
	return c.num(c.get(in, o))
}

func (c *x86cpu) set(in *x86ins, o x86op, v Value) {
	m := c.m
	switch o.kind {
	case 'r':
		switch o.w {
		case 64:
			if t, ok := v.(*term.Term); ok && t.W != 64 {
				c.bad(in, "width")
			}
			c.r[o.reg] = v
		case 32:
			c.r[o.reg] = m.C.ZExt(v.(*term.Term), 64)
		default:
			t := c.num(c.r[o.reg])
			c.r[o.reg] = m.C.Concat(m.C.Extract(t, o.w, 64-o.w), v.(*term.Term))
		}
	case 'm':
		c.storeMem(c.mem(in, o), v, o.w)
	default:
		c.bad(in, "destination")
	}
}

func (c *x86cpu) getX(in *x86ins, o x86op) [2]*term.Term {
	if o.kind == 'x' {
		return c.x[o.reg]
	}
	p := c.mem(in, o)
	lo := c.num(c.loadMem(p, 64))
	p.Off += 8
	return [2]*term.Term{lo, c.num(c.loadMem(p, 64))}
}

func (c *x86cpu) setX(in *x86ins, o x86op, v [2]*term.Term) {
	if o.kind == 'x' {
		c.x[o.reg] = v
		return
	}
	p := c.mem(in, o)
	c.storeMem(p, v[0], 64)
	p.Off += 8
	c.storeMem(p, v[1], 64)
}

func (c *x86cpu) szf(r *term.Term) {
	c.zf = c.m.C.Eq(r, c.m.C.Const(0, r.W))
	c.sf = c.m.C.Extract(r, r.W-1, 1)
}

func (c *x86cpu) flag(in *x86ins, f *term.Term) *term.Term {
	if f == nil {
		c.bad(in, "undefined flag used")
	}
	return f
}

func (c *x86cpu) need(in *x86ins, what string, has bool) {
	if !has {
		c.m.Assert(c.m.C.Bool(false), fmt.Sprintf("%s instruction only on processors that have it (%s)", what, in.text))
	}
}

func (c *x86cpu) features() CPUFeatures {
	if f, ok := c.m.extra["cpu"].(CPUFeatures); ok {
		return f
	}
	return CPUFeatures{true, true, true}
}

func (c *x86cpu) push(v Value) {
	p := c.r[4].(Ptr)
	p.Off -= 8
	c.r[4] = p
	c.storeMem(p, v, 64)
}

func (c *x86cpu) pop() Value {
	p := c.r[4].(Ptr)
	v := c.loadMem(p, 64)
	p.Off += 8
	c.r[4] = p
	return v
}

// step executes one instruction.
func (c *x86cpu) step(in *x86ins) (uint64, bool) {
	m := c.m
	C := m.C
	o := in.ops
	wid := func() uint8 {
		for _, x := range o {
			if x.kind == 'r' || x.kind == 'm' {
				return x.w
			}
		}
		return 64
	}
	one := func() *term.Term { return C.Bool(true) }
	zero := func() *term.Term { return C.Bool(false) }
	switch in.mn {
	case "nop", "nopw", "nopl", "xchg":
		if in.mn == "xchg" && (len(o) != 2 || o[0] != o[1]) {
			c.bad(in, "unsupported")
		}
	case "mov", "movabs":
		if o[1].kind == 'i' {
			c.set(in, o[0], C.Const(o[1].imm, o[0].w))
		} else {
			if o[1].kind == 'm' && o[0].kind == 'r' && o[1].w != o[0].w {
				c.bad(in, "width")
			}
			c.set(in, o[0], c.get(in, o[1]))
		}
	case "movzx":
		c.set(in, o[0], C.ZExt(c.val(in, o[1], o[1].w), o[0].w))
	case "movsx", "movsxd":
		c.set(in, o[0], C.SExt(c.val(in, o[1], o[1].w), o[0].w))
	case "lea":
		if o[1].rip {
			c.set(in, o[0], c.global(in, o[1].abs))
			break
		}
		if o[1].base >= 0 {
			if _, ok := c.r[o[1].base].(Ptr); ok && o[1].index < 0 {
				c.set(in, o[0], c.mem(in, o[1]))
				break
			}
		}
		s := C.Const(o[1].imm, 64)
		if o[1].base >= 0 {
			s = C.Add(s, c.num(c.r[o[1].base]))
		}
		if o[1].index >= 0 {
			s = C.Add(s, C.Mul(c.num(c.r[o[1].index]), C.Const(o[1].scale, 64)))
		}
		c.set(in, o[0], C.Extract(s, 0, o[0].w))
	case "add", "sub":
		if p, ok := c.r[o[0].reg].(Ptr); ok && o[0].kind == 'r' && o[0].w == 64 {
			v := c.val(in, o[1], 64)
			if !v.IsConst() {
				c.bad(in, "symbolic pointer offset")
			}
			if in.mn == "add" {
				p.Off += int64(v.K)
			} else {
				p.Off -= int64(v.K)
			}
			c.r[o[0].reg] = p
			c.cf, c.of, c.zf, c.sf = nil, nil, nil, nil
			break
		}
		w := o[0].w
		a, b := c.val(in, o[0], w), c.val(in, o[1], w)
		c.addsub(in, o[0], a, b, zero(), in.mn == "sub", true)
	case "adc":
		w := o[0].w
		c.addsub(in, o[0], c.val(in, o[0], w), c.val(in, o[1], w), c.flag(in, c.cf), false, true)
	case "sbb":
		w := o[0].w
		c.addsub(in, o[0], c.val(in, o[0], w), c.val(in, o[1], w), c.flag(in, c.cf), true, true)
	case "cmp":
		w := wid()
		c.addsub(in, o[0], c.val(in, o[0], w), c.val(in, o[1], w), zero(), true, false)
	case "neg":
		w := o[0].w
		a := c.val(in, o[0], w)
		c.addsub(in, o[0], C.Const(0, w), a, zero(), true, true)
	case "inc", "dec":
		if p, ok := c.r[o[0].reg].(Ptr); ok && o[0].kind == 'r' {
			_ = p
			c.bad(in, "pointer increment")
		}
		cf := c.cf
		w := o[0].w
		c.addsub(in, o[0], c.val(in, o[0], w), C.Const(1, w), zero(), in.mn == "dec", true)
		c.cf = cf
	case "xor", "and", "or", "test":
		w := wid()
		var a, b, r *term.Term
		if in.mn == "xor" && o[0].kind == 'r' && o[1].kind == 'r' && o[0].reg == o[1].reg {
			r = C.Const(0, w)
		} else {
			a, b = c.val(in, o[0], w), c.val(in, o[1], w)
			switch in.mn {
			case "xor":
				r = C.Xor(a, b)
			case "or":
				r = C.Or(a, b)
			default:
				r = C.And(a, b)
			}
		}
		c.cf, c.of = zero(), zero()
		c.szf(r)
		if in.mn != "test" {
			c.set(in, o[0], r)
		}
	case "not":
		c.set(in, o[0], C.Not(c.val(in, o[0], o[0].w)))
	case "rol", "ror", "shl", "shr", "sar":
		n := uint64(1)
		if len(o) > 1 {
			k := c.val(in, o[1], 8)
			if !k.IsConst() {
				c.bad(in, "symbolic shift")
			}
			n = k.K
		}
		w := o[0].w
		if w == 64 {
			n &= 63
		} else {
			n &= 31
		}
		a := c.val(in, o[0], w)
		if n == 0 {
			break
		}
		var r *term.Term
		switch in.mn {
		case "rol":
			r = C.Rotl(a, uint(n)%uint(w))
		case "ror":
			r = C.Rotl(a, (uint(w)-uint(n)%uint(w))%uint(w))
		case "shl":
			r = C.ShlK(a, uint(n))
			c.cf = C.Extract(a, w-uint8(n), 1)
		case "shr":
			r = C.LshrK(a, uint(n))
			c.cf = C.Extract(a, uint8(n)-1, 1)
		case "sar":
			r = C.AshrK(a, uint(n))
			c.cf = C.Extract(a, uint8(n)-1, 1)
		}
		c.of = nil
		if in.mn == "rol" || in.mn == "ror" {
			c.cf = nil
		} else {
			c.szf(r)
		}
		c.set(in, o[0], r)
	case "shld", "shrd":
		a, b, k := c.val(in, o[0], o[0].w), c.val(in, o[1], o[0].w), c.val(in, o[2], 8)
		if !k.IsConst() || o[0].w != 64 {
			c.bad(in, "unsupported")
		}
		n := uint(k.K & 63)
		if n == 0 {
			break
		}
		var r *term.Term
		if in.mn == "shld" {
			r = C.Or(C.ShlK(a, n), C.LshrK(b, 64-n))
			c.cf = C.Extract(a, uint8(64-n), 1)
		} else {
			r = C.Or(C.LshrK(a, n), C.ShlK(b, 64-n))
			c.cf = C.Extract(a, uint8(n-1), 1)
		}
		c.of = nil
		c.szf(r)
		c.set(in, o[0], r)
	case "mul":
		if o[0].w != 64 {
			c.bad(in, "width")
		}
		a, b := c.num(c.r[0]), c.val(in, o[0], 64)
		c.r[0] = C.Mul(a, b)
		c.r[2] = C.MulHi(a, b)
		c.cf = C.Not(C.Eq(C.MulHi(a, b), C.Const(0, 64)))
		c.of, c.zf, c.sf = c.cf, nil, nil
	case "imul":
		if len(o) == 1 {
			c.bad(in, "one operand imul")
		}
		a, b := c.val(in, o[len(o)-2], o[0].w), c.val(in, o[len(o)-1], o[0].w)
		c.set(in, o[0], C.Mul(a, b))
		c.cf, c.of, c.zf, c.sf = nil, nil, nil, nil
	case "mulx":
		c.need(in, "BMI2", c.features().BMI2)
		if o[0].w != 64 {
			c.bad(in, "width")
		}
		a, b := c.num(c.r[2]), c.val(in, o[2], 64)
		lo, hi := C.Mul(a, b), C.MulHi(a, b)
		c.set(in, o[1], lo)
		c.set(in, o[0], hi)
	case "adcx", "adox":
		c.need(in, "ADX", c.features().ADX)
		a, b := c.val(in, o[0], 64), c.val(in, o[1], 64)
		f := &c.cf
		if in.mn == "adox" {
			f = &c.of
		}
		ci := c.flag(in, *f)
		c.set(in, o[0], C.Adc(a, b, ci))
		*f = C.AdcC(a, b, ci)
	case "bt":
		k := c.val(in, o[1], o[0].w)
		if !k.IsConst() {
			c.bad(in, "symbolic bit index")
		}
		if o[0].kind != 'r' {
			c.bad(in, "memory bit test")
		}
		c.cf = C.Extract(c.val(in, o[0], o[0].w), uint8(k.K)&(o[0].w-1), 1)
		c.of, c.sf = nil, nil
	case "push":
		if o[0].kind == 'i' {
			c.push(C.Const(o[0].imm, 64))
		} else {
			c.push(c.get(in, o[0]))
		}
	case "pop":
		v := c.pop()
		c.set(in, o[0], v)
	case "call":
		if len(o) == 0 {
			c.bad(in, "indirect call")
		}
		if s, ok := c.im.symAt(o[0].imm); ok && strings.HasPrefix(s.name, "runtime.") {
			c.bad(in, "call to %s", s.name)
		}
		c.push(C.Const(in.next, 64))
		return o[0].imm, true
	case "ret":
		v := c.num(c.pop())
		if !v.IsConst() {
			c.m.Assert(C.Bool(false), "return address intact")
			c.bad(in, "symbolic return address")
		}
		if v.K != x86RetMagic {
			if _, err := c.im.fn(v.K); err != nil {
				c.bad(in, "return to %x", v.K)
			}
		}
		return v.K, true
	case "jmp":
		if len(o) == 0 {
			c.bad(in, "indirect jump")
		}
		return o[0].imm, true
	case "je", "jne", "jb", "jae", "jbe", "ja", "js", "jns", "jc", "jnc", "jz", "jnz", "jl", "jge", "jle", "jg":
		cd := c.cond(in, in.mn[1:])
		m.ctBranch(cd)
		if m.Decide(cd) {
			return o[0].imm, true
		}
	case "cmove", "cmovne", "cmovb", "cmovae", "cmovbe", "cmova", "cmovs", "cmovns", "cmovc", "cmovnc", "cmovz", "cmovnz":
		cd := c.cond(in, in.mn[4:])
		c.set(in, o[0], C.Ite(cd, c.val(in, o[1], o[0].w), c.val(in, o[0], o[0].w)))
	case "sete", "setne", "setb", "setae", "setc", "setnc", "seta", "setbe":
		c.set(in, o[0], C.ZExt(c.cond(in, in.mn[3:]), 8))
	case "stc":
		c.cf = one()
	case "clc":
		c.cf = zero()
	case "cpuid":
		a, x := C.Extract(c.num(c.r[0]), 0, 32), C.Extract(c.num(c.r[1]), 0, 32)
		tab, _ := m.extra["cpuid"].([]*term.Term)
		for i, r := range []struct {
			s string
			n int
		}{{"eax", 0}, {"ebx", 3}, {"ecx", 1}, {"edx", 2}} {
			v := C.UF("cpuid_"+r.s, 32, a, x)
			if tab != nil {
				if !a.IsConst() || !x.IsConst() {
					c.bad(in, "symbolic leaf")
				}
				k := int(a.K&15)*8 + int(x.K&1)*4 + i
				if k >= len(tab) {
					c.bad(in, "leaf %x.%x", a.K, x.K)
				}
				v = tab[k]
			}
			c.r[r.n] = C.ZExt(v, 64)
		}
	// SSE
	case "movups", "movdqu", "movdqa", "movaps", "movapd", "movupd":
		c.setX(in, o[0], c.getX(in, o[1]))
	case "movq":
		switch {
		case o[0].kind == 'x' && o[1].kind == 'x':
			c.x[o[0].reg] = [2]*term.Term{c.x[o[1].reg][0], C.Const(0, 64)}
		case o[0].kind == 'x':
			c.x[o[0].reg] = [2]*term.Term{c.val(in, o[1], 64), C.Const(0, 64)}
		default:
			c.set(in, o[0], c.x[o[1].reg][0])
		}
	case "movd":
		if o[0].kind == 'x' {
			c.x[o[0].reg] = [2]*term.Term{C.ZExt(c.val(in, o[1], 32), 64), C.Const(0, 64)}
		} else {
			c.set(in, o[0], C.Extract(c.x[o[1].reg][0], 0, 32))
		}
	case "pxor", "xorps", "pand", "andps", "por", "orps", "pandn":
		a, b := c.getX(in, o[0]), c.getX(in, o[1])
		var r [2]*term.Term
		if in.mn == "pxor" || in.mn == "xorps" {
			if o[1].kind == 'x' && o[0].reg == o[1].reg {
				r = [2]*term.Term{C.Const(0, 64), C.Const(0, 64)}
				c.setX(in, o[0], r)
				break
			}
		}
		for i := range r {
			switch in.mn {
			case "pxor", "xorps":
				r[i] = C.Xor(a[i], b[i])
			case "pand", "andps":
				r[i] = C.And(a[i], b[i])
			case "pandn":
				r[i] = C.And(C.Not(a[i]), b[i])
			default:
				r[i] = C.Or(a[i], b[i])
			}
		}
		c.setX(in, o[0], r)
	case "pshufd", "shufps":
		d, s := dwords(C, c.getX(in, o[0])), dwords(C, c.getX(in, o[1]))
		k := o[2].imm
		var r [4]*term.Term
		for i := range r {
			x := s[k>>(2*uint(i))&3]
			if in.mn == "shufps" && i < 2 {
				x = d[k>>(2*uint(i))&3]
			}
			r[i] = x
		}
		c.setX(in, o[0], [2]*term.Term{C.Concat(r[1], r[0]), C.Concat(r[3], r[2])})
	case "pslldq", "psrldq":
		b := xbytes(C, c.x[o[0].reg])
		n := int(o[1].imm)
		var r [16]*term.Term
		for i := range r {
			j := i - n
			if in.mn == "psrldq" {
				j = i + n
			}
			if j >= 0 && j < 16 {
				r[i] = b[j]
			} else {
				r[i] = C.Const(0, 8)
			}
		}
		c.x[o[0].reg] = fromBytes(C, r)
	case "pshufb":
		b := xbytes(C, c.x[o[0].reg])
		k := xbytes(C, c.getX(in, o[1]))
		var r [16]*term.Term
		for i := range r {
			if !k[i].IsConst() {
				c.bad(in, "symbolic shuffle")
			}
			if k[i].K&0x80 != 0 {
				r[i] = C.Const(0, 8)
			} else {
				r[i] = b[k[i].K&15]
			}
		}
		c.x[o[0].reg] = fromBytes(C, r)
	case "paddd", "paddq":
		a, b := c.getX(in, o[0]), c.getX(in, o[1])
		if in.mn == "paddq" {
			c.setX(in, o[0], [2]*term.Term{C.Add(a[0], b[0]), C.Add(a[1], b[1])})
			break
		}
		x, y := dwords(C, a), dwords(C, b)
		c.setX(in, o[0], [2]*term.Term{C.Concat(C.Add(x[1], y[1]), C.Add(x[0], y[0])), C.Concat(C.Add(x[3], y[3]), C.Add(x[2], y[2]))})
	case "aesenc", "aesenclast", "aesdec", "aesdeclast":
		c.need(in, "AES", c.features().AES)
		st := xbytes(C, c.x[o[0].reg])
		key := c.getX(in, o[1])
		dec := strings.HasPrefix(in.mn, "aesdec")
		var r [16]*term.Term
		for col := 0; col < 4; col++ {
			for row := 0; row < 4; row++ {
				src := (col + row) & 3
				if dec {
					src = (col - row) & 3
				}
				r[4*col+row] = m.aesSub(st[4*src+row], dec)
			}
		}
		if !strings.HasSuffix(in.mn, "last") {
			r = m.aesMix(r, dec)
		}
		v := fromBytes(C, r)
		c.x[o[0].reg] = [2]*term.Term{C.Xor(v[0], key[0]), C.Xor(v[1], key[1])}
	case "aesimc":
		c.need(in, "AES", c.features().AES)
		c.x[o[0].reg] = fromBytes(C, m.aesMix(xbytes(C, c.getX(in, o[1])), true))
	case "aeskeygenassist":
		c.need(in, "AES", c.features().AES)
		s := dwords(C, c.getX(in, o[1]))
		sub := func(w *term.Term) *term.Term {
			r := m.aesSub(C.Extract(w, 0, 8), false)
			for i := uint8(1); i < 4; i++ {
				r = C.Concat(m.aesSub(C.Extract(w, 8*i, 8), false), r)
			}
			return r
		}
		x1, x3 := sub(s[1]), sub(s[3])
		rc := C.Const(o[2].imm, 32)
		rot := func(w *term.Term) *term.Term { return C.Xor(C.Rotl(w, 24), rc) }
		c.x[o[0].reg] = [2]*term.Term{C.Concat(rot(x1), x1), C.Concat(rot(x3), x3)}
	default:
		c.bad(in, "unsupported instruction")
	}
	return 0, false
}

func (c *x86cpu) addsub(in *x86ins, dst x86op, a, b, ci *term.Term, sub, write bool) {
	C := c.m.C
	w := a.W
	var r *term.Term
	top := func(t *term.Term) *term.Term { return C.Extract(t, w-1, 1) }
	if sub {
		r = C.Sbb(a, b, ci)
		c.cf = C.SbbB(a, b, ci)
		c.of = C.And(C.Xor(top(a), top(b)), C.Xor(top(a), top(r)))
	} else {
		r = C.Adc(a, b, ci)
		c.cf = C.AdcC(a, b, ci)
		c.of = C.And(C.Not(C.Xor(top(a), top(b))), C.Xor(top(a), top(r)))
	}
	c.szf(r)
	if sub && ci.IsZero() {
		c.zf = C.Eq(a, b)
	}
	if write {
		c.set(in, dst, r)
	}
}

func (c *x86cpu) cond(in *x86ins, k string) *term.Term {
	C := c.m.C
	switch k {
	case "e", "z":
		return c.flag(in, c.zf)
	case "ne", "nz":
		return C.Not(c.flag(in, c.zf))
	case "b", "c":
		return c.flag(in, c.cf)
	case "ae", "nc":
		return C.Not(c.flag(in, c.cf))
	case "be":
		return C.Or(c.flag(in, c.cf), c.flag(in, c.zf))
	case "a":
		return C.Not(C.Or(c.flag(in, c.cf), c.flag(in, c.zf)))
	case "s":
		return c.flag(in, c.sf)
	case "ns":
		return C.Not(c.flag(in, c.sf))
	case "l":
		return C.Xor(c.flag(in, c.sf), c.flag(in, c.of))
	case "ge":
		return C.Not(C.Xor(c.flag(in, c.sf), c.flag(in, c.of)))
	case "le":
		return C.Or(c.flag(in, c.zf), C.Xor(c.flag(in, c.sf), c.flag(in, c.of)))
	case "g":
		return C.Not(C.Or(c.flag(in, c.zf), C.Xor(c.flag(in, c.sf), c.flag(in, c.of))))
	}
	c.bad(in, "condition")
	return nil
}

func dwords(C *term.Ctx, x [2]*term.Term) [4]*term.Term {
	return [4]*term.Term{C.Extract(x[0], 0, 32), C.Extract(x[0], 32, 32), C.Extract(x[1], 0, 32), C.Extract(x[1], 32, 32)}
}

func xbytes(C *term.Ctx, x [2]*term.Term) (r [16]*term.Term) {
	for i := range r {
		r[i] = C.Extract(x[i/8], uint8(i%8)*8, 8)
	}
	return
}

func fromBytes(C *term.Ctx, b [16]*term.Term) (r [2]*term.Term) {
	for h := range r {
		v := b[8*h]
		for i := 1; i < 8; i++ {
			v = C.Concat(b[8*h+i], v)
		}
		r[h] = v
	}
	return
}

// AES as in FIPS 197, from its definition.
var aesS, aesInvS [256]uint64

func gmul(a, b uint8) uint8 {
	r := uint8(0)
	for ; b != 0; b >>= 1 {
		if b&1 != 0 {
			r ^= a
		}
		h := a & 0x80
		a <<= 1
		if h != 0 {
			a ^= 0x1b
		}
	}
	return r
}

func init() {
	for i := 0; i < 256; i++ {
		inv := uint8(0)
		for j := 1; j < 256 && i > 0; j++ {
			if gmul(uint8(i), uint8(j)) == 1 {
				inv = uint8(j)
			}
		}
		s := inv
		for k := 1; k < 5; k++ {
			s ^= inv<<uint(k) | inv>>uint(8-k)
		}
		s ^= 0x63
		aesS[i] = uint64(s)
		aesInvS[s] = uint64(i)
	}
}

func (m *Machine) aesSub(b *term.Term, inv bool) *term.Term {
	t := aesS[:]
	if inv {
		t = aesInvS[:]
	}
	return m.C.TabLookup(m.C.AddTable(8, t), m.C.ZExt(b, 64))
}

// xtime multiplies by x in GF(2^8).
func (m *Machine) xtime(b *term.Term) *term.Term {
	C := m.C
	hi := C.Extract(b, 7, 1)
	sh := C.Concat(C.Extract(b, 0, 7), C.Const(0, 1))
	return C.Xor(sh, C.And(C.SExt(hi, 8), C.Const(0x1b, 8)))
}

func (m *Machine) gmulK(b *term.Term, k uint8) *term.Term {
	r := m.C.Const(0, 8)
	for ; k != 0; k >>= 1 {
		if k&1 != 0 {
			r = m.C.Xor(r, b)
		}
		b = m.xtime(b)
	}
	return r
}

func (m *Machine) aesMix(s [16]*term.Term, inv bool) (r [16]*term.Term) {
	k := [4]uint8{2, 3, 1, 1}
	if inv {
		k = [4]uint8{14, 11, 13, 9}
	}
	for c := 0; c < 4; c++ {
		for i := 0; i < 4; i++ {
			v := m.C.Const(0, 8)
			for j := 0; j < 4; j++ {
				v = m.C.Xor(v, m.gmulK(s[4*c+j], k[(j-i+4)&3]))
			}
			r[4*c+i] = v
		}
	}
	return
}

// setCPU chooses the modelled processor and repeats the package initialisation on it.
func (m *Machine) setCPU(f CPUFeatures) {
	m.extra["cpu"] = f
	C := m.C
	tab := make([]*term.Term, 16*8)
	for i := range tab {
		tab[i] = C.Const(0xffffffff, 32)
	}
	bit := func(i int, b uint, on bool) {
		if !on {
			tab[i] = C.Const(tab[i].K&^(1<<b), 32)
		}
	}
	tab[0], tab[4] = C.Const(7, 32), C.Const(7, 32)
	bit(1*8+2, 25, f.AES)
	bit(7*8+1, 8, f.BMI2)
	bit(7*8+1, 19, f.ADX)
	m.extra["cpuid"] = tab
	m.reinitPackages()
}

// reinitPackages starts over with fresh package variables.
func (m *Machine) reinitPackages() {
	m.reinit = true
	m.globals = map[*ssa.Global]*Object{}
	for _, p := range m.E.Prog.AllPackages() {
		if p.Pkg.Path() != "golang.org/x/sys/cpu" {
			continue
		}
		g := p.Var("X86")
		if g == nil {
			continue
		}
		st, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		f, ok := m.extra["cpu"].(CPUFeatures)
		if !ok {
			f = CPUFeatures{true, true, true}
		}
		var fs []*types.Var
		for i := 0; i < st.NumFields(); i++ {
			fs = append(fs, st.Field(i))
		}
		off := m.E.Sizes.Offsetsof(fs)
		for i, v := range fs {
			if b, ok := v.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
				continue
			}
			on := true
			switch v.Name() {
			case "HasBMI2":
				on = f.BMI2
			case "HasADX":
				on = f.ADX
			case "HasAES":
				on = f.AES
			}
			m.Store(Ptr{Obj: m.globalObj(g), Off: off[i]}, m.C.Bool(on), v.Type())
		}
	}
	m.initPackages()
}
