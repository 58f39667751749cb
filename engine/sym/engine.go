package sym

import (
	"context"
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verifengine/smt"
	"verifengine/term"
)

// Config says what to load.
type Config struct {
	Repo    string // /repo
	Pkg     string // directory relative to Repo, e.g. hash/sm3
	Tags    string
	Arch    string
	Harness []string // harness source files (loaded into the package through an overlay)
	Scratch string   // directory for generated overlay files
}

type Engine struct {
	Cfg       Config
	Prog      *ssa.Program
	Pkg       *ssa.Package
	Sizes     types.Sizes
	PkgPath   string
	redirects map[*ssa.Function]*ssa.Function
	extRedir  map[string]func(m *Machine, fn *ssa.Function, args []Value) Value
	offs      sync.Map
	LoadTime  time.Duration
	Funcs     map[string]*ssa.Function
	InitPkgs  map[string]bool
}

func GoEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOWORK", "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GO111MODULE", "GOARCH", "GOOS", "CGO_ENABLED":
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=", "GO111MODULE=on", "GOOS=linux")
	if os.Getenv("GOMODCACHE") == "" {
		env = append(env, "GOMODCACHE=/root/go/pkg/mod")
	}
	return env
}

// WorkFile returns a go.work joining the modules of the repository.
func WorkFile(repo, scratch string) (string, error) {
	p := filepath.Join(scratch, "go.work")
	s := "go 1.27\n\nuse (\n\t" + repo + "\n"
	if _, err := os.Stat(filepath.Join(repo, "kem/mkem/go.mod")); err == nil {
		s += "\t" + filepath.Join(repo, "kem/mkem") + "\n"
	}
	s += ")\n"
	var sum string
	for _, f := range []string{"/opt/vp/go.work.sum", filepath.Join(repo, "go.sum")} {
		if b, err := os.ReadFile(f); err == nil {
			sum += string(b)
		}
	}
	if err := os.WriteFile(p+".sum", []byte(sum+workSum), 0o644); err != nil {
		return "", err
	}
	if old, err := os.ReadFile(p); err == nil && string(old) == s {
		return p, nil
	}
	return p, os.WriteFile(p, []byte(s), 0o644)
}

// checksums of the two dependencies, in case the workspace has none
const workSum = `github.com/dterei/gotsc v0.0.0-20160722215413-e78f872945c6 h1:iD62k/20LzNdTc2bmrOTQ4xgRbI0uJvOxTkEAmd20eQ=
github.com/dterei/gotsc v0.0.0-20160722215413-e78f872945c6/go.mod h1:P4N3xGqi52atrdlMBXpsAGTqRnLgZ8uDhlkQ7HEYGgo=
golang.org/x/sys v0.0.0-20191120155948-bd437916bb0e h1:N7DeIrjYszNmSW409R3frPPwglRwMkXSBzwVbkOjLLA=
golang.org/x/sys v0.0.0-20191120155948-bd437916bb0e/go.mod h1:h1NjWce9XRLGQEsW7wpKNCjG9DtNlClVuFLEZdDNbEs=
`

const rtEngine = `package %s

func vU64(name string) uint64                       { panic("v") }
func vU32(name string) uint32                       { panic("v") }
func vU8(name string) uint8                         { panic("v") }
func vBool(name string) bool                        { panic("v") }
func vBytes(name string, n int) []byte              { panic("v") }
func vWords(name string, n int) []uint64            { panic("v") }
func vChoose(name string, n int) int                { panic("v") }
func vAssume(c bool)                                { panic("v") }
func vAssert(c bool, label string)                  { panic("v") }
func vAssertBytes(a, b []byte, label string)        { panic("v") }
func vReach(label string)                           { panic("v") }
func vObserve(label string, b []byte)               { panic("v") }
func vPanics(f func()) bool                         { panic("v") }
func vSym() bool                                    { panic("v") }
func vUF(name string, outLen int, in ...[]byte) []byte   { panic("v") }
func vUFWords(name string, n int, in ...[]uint64) []uint64 { panic("v") }
func vParam(name string, def int) int               { panic("v") }
func vSameBytes(a, b []byte) bool                   { panic("v") }
func vCoarse()                                      { panic("v") }
func vNote(s string)                                { panic("v") }
func vSecretBytes(name string, n int) []byte        { panic("v") }
func vSecretWords(name string, n int) []uint64      { panic("v") }
func vDeclassify(b []byte)                          { panic("v") }
func vCPU(bmi2, adx, aes bool)                       { panic("v") }
func vCpuid(tab []uint32)                            { panic("v") }

type vZ int

func vZW(w []uint64) vZ                             { panic("v") }
func vZB(w []byte) vZ                               { panic("v") }
func vZC(v int64) vZ                                { panic("v") }
func vZHex(s string) vZ                             { panic("v") }
func vZAdd(a, b vZ) vZ                              { panic("v") }
func vZSub(a, b vZ) vZ                              { panic("v") }
func vZMul(a, b vZ) vZ                              { panic("v") }
func vZShl(a vZ, n int) vZ                          { panic("v") }
func vZIte(c bool, a, b vZ) vZ                      { panic("v") }
func vZAssumeLt(a, b vZ)                            { panic("v") }
func vZAssumeEq(a, b vZ)                            { panic("v") }
func vZAssertLt(a, b vZ, label string)              { panic("v") }
func vZAssertEq(a, b vZ, label string)              { panic("v") }
func vZAssertMod(a, b, p vZ, label string)          { panic("v") }
func vFSet(p []uint64)                              { panic("v") }
func vFIn(name string, k int) []uint64              { panic("v") }
func vFC(k int) []uint64                            { panic("v") }
func vFOp(op string, k int, in ...[]uint64) []uint64 { panic("v") }
func vFPow(b, e []uint64) []uint64                  { panic("v") }
func vFEq(label string, a, b []uint64)              { panic("v") }
func vFBelow(label string, x []uint64, k int)       { panic("v") }
func vFSel(c uint8, a, b []uint64) []uint64           { panic("v") }
func vFSame(a, b []uint64) bool                      { panic("v") }
func vFPM(p, q, d []uint64) bool                     { panic("v") }
func vF2In(name string) (a, b []uint64)              { panic("v") }
func vF2Op(op string, in ...[]uint64) (a, b []uint64) { panic("v") }
func vF2Eq(label string, in ...[]uint64)             { panic("v") }
func vF2Walk(l, e int, in ...[]uint64) [][]uint64    { panic("v") }
func vF2Proj(label string, in ...[]uint64)           { panic("v") }
func vFProj(label string, gx, gz, wx, wz []uint64, scale ...[]uint64) { panic("v") }
`

func Load(cfg Config) (*Engine, error) {
	t0 := time.Now()
	e := &Engine{Cfg: cfg, redirects: map[*ssa.Function]*ssa.Function{}, Funcs: map[string]*ssa.Function{}, InitPkgs: map[string]bool{}, extRedir: map[string]func(m *Machine, fn *ssa.Function, args []Value) Value{}}
	arch := cfg.Arch
	if arch == "" {
		arch = "amd64"
	}
	work, err := WorkFile(cfg.Repo, cfg.Scratch)
	if err != nil {
		return nil, err
	}
	dir := filepath.Join(cfg.Repo, cfg.Pkg)
	name, err := PackageName(dir)
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{
		filepath.Join(dir, "zz_verif_rt.go"): []byte(fmt.Sprintf(rtEngine, name)),
	}
	var redirLines []string
	for i, h := range cfg.Harness {
		b, err := os.ReadFile(h)
		if err != nil {
			return nil, err
		}
		b = []byte(ExpandHarness(string(b), name))
		ov[filepath.Join(dir, fmt.Sprintf("zz_verif_h%d.go", i))] = b
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "//verif:redirect ") {
				redirLines = append(redirLines, strings.TrimPrefix(l, "//verif:redirect "))
			}
		}
	}
	env := append(GoEnv(), "GOWORK="+work, "GOARCH="+arch, "CGO_ENABLED=0")
	flags := []string{}
	if cfg.Tags != "" {
		flags = append(flags, "-tags="+cfg.Tags)
	}
	pc := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Context:    context.Background(),
		Dir:        dir,
		Env:        env,
		BuildFlags: flags,
		Overlay:    ov,
		Fset:       token.NewFileSet(),
	}
	pkgs, err := packages.Load(pc, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("loaded %d packages", len(pkgs))
	}
	if len(pkgs[0].Errors) > 0 {
		return nil, fmt.Errorf("package errors: %v", pkgs[0].Errors)
	}
	var bad []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.Contains(p.PkgPath, "henrydcase") && len(p.Errors) > 0 {
			bad = append(bad, fmt.Sprint(p.Errors))
		}
	})
	if len(bad) > 0 {
		return nil, fmt.Errorf("package errors: %v", bad)
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	prog.Build()
	e.Prog = prog
	e.Pkg = spkgs[0]
	e.PkgPath = e.Pkg.Pkg.Path()
	e.Sizes = types.SizesFor("gc", arch)
	for _, p := range prog.AllPackages() {
		pp := p.Pkg.Path()
		if strings.HasPrefix(pp, "github.com/henrydcase/nobs") || pp == e.PkgPath || pp == "mkem" {
			e.InitPkgs[pp] = true
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		e.Funcs[fn.String()] = fn
	}
	for _, l := range redirLines {
		if err := e.addRedirect(l); err != nil {
			return nil, err
		}
	}
	e.LoadTime = time.Since(t0)
	return e, nil
}

// PackageName finds the package name of the non-test Go files in dir.
func PackageName(dir string) (string, error) {
	es, err := os.ReadDir(dir)
	if err != nil {
		return "", err
	}
	for _, x := range es {
		n := x.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			return "", err
		}
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "package ") {
				return strings.Fields(l)[1], nil
			}
		}
	}
	return "", fmt.Errorf("no package in %s", dir)
}

// addRedirect: "TARGET STUB". TARGET is a function name in the package under
// test, "T.m" for a method, or a full ssa name "(*path.T).m" / "path.F". If the
// target does not exist, the unique function of the package with the signature of
// the stub is taken.
func (e *Engine) addRedirect(l string) error {
	f := strings.Fields(l)
	if len(f) < 2 {
		return fmt.Errorf("bad redirect %q", l)
	}
	opt := false
	if len(f) > 2 && f[2] == "optional" {
		opt = true
	}
	stub := e.Pkg.Func(f[1])
	if stub == nil {
		return fmt.Errorf("no stub %s", f[1])
	}
	t := e.findFunc(f[0])
	if t == nil {
		var cands []*ssa.Function
		for _, fn := range e.Funcs {
			if fn.Pkg == e.Pkg && fn != stub && fn.Parent() == nil && sameSig(fn, stub) && !e.isHarness(fn) {
				cands = append(cands, fn)
			}
		}
		if len(cands) == 1 {
			t = cands[0]
		}
	}
	if t == nil {
		if opt {
			return nil
		}
		return fmt.Errorf("redirect target %s not found", f[0])
	}
	if !sameSig(t, stub) {
		return fmt.Errorf("redirect %s: signature of stub differs", f[0])
	}
	e.redirects[t] = stub
	return nil
}

func (e *Engine) isHarness(fn *ssa.Function) bool {
	return strings.Contains(filepath.Base(e.Prog.Fset.Position(fn.Pos()).Filename), "zz_verif_")
}

func (e *Engine) findFunc(n string) *ssa.Function {
	if fn, ok := e.Funcs[n]; ok {
		return fn
	}
	if fn, ok := e.Funcs[e.PkgPath+"."+n]; ok {
		return fn
	}
	if i := strings.LastIndex(n, "."); i > 0 && !strings.ContainsAny(n, "(/") {
		t, mth := n[:i], n[i+1:]
		for _, c := range []string{fmt.Sprintf("(*%s.%s).%s", e.PkgPath, t, mth), fmt.Sprintf("(%s.%s).%s", e.PkgPath, t, mth)} {
			if fn, ok := e.Funcs[c]; ok {
				return fn
			}
		}
	}
	return nil
}

// sameSig compares parameter (receiver included) and result types.
func sameSig(a, b *ssa.Function) bool {
	ps := func(f *ssa.Function) []types.Type {
		var r []types.Type
		s := f.Signature
		if s.Recv() != nil {
			r = append(r, s.Recv().Type())
		}
		for i := 0; i < s.Params().Len(); i++ {
			r = append(r, s.Params().At(i).Type())
		}
		r = append(r, nil)
		for i := 0; i < s.Results().Len(); i++ {
			r = append(r, s.Results().At(i).Type())
		}
		return r
	}
	x, y := ps(a), ps(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if (x[i] == nil) != (y[i] == nil) {
			return false
		}
		if x[i] != nil && !types.Identical(x[i].Underlying(), y[i].Underlying()) && !types.Identical(x[i], y[i]) {
			// pointers to defined types with identical underlying
			px, ok1 := x[i].Underlying().(*types.Pointer)
			py, ok2 := y[i].Underlying().(*types.Pointer)
			if !ok1 || !ok2 || !types.Identical(px.Elem().Underlying(), py.Elem().Underlying()) {
				return false
			}
		}
	}
	return true
}

func (e *Engine) fieldOff(st *types.Struct, i int) int64 {
	if v, ok := e.offs.Load(st); ok {
		return v.([]int64)[i]
	}
	var fs []*types.Var
	for k := 0; k < st.NumFields(); k++ {
		fs = append(fs, st.Field(k))
	}
	o := e.Sizes.Offsetsof(fs)
	e.offs.Store(st, o)
	return o[i]
}

func (e *Engine) initPkg(path string) bool { return e.InitPkgs[path] }

// ---- runner ----

type RunOpts struct {
	FeasTimeout   time.Duration
	QuickTimeout  time.Duration
	AssertTimeout time.Duration
	Solvers       []string
	Deadline      time.Time
	Workers       int
	MaxPaths      int
	Params        map[string]int
	OnAssert      func(m *Machine, cond *term.Term, label string) bool
	MaxWitness    int
	Setup         func(m *Machine) // before the harness runs, on each path
	StopOnFail    bool
	CT            bool
	X86Flags      map[string]bool
}

func DefaultOpts() *RunOpts {
	return &RunOpts{FeasTimeout: 20 * time.Second, QuickTimeout: 5 * time.Second, AssertTimeout: 60 * time.Second,
		Solvers: []string{"z3", "cvc5"}, Workers: 8, MaxPaths: 200000, MaxWitness: 2, Params: map[string]int{}}
}

// Witness is a complete path with concrete inputs and expected observations.
type Witness struct {
	Values   map[string]uint64
	Observed []ObsValue
	Reached  []string
}

type ObsValue struct {
	Label string
	Bytes []byte
	Exact bool // false if it depends on uninterpreted functions
}

type Result struct {
	Harness    string
	Paths      int
	Infeasible int
	Asserts    int
	Proved     int
	Trivial    int
	Sweeps     int
	FieldIds   int
	Steps      int64
	Decisions  int
	Reached    map[string]int
	Failures   []*Failure
	Unknowns   []string
	Errors     []string
	Notes      map[string]bool
	Encoded    map[string]bool
	Witnesses  []Witness
	Wall       time.Duration
	Stopped    string
}

func (r *Result) Complete() bool {
	return len(r.Unknowns) == 0 && len(r.Errors) == 0 && r.Stopped == ""
}

type worker struct {
	c    *term.Ctx
	base *Machine
	sess *smt.Session
}

// NewBase creates a base machine with interpreted package initialisers.
func (e *Engine) NewBase(c *term.Ctx, o *RunOpts) (b *Machine, err error) {
	b = &Machine{E: e, C: c, globals: map[*ssa.Global]*Object{}, over: map[*Object][]Cell{}, mover: map[*MapObj]*MapObj{}, varSeq: map[string]int{}, reached: map[string]int{}, opts: o, Notes: map[string]bool{}, Encoded: map[string]bool{}, extra: map[string]interface{}{}}
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				err = fmt.Errorf("package initialisation: %s (%s)", x.msg, b.stackString())
			case *GoPanic:
				err = fmt.Errorf("package initialisation panics: %s (%s)", x.Msg, b.stackString())
			default:
				panic(r)
			}
		}
	}()
	b.initPackages()
	return b, nil
}

func (b *Machine) initPackages() {
	e := b.E
	done := map[*ssa.Package]bool{}
	var initp func(p *ssa.Package)
	initp = func(p *ssa.Package) {
		if done[p] {
			return
		}
		done[p] = true
		for _, imp := range p.Pkg.Imports() {
			if sp := e.Prog.Package(imp); sp != nil && e.initPkg(imp.Path()) {
				initp(sp)
			}
		}
		if f := p.Func("init"); f != nil {
			b.Call(f, nil, nil)
		}
	}
	initp(e.Pkg)
}

// NewPath creates a machine for one path over base.
func (e *Engine) NewPath(base *Machine, sess *smt.Session, o *RunOpts, prefix []int64) *Machine {
	m := &Machine{E: e, C: base.C, base: base, globals: map[*ssa.Global]*Object{}, over: map[*Object][]Cell{}, mover: map[*MapObj]*MapObj{}, varSeq: map[string]int{}, reached: map[string]int{}, opts: o, Notes: map[string]bool{}, Encoded: map[string]bool{}, extra: map[string]interface{}{}}
	m.sess = sess
	m.prefix = prefix
	if o.CT {
		m.CT = newCT()
	}
	if o.Setup != nil {
		o.Setup(m)
	}
	return m
}

// Run explores all paths of the harness function.
func (e *Engine) Run(harness string, o *RunOpts) *Result {
	t0 := time.Now()
	res := &Result{Harness: harness, Reached: map[string]int{}, Notes: map[string]bool{}, Encoded: map[string]bool{}}
	fn := e.Pkg.Func(harness)
	if fn == nil {
		res.Errors = append(res.Errors, "no harness function "+harness)
		return res
	}
	nw := o.Workers
	if nw <= 0 {
		nw = 1
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	queue := [][]int64{{}}
	active := 0
	stop := false
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var wk *worker
			defer func() {
				if wk != nil && wk.sess != nil {
					wk.sess.Close()
				}
			}()
			for {
				mu.Lock()
				for len(queue) == 0 && active > 0 && !stop {
					cond.Wait()
				}
				if stop || len(queue) == 0 {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				p := queue[len(queue)-1]
				queue = queue[:len(queue)-1]
				active++
				mu.Unlock()
				if wk == nil || wk.c.NumTerms() > 6_000_000 {
					if wk != nil {
						wk.sess.Close()
					}
					c := term.NewCtx()
					b, err := e.NewBase(c, o)
					if err != nil {
						mu.Lock()
						res.Errors = append(res.Errors, err.Error())
						stop = true
						active--
						mu.Unlock()
						cond.Broadcast()
						return
					}
					wk = &worker{c: c, base: b, sess: smt.NewSession(c)}
				}
				m := e.NewPath(wk.base, wk.sess, o, p)
				end := m.runHarness(fn)
				mu.Lock()
				wantW := end == "ok" && len(res.Witnesses) < o.MaxWitness && len(m.reached) > 0
				if wantW {
					res.Witnesses = append(res.Witnesses, Witness{})
				}
				wi := len(res.Witnesses) - 1
				mu.Unlock()
				var wit *Witness
				if wantW {
					wit = m.witness()
				}
				mu.Lock()
				if wit != nil {
					res.Witnesses[wi] = *wit
				}
				active--
				switch {
				case end == "ok" || end == "fail":
					res.Paths++
				case strings.HasPrefix(end, "error:"):
					res.Paths++
					if len(res.Errors) < 20 {
						res.Errors = append(res.Errors, strings.TrimPrefix(end, "error:"))
					}
					if strings.Contains(end, "deadline") {
						stop = true
						res.Stopped = "deadline"
					}
				default:
					res.Infeasible++
				}
				res.Asserts += m.Asserts
				res.Proved += m.Proved
				res.Trivial += m.Trivial
				res.Sweeps += m.Sweeps
				res.FieldIds += m.FieldIds
				res.Steps += m.steps
				res.Decisions += len(m.taken) - len(p)
				for k, v := range m.reached {
					res.Reached[k] += v
				}
				for k := range m.Notes {
					res.Notes[k] = true
				}
				for k := range m.Encoded {
					res.Encoded[k] = true
				}
				res.Failures = append(res.Failures, m.Failures...)
				res.Unknowns = append(res.Unknowns, m.Unknowns...)
				if len(m.Failures) > 0 && o.StopOnFail {
					stop = true
				}
				if len(res.Failures) > 40 {
					stop = true
				}
				if res.Paths+len(queue) > o.MaxPaths {
					stop = true
					res.Stopped = "path limit"
				}
				if !o.Deadline.IsZero() && time.Now().After(o.Deadline) && (len(queue) > 0 || len(m.newWork) > 0) {
					stop = true
					res.Stopped = "deadline"
				}
				queue = append(queue, m.newWork...)
				mu.Unlock()
				cond.Broadcast()
			}
		}()
	}
	wg.Wait()
	for k := range e.redirects {
		_ = k
	}
	res.Wall = time.Since(t0)
	return res
}

func (m *Machine) runHarness(fn *ssa.Function) (end string) {
	end = "ok"
	defer func() {
		if r := recover(); r != nil {
			st := m.stackString()
			switch x := r.(type) {
			case pathEnd:
				end = "end:" + x.why
				if strings.HasPrefix(x.why, "assert failed") {
					end = "fail"
				}
			case unsupported:
				end = "error:" + x.msg + " [" + st + "]"
				if !strings.Contains(x.msg, "deadline") {
					m.candidates("not encoded: " + x.msg)
				}
			case *GoPanic:
				end = "fail"
				func() {
					defer func() {
						if r2 := recover(); r2 != nil {
							end = fmt.Sprintf("error:model for panic: %v", r2)
						}
					}()
					r, md := smt.Unknown, (*term.Model)(nil)
					if m.sess != nil {
						r, md = m.sess.Check(m.PC, m.opts.AssertTimeout, true)
					}
					if r == smt.Unsat {
						end = "end:infeasible"
						return
					}
					if q := m.fieldModel(); q != nil {
						md = q
					}
					m.Failures = append(m.Failures, &Failure{Label: "unexpected panic: " + x.Msg, Kind: "panic", Values: m.inputValues(md), Stack: x.Where})
				}()
			default:
				end = fmt.Sprintf("error:engine panic: %v [%s]", r, st)
				if debug {
					panic(r)
				}
			}
		}
	}()
	m.Call(fn, nil, nil)
	return
}

// witness computes concrete inputs for the path and the observed outputs.
func (m *Machine) witness() (w *Witness) {
	defer func() {
		if r := recover(); r != nil {
			w = nil
		}
	}()
	r, md := m.sess.Check(m.PC, m.opts.FeasTimeout, true)
	if r != smt.Sat || md == nil {
		return nil
	}
	if md.V == nil {
		md.V = map[int32]uint64{}
	}
	if q := m.fieldModel(); q != nil {
		md = q
	}
	if z, ok := m.extra["z"].(*zstate); ok && len(z.asm) > 0 {
		one, zero := &zexpr{op: 'c', k: big1}, &zexpr{op: 'c', k: new(big.Int)}
		if md = m.zSearch(zcmp{lt: true, a: one, b: zero}, nil, nil, 3000); md == nil {
			return nil
		}
	}
	w = &Witness{Values: m.inputValues(md)}
	ev := m.C.NewEval(md)
	for _, o := range m.Obs {
		ov := ObsValue{Label: o.Label, Exact: !hasUF(o.T)}
		for _, t := range o.T {
			ov.Bytes = append(ov.Bytes, byte(ev.Eval(t)))
		}
		w.Observed = append(w.Observed, ov)
	}
	for k := range m.reached {
		w.Reached = append(w.Reached, k)
	}
	return w
}

func hasUF(ts []*term.Term) bool {
	seen := map[int32]bool{}
	for _, x := range term.Collect(ts, seen) {
		if x.Op == term.UF {
			return true
		}
	}
	return false
}

// RunCmd runs a command with a time limit.
func RunCmd(dir string, env []string, timeout time.Duration, name string, args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.Env = env
	out, err := cmd.CombinedOutput()
	return string(out), err
}
