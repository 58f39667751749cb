// Package check drives the property checks.
package check

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifengine/smt"
	"verifengine/sym"
)

// Run is the state of one check invocation.
type Run struct {
	ID       string
	Tier     string
	Seed     int
	Repo     string
	Verif    string
	Scratch  string
	Start    time.Time
	Budget   time.Duration
	Deadline time.Time

	engines map[string]*sym.Engine
	mu      sync.Mutex // accounting
	emu     sync.Mutex // engines
	elock   map[string]*sync.Mutex

	// results
	Level        string
	Paths        int
	Infeasible   int
	Steps        int64
	Asserts      int
	Proved       int
	Trivial      int
	Sweeps       int
	FieldIds     int
	Obligations  int
	Discharged   int
	Traces       int // native runs that agreed with the encoding
	TracesBad    []string
	Samples      []interface{}
	Encoded      map[string]bool
	Inconclusive []string
	Violations   []string
	Known        []string
	Assumptions  []string
	Bounds       []string
	Extra        map[string]interface{}
	JobInfo      []map[string]interface{}
	vioSeq       int
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

func (r *Run) Logf(f string, a ...interface{}) {
	fmt.Printf("[%6.1fs] %s\n", time.Since(r.Start).Seconds(), fmt.Sprintf(f, a...))
}

func (r *Run) Inconc(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	r.Inconclusive = append(r.Inconclusive, s)
	r.Logf("INCONCLUSIVE: %s", trunc(s, 600))
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Job is one harness function explored symbolically.
type Job struct {
	Pkg     string
	Tags    string
	Arch    string   // architecture for loading
	NatTags string   // native replay build
	NatArch string   // "" = amd64
	Harness []string // file names relative to /verif/harness
	Func    string
	Params  map[string]int
	Opts    func(o *sym.RunOpts)
	NoX86   bool
	NoNative bool
}

func (r *Run) harnessPaths(h []string) []string {
	var o []string
	for _, x := range h {
		o = append(o, filepath.Join(r.Verif, "harness", x))
	}
	return o
}

func (r *Run) Engine(j Job) (*sym.Engine, error) {
	key := strings.Join([]string{j.Pkg, j.Tags, j.Arch, strings.Join(j.Harness, ",")}, "|")
	r.emu.Lock()
	if r.elock == nil {
		r.elock = map[string]*sync.Mutex{}
	}
	l := r.elock[key]
	if l == nil {
		l = &sync.Mutex{}
		r.elock[key] = l
	}
	nth := len(r.elock)
	r.emu.Unlock()
	l.Lock()
	defer l.Unlock()
	r.emu.Lock()
	e0, ok := r.engines[key]
	r.emu.Unlock()
	if ok {
		return e0, nil
	}
	sc := filepath.Join(r.Scratch, fmt.Sprintf("load%d-%s", nth, filepath.Base(j.Pkg)))
	os.MkdirAll(sc, 0o755)
	e, err := sym.Load(sym.Config{Repo: r.Repo, Pkg: j.Pkg, Tags: j.Tags, Arch: j.Arch, Harness: r.harnessPaths(j.Harness), Scratch: sc})
	if err != nil {
		return nil, err
	}
	r.emu.Lock()
	r.engines[key] = e
	r.emu.Unlock()
	return e, nil
}

// ExploreAll runs jobs concurrently, at most n at a time.
func (r *Run) ExploreAll(n int, jobs []Job) {
	sem := make(chan bool, n)
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		sem <- true
		go func(j Job) {
			defer func() {
				if x := recover(); x != nil {
					r.mu.Lock()
					r.Inconc("internal error: %v", x)
					r.mu.Unlock()
				}
				<-sem
				wg.Done()
			}()
			r.Explore(j)
		}(j)
	}
	wg.Wait()
}

// Explore runs the job and accounts for its results; violations are replayed.
func (r *Run) Explore(j Job) *sym.Result {
	name := j.Pkg + ":" + j.Func
	if j.Tags != "" {
		name += "[" + j.Tags + "]"
	}
	if o := os.Getenv("VERIF_ONLY"); o != "" && !strings.Contains(name, o) { // development aid
		return nil
	}
	e, err := r.Engine(j)
	if err != nil {
		r.mu.Lock()
		r.Inconc("%s: cannot load: %v", name, err)
		r.mu.Unlock()
		return nil
	}
	o := sym.DefaultOpts()
	o.Deadline = r.Deadline
	for k, v := range j.Params {
		o.Params[k] = v
	}
	if r.Thorough() {
		o.AssertTimeout = 300 * time.Second
	}
	if j.Opts != nil {
		j.Opts(o)
	}
	q0 := atomic.LoadInt64(&smt.Queries)
	res := e.Run(j.Func, o)
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Paths += res.Paths
	r.Infeasible += res.Infeasible
	r.Steps += res.Steps
	r.Asserts += res.Asserts
	r.Proved += res.Proved
	r.Trivial += res.Trivial
	r.Sweeps += res.Sweeps
	r.FieldIds += res.FieldIds
	r.Obligations += res.Asserts
	r.Discharged += res.Proved
	for k := range res.Encoded {
		if strings.Contains(k, "henrydcase") || strings.Contains(k, "mkem") {
			r.Encoded[k] = true
		}
	}
	ji := map[string]interface{}{"job": name, "params": j.Params, "paths": res.Paths, "assertions": res.Asserts, "proved": res.Proved, "closed_by_simplifier": res.Trivial, "closed_by_word_equivalence": res.Sweeps, "closed_by_field_identity": res.FieldIds, "instructions": res.Steps, "queries": atomic.LoadInt64(&smt.Queries) - q0, "wall_s": round(res.Wall.Seconds()), "reached": res.Reached}
	r.JobInfo = append(r.JobInfo, ji)
	r.Logf("%s: paths=%d infeasible=%d asserts=%d proved=%d trivial=%d fail=%d unknown=%d err=%d steps=%d queries=%v %.1fs (load %.1fs) reached=%v", name, res.Paths, res.Infeasible, res.Asserts, res.Proved, res.Trivial, len(res.Failures), len(res.Unknowns), len(res.Errors), res.Steps, ji["queries"], res.Wall.Seconds(), e.LoadTime.Seconds(), res.Reached)
	for n := range res.Notes {
		r.Assumptions = appendUniq(r.Assumptions, n)
	}
	if len(res.Unknowns) > 0 {
		r.Inconc("%s: %d assertions undecided: %v", name, len(res.Unknowns), uniq(res.Unknowns))
	}
	if len(res.Errors) > 0 {
		r.Inconc("%s: %s", name, strings.Join(uniq(res.Errors), "; "))
	}
	if res.Stopped != "" {
		r.Inconc("%s: exploration stopped: %s", name, res.Stopped)
	}
	if len(res.Reached) == 0 && len(res.Failures) == 0 {
		r.Inconc("%s: vacuous: no path reached the end of the harness", name)
	}
	r.confirm(j, name, res)
	return res
}

func uniq(s []string) []string {
	m := map[string]bool{}
	var o []string
	for _, x := range s {
		if !m[x] {
			m[x] = true
			o = append(o, x)
		}
	}
	return o
}

func appendUniq(s []string, x string) []string {
	for _, y := range s {
		if y == x {
			return s
		}
	}
	return append(s, x)
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

// confirm replays failures and witnesses against the real build.
func (r *Run) confirm(j Job, name string, res *sym.Result) {
	var runs []NativeRun
	for _, w := range res.Witnesses {
		if w.Values != nil {
			runs = append(runs, NativeRun{j.Func, w.Values, j.Params})
		}
	}
	nw := len(runs)
	seen := map[string]int{}
	var fails []*sym.Failure
	for _, f := range res.Failures {
		if seen[f.Label] >= 3 {
			continue
		}
		seen[f.Label]++
		fails = append(fails, f)
		runs = append(runs, NativeRun{j.Func, f.Values, j.Params})
	}
	if len(runs) == 0 || j.NoNative {
		return
	}
	nt := j.NatTags
	if nt == "" && j.NatArch == "" {
		nt = j.Tags
	}
	outs, err := NativeReplay(r.Repo, j.Pkg, nt, j.NatArch, r.harnessPaths(j.Harness), runs, r.Scratch)
	if err != nil {
		r.Inconc("%s: native replay: %v", name, err)
		return
	}
	k := 0
	for _, w := range res.Witnesses {
		if w.Values == nil {
			continue
		}
		o := outs[k]
		k++
		bad := ""
		if o.Fail != "" {
			bad = "assertion fails natively: " + o.Fail
		} else if o.Panic != "" {
			bad = "panics natively: " + o.Panic
		} else if o.Skip {
			bad = "assumption fails natively"
		} else {
			for i, ob := range w.Observed {
				if !ob.Exact {
					continue
				}
				if i >= len(o.Obs) || o.Obs[i]["hex"] != hex.EncodeToString(ob.Bytes) {
					bad = fmt.Sprintf("observation %s differs: encoding %x, real build %v", ob.Label, ob.Bytes, o.Obs)
					break
				}
			}
		}
		if bad == "" {
			r.Traces++
			if len(r.Samples) < 4 {
				r.Samples = append(r.Samples, map[string]interface{}{"harness": name, "inputs": fewVals(w.Values), "reached": w.Reached})
			}
		} else {
			r.TracesBad = append(r.TracesBad, name+": "+bad)
			if o.Fail != "" || o.Panic != "" {
				// the real code breaks the assertion on an input the encoding accepted:
				// a real violation found by trace validation
				r.Violation(name, "trace validation: "+bad, j, w.Values)
			} else {
				r.Inconc("%s: trace validation: %s", name, bad)
			}
		}
	}
	for i, f := range fails {
		o := outs[nw+i]
		if o.Fail != "" || o.Panic != "" {
			what := o.Fail
			if what == "" {
				what = "panic: " + o.Panic
			}
			r.Violation(name, f.Label+" -- real build: "+what, j, f.Values)
		} else if f.Kind != "candidate" {
			r.Inconc("%s: counterexample for %q does not reproduce on the real build (skip=%v) at %s values %v", name, f.Label, o.Skip, f.Stack, fewVals(f.Values))
		}
	}
}

func fewVals(v map[string]uint64) map[string]string {
	ks := []string{}
	for k := range v {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	o := map[string]string{}
	for i, k := range ks {
		if i >= 24 {
			o["..."] = fmt.Sprintf("%d inputs in total", len(ks))
			break
		}
		o[k] = fmt.Sprintf("%#x", v[k])
	}
	return o
}

// Violation records a confirmed violation unless it is a listed finding.
func (r *Run) Violation(where, what string, j Job, vals map[string]uint64) {
	key := where + ": " + what
	for _, k := range knownFindings(r.Verif) {
		if k.Property == r.ID && k.Match != "" && strings.Contains(key, k.Match) {
			r.Known = appendUniq(r.Known, k.What)
			return
		}
	}
	r.vioSeq++
	dir := filepath.Join(r.Verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", r.ID, r.vioSeq))
	b, _ := json.MarshalIndent(map[string]interface{}{"property": r.ID, "where": where, "what": what, "job": j.Func, "pkg": j.Pkg, "tags": j.Tags, "arch": j.NatArch, "harness": j.Harness, "params": j.Params, "values": vals}, "", " ")
	os.WriteFile(p, b, 0o644)
	r.Violations = append(r.Violations, key)
	if len(r.Violations) > 5 {
		return
	}
	r.Logf("violation: %s", trunc(key, 500))
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, p)
}

type Finding struct {
	Property string `json:"property"`
	Match    string `json:"match"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

func knownFindings(verif string) []Finding {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []Finding `json:"findings"`
	}
	json.Unmarshal(b, &f)
	return f.Findings
}

// Checks is the registry: property id -> check.
type Check struct {
	Level string
	F     func(r *Run)
	Quick time.Duration // time budget
	Full  time.Duration
}

var Checks = map[string]Check{}

func register(id, level string, quick, full int, f func(r *Run)) {
	Checks[id] = Check{level, f, time.Duration(quick) * time.Second, time.Duration(full) * time.Second}
}

// Main runs one check and returns the exit code.
func Main(id, tier, repo, verif string) int {
	c, ok := Checks[id]
	if !ok {
		fmt.Println("no such check", id)
		return 2
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := &Run{ID: id, Tier: tier, Seed: seed, Repo: repo, Verif: verif, Start: time.Now(), engines: map[string]*sym.Engine{}, Encoded: map[string]bool{}, Extra: map[string]interface{}{}, Level: c.Level}
	r.Budget = c.Quick
	if r.Thorough() {
		r.Budget = c.Full
	}
	r.Deadline = r.Start.Add(r.Budget)
	sc, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	r.Scratch = sc
	limit := r.Budget + 120*time.Second
	if limit > 870*time.Second {
		limit = 870 * time.Second
	}
	time.AfterFunc(limit, func() { // a query that does not end
		r.Inconc("stopped after %v", limit)
		r.writeEvidence()
		os.RemoveAll(sc)
		if len(r.Violations) > 0 {
			os.Exit(1)
		}
		os.Exit(0)
	})
	defer os.RemoveAll(sc)
	func() {
		defer func() {
			if x := recover(); x != nil {
				if os.Getenv("VERIF_DEBUG") != "" {
					panic(x)
				}
				r.Inconc("internal error: %v", x)
			}
		}()
		c.F(r)
	}()
	for _, k := range r.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	r.writeEvidence()
	if len(r.Violations) > 0 {
		return 1
	}
	return 0
}

func (r *Run) writeEvidence() {
	enc := []string{}
	for k := range r.Encoded {
		enc = append(enc, k)
	}
	sort.Strings(enc)
	cov := map[string]interface{}{
		"functions_encoded":    enc,
		"bounds":               r.Bounds,
		"jobs":                 r.JobInfo,
		"queries":              atomic.LoadInt64(&smt.Queries),
		"queries_sat":          atomic.LoadInt64(&smt.SatN),
		"queries_unsat":        atomic.LoadInt64(&smt.UnsatN),
		"queries_unknown":      atomic.LoadInt64(&smt.UnknownN),
		"solver_time_s":        round(float64(atomic.LoadInt64(&smt.TimeNS)) / 1e9),
		"assertions":           r.Asserts,
		"closed_by_simplifier": r.Trivial, "closed_by_word_equivalence": r.Sweeps, "closed_by_field_identity": r.FieldIds,
		"inconclusive":         r.Inconclusive,
		"known_findings":       r.Known,
	}
	for k, v := range r.Extra {
		cov[k] = v
	}
	samples := r.Samples
	if samples == nil {
		samples = []interface{}{}
	}
	switch r.Level {
	case "model_checking":
		cov["states"] = r.Paths
		cov["transitions"] = r.Steps
		cov["traces_validated_against_impl"] = r.Traces
		cov["samples"] = samples
		cov["exhaustive"] = len(r.Inconclusive) == 0
		cov["explanation"] = "states = completed symbolic paths (each stands for every input satisfying its path condition), transitions = instructions executed symbolically on them"
	case "proof":
		cov["obligations"] = r.Obligations
		cov["discharged"] = r.Discharged
		cov["checker_cmd"] = "verif check " + r.ID
		cov["trusted_base"] = []string{"z3/cvc5", "the encoder in /verif/engine (validated by native replay)", "go/ssa, objdump"}
		cov["traces_validated_against_impl"] = r.Traces
		cov["samples"] = samples
	default:
		cov["explanation"] = "symbolic execution and SMT queries over the real code; see bounds and jobs"
		cov["obligations"] = r.Obligations
		cov["discharged"] = r.Discharged
		cov["samples"] = samples
	}
	ev := map[string]interface{}{
		"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": r.Level,
		"coverage": cov, "assumptions": r.Assumptions, "wall_s": round(time.Since(r.Start).Seconds()),
		"violations": len(r.Violations),
	}
	if r.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(filepath.Join(r.Verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(r.Verif, "evidence", r.ID+".json"), b, 0o644)
	r.Logf("%s %s: obligations=%d discharged=%d paths=%d traces=%d violations=%d inconclusive=%d", r.ID, r.Tier, r.Obligations, r.Discharged, r.Paths, r.Traces, len(r.Violations), len(r.Inconclusive))
}
