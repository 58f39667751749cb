// Package smt talks to external SMT solvers.
package smt

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifengine/term"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// Stats over the whole process.
var (
	Queries  int64
	SatN     int64
	UnsatN   int64
	UnknownN int64
	TimeNS   int64
)

func account(r Result, d time.Duration) {
	atomic.AddInt64(&Queries, 1)
	atomic.AddInt64(&TimeNS, int64(d))
	switch r {
	case Sat:
		atomic.AddInt64(&SatN, 1)
	case Unsat:
		atomic.AddInt64(&UnsatN, 1)
	default:
		atomic.AddInt64(&UnknownN, 1)
	}
}

func command(kind string, timeoutMS int) []string {
	switch kind {
	case "z3":
		return []string{"z3-new", "-in", "-smt2"}
	case "z3old":
		return []string{"z3", "-in", "-smt2"}
	case "cvc5":
		return []string{"cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", timeoutMS)}
	case "cvc5lra":
		return []string{"cvc5", "--lang=smt2", "--produce-models", "--simplification=none", fmt.Sprintf("--tlimit=%d", timeoutMS)}
	case "cvc5int":
		return []string{"cvc5", "--lang=smt2", "--produce-models", "--solve-bv-as-int=sum", fmt.Sprintf("--tlimit=%d", timeoutMS)}
	}
	panic(kind)
}

// RawOneShot runs a complete script (without check-sat) and returns the answer and,
// when sat, the values printed for getValues.
func RawOneShot(kind, script string, getValues []string, timeout time.Duration) (Result, string, error) {
	return RawOneShotCtx(context.Background(), kind, script, getValues, timeout)
}

func RawOneShotCtx(pctx context.Context, kind, script string, getValues []string, timeout time.Duration) (Result, string, error) {
	ms := int(timeout / time.Millisecond)
	var sb strings.Builder
	if strings.HasPrefix(kind, "z3") {
		fmt.Fprintf(&sb, "(set-option :timeout %d)\n", ms)
	} else {
		if !strings.HasPrefix(script, "(set-logic") {
			sb.WriteString("(set-logic ALL)\n")
		}
	}
	sb.WriteString(script)
	sb.WriteString("(check-sat)\n")
	ctx, cancel := context.WithTimeout(pctx, timeout+3*time.Second)
	defer cancel()
	args := command(kind, ms)
	cmd := exec.CommandContext(ctx, args[0], args[1:]...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return Unknown, "", err
	}
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.StdoutPipe()
	if err != nil {
		return Unknown, "", err
	}
	t0 := time.Now()
	if err := cmd.Start(); err != nil {
		return Unknown, "", err
	}
	var wg sync.WaitGroup
	go func() { io.WriteString(in, sb.String()) }()
	rd := bufio.NewReaderSize(out, 1<<16)
	line, rerr := rd.ReadString('\n')
	line = strings.TrimSpace(line)
	res := Unknown
	switch line {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	}
	var vals string
	if res == Sat && len(getValues) > 0 {
		var qs strings.Builder
		qs.WriteString("(get-value (")
		for _, g := range getValues {
			qs.WriteString(g)
			qs.WriteByte(' ')
		}
		qs.WriteString("))\n(exit)\n")
		go func() { io.WriteString(in, qs.String()); in.Close() }()
		b, _ := io.ReadAll(rd)
		vals = string(b)
	} else {
		in.Close()
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	}
	wg.Wait()
	cmd.Wait()
	account(res, time.Since(t0))
	if strings.HasPrefix(line, "(error") {
		return Unknown, "", fmt.Errorf("solver error: %s", line)
	}
	if res == Unknown && rerr != nil && line == "" {
		return Unknown, "", nil
	}
	return res, vals, nil
}

// ParseValues parses a get-value answer into pairs (expression string, numeral).
func ParseValues(s string) [][2]string {
	toks := tokenize(s)
	var out [][2]string
	// expected: ( (expr val) (expr val) ... )
	pos := 0
	var parse func() interface{}
	parse = func() interface{} {
		if pos >= len(toks) {
			return nil
		}
		t := toks[pos]
		pos++
		if t == "(" {
			var l []interface{}
			for pos < len(toks) && toks[pos] != ")" {
				l = append(l, parse())
			}
			pos++
			return l
		}
		return t
	}
	top := parse()
	l, _ := top.([]interface{})
	for _, e := range l {
		p, _ := e.([]interface{})
		if len(p) != 2 {
			continue
		}
		out = append(out, [2]string{flat(p[0]), flat(p[1])})
	}
	return out
}

func flat(x interface{}) string {
	switch v := x.(type) {
	case string:
		return v
	case []interface{}:
		var sb strings.Builder
		sb.WriteByte('(')
		for i, e := range v {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(flat(e))
		}
		sb.WriteByte(')')
		return sb.String()
	}
	return ""
}

func tokenize(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '|':
			j := i + 1
			for j < len(s) && s[j] != '|' {
				j++
			}
			if j < len(s) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

func parseBV(s string) (uint64, bool) {
	if strings.HasPrefix(s, "#x") {
		v, e := strconv.ParseUint(s[2:], 16, 64)
		return v, e == nil
	}
	if strings.HasPrefix(s, "#b") {
		v, e := strconv.ParseUint(s[2:], 2, 64)
		return v, e == nil
	}
	if strings.HasPrefix(s, "(_ bv") {
		f := strings.Fields(s[5:])
		v, e := strconv.ParseUint(f[0], 10, 64)
		return v, e == nil
	}
	return 0, false
}

// leaves of the asserted terms whose model values we want
func leaves(c *term.Ctx, ts []*term.Term) []*term.Term {
	var out []*term.Term
	for _, t := range term.Collect(ts, map[int32]bool{}) {
		if t.Op == term.Var || (t.Op == term.UF && t.W > 0) {
			out = append(out, t)
		}
	}
	return out
}

func toModel(ls []*term.Term, vals string) *term.Model {
	m := &term.Model{V: map[int32]uint64{}}
	ps := ParseValues(vals)
	for i, l := range ls {
		if i < len(ps) {
			if v, ok := parseBV(ps[i][1]); ok {
				m.V[l.ID] = v
			}
		}
	}
	return m
}

// OneShot decides the conjunction of asserts (width-1 terms) in a fresh process.
func OneShot(c *term.Ctx, kind string, asserts []*term.Term, cut map[int32]bool, timeout time.Duration) (Result, *term.Model, error) {
	em := term.NewEmitter(c)
	em.Cut = cut
	var sb strings.Builder
	em.Emit(&sb, asserts...)
	for _, a := range asserts {
		fmt.Fprintf(&sb, "(assert (= %s #b1))\n", term.Ref(a))
	}
	ls := leaves(c, asserts)
	if cut != nil {
		ls = ls[:0]
	}
	var gv []string
	for _, l := range ls {
		gv = append(gv, term.Ref(l))
	}
	r, vals, err := RawOneShot(kind, sb.String(), gv, timeout)
	if r == Sat && cut == nil {
		return r, toModel(ls, vals), err
	}
	return r, nil, err
}

// Race runs several solvers concurrently and returns the first decided answer.
func Race(c *term.Ctx, kinds []string, asserts []*term.Term, timeout time.Duration) (Result, *term.Model, string, error) {
	em := term.NewEmitter(c)
	var sb strings.Builder
	em.Emit(&sb, asserts...)
	for _, a := range asserts {
		fmt.Fprintf(&sb, "(assert (= %s #b1))\n", term.Ref(a))
	}
	ls := leaves(c, asserts)
	var gv []string
	for _, l := range ls {
		gv = append(gv, term.Ref(l))
	}
	type ans struct {
		r    Result
		vals string
		k    string
		err  error
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan ans, len(kinds))
	for _, k := range kinds {
		go func(k string) {
			r, v, e := RawOneShotCtx(ctx, k, sb.String(), gv, timeout)
			ch <- ans{r, v, k, e}
		}(k)
	}
	var last ans
	for range kinds {
		a := <-ch
		if a.r != Unknown {
			var m *term.Model
			if a.r == Sat {
				m = toModel(ls, a.vals)
			}
			return a.r, m, a.k, nil
		}
		last = a
	}
	return Unknown, nil, "", last.err
}

// Session is a persistent incremental z3 process.
type Session struct {
	c   *term.Ctx
	em  *term.Emitter
	cmd *exec.Cmd
	in  io.WriteCloser
	rd  *bufio.Reader
	dead bool
}

func NewSession(c *term.Ctx) *Session {
	s := &Session{c: c}
	s.start()
	return s
}

func (s *Session) start() {
	s.em = term.NewEmitter(s.c)
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.rd = bufio.NewReaderSize(o, 1<<16)
	s.dead = s.cmd.Start() != nil
}

func (s *Session) Close() {
	if s.in != nil {
		s.in.Close()
	}
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Session) restart() {
	s.Close()
	s.start()
}

// Check decides the conjunction.
func (s *Session) Check(asserts []*term.Term, timeout time.Duration, wantModel bool) (Result, *term.Model) {
	if s.dead {
		s.restart()
	}
	var sb strings.Builder
	s.em.Emit(&sb, asserts...)
	fmt.Fprintf(&sb, "(set-option :timeout %d)\n(push)\n", int(timeout/time.Millisecond))
	for _, a := range asserts {
		fmt.Fprintf(&sb, "(assert (= %s #b1))\n", term.Ref(a))
	}
	sb.WriteString("(check-sat)\n")
	t0 := time.Now()
	timer := time.AfterFunc(timeout+10*time.Second, func() { s.cmd.Process.Kill() })
	defer timer.Stop()
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.dead = true
		return Unknown, nil
	}
	line, err := s.rd.ReadString('\n')
	if err != nil {
		s.dead = true
		account(Unknown, time.Since(t0))
		return Unknown, nil
	}
	line = strings.TrimSpace(line)
	res := Unknown
	switch line {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	case "unknown":
	default:
		s.dead = true
		account(Unknown, time.Since(t0))
		return Unknown, nil
	}
	account(res, time.Since(t0))
	var m *term.Model
	if res == Sat && wantModel {
		ls := leaves(s.c, asserts)
		if len(ls) == 0 {
			m = &term.Model{V: map[int32]uint64{}}
		} else {
			var qs strings.Builder
			qs.WriteString("(get-value (")
			for _, g := range ls {
				qs.WriteString(term.Ref(g))
				qs.WriteByte(' ')
			}
			qs.WriteString("))\n(echo \"@@done\")\n")
			io.WriteString(s.in, qs.String())
			var vb strings.Builder
			for {
				l, err := s.rd.ReadString('\n')
				if err != nil {
					s.dead = true
					break
				}
				if strings.HasPrefix(strings.TrimSpace(l), "@@done") {
					break
				}
				vb.WriteString(l)
			}
			m = toModel(ls, vb.String())
		}
	}
	if !s.dead {
		io.WriteString(s.in, "(pop)\n")
	}
	return res, m
}
