package term

import (
	"fmt"
	"strings"
)

func bvc(v uint64, w uint8) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w/4), v)
	}
	return fmt.Sprintf("#b%0*b", int(w), v)
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Tok"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func q(n string) string { return "|" + strings.ReplaceAll(n, "|", "_") + "|" }

// Ref is the SMT name of a term.
func Ref(t *Term) string {
	switch t.Op {
	case Const:
		return bvc(t.K, t.W)
	case Var:
		return q(fmt.Sprintf("%s:%d", t.Name, t.W))
	}
	return fmt.Sprintf("t%d", t.ID)
}

// Emitter writes declarations of terms needed, incrementally.
type Emitter struct {
	C    *Ctx
	Done map[int32]bool
	ufd  map[string]bool
	tok  bool
	tabd map[uint64]bool
	// Cut: terms treated as free variables
	Cut map[int32]bool
}

func NewEmitter(c *Ctx) *Emitter {
	return &Emitter{C: c, Done: map[int32]bool{}, ufd: map[string]bool{}, tabd: map[uint64]bool{}}
}

// Emit writes the declarations for roots to sb.
func (e *Emitter) Emit(sb *strings.Builder, roots ...*Term) {
	var stack []*Term
	for _, r := range roots {
		stack = append(stack[:0], r)
		for len(stack) > 0 {
			x := stack[len(stack)-1]
			if e.Done[x.ID] {
				stack = stack[:len(stack)-1]
				continue
			}
			ready := true
			if !e.Cut[x.ID] {
				for _, a := range x.Args {
					if !e.Done[a.ID] {
						stack = append(stack, a)
						ready = false
					}
				}
			}
			if !ready {
				continue
			}
			stack = stack[:len(stack)-1]
			e.Done[x.ID] = true
			e.one(sb, x)
		}
	}
}

func (e *Emitter) one(sb *strings.Builder, t *Term) {
	if t.W == 0 && !e.tok {
		sb.WriteString("(declare-sort Tok 0)\n")
		e.tok = true
	}
	if e.Cut[t.ID] && t.Op != Const && t.Op != Var {
		fmt.Fprintf(sb, "(declare-const %s %s)\n", Ref(t), sortOf(t.W))
		return
	}
	r := func(i int) string { return Ref(t.Args[i]) }
	switch t.Op {
	case Const:
		return
	case Var:
		fmt.Fprintf(sb, "(declare-const %s %s)\n", Ref(t), sortOf(t.W))
		return
	case UF:
		var as strings.Builder
		for i, a := range t.Args {
			if i > 0 {
				as.WriteByte(' ')
			}
			as.WriteString(sortOf(a.W))
		}
		sig := fmt.Sprintf("%s/%d(%s)", t.Name, t.W, as.String())
		if !e.ufd[sig] {
			e.ufd[sig] = true
			fmt.Fprintf(sb, "(declare-fun %s (%s) %s)\n", q("uf_"+sig), as.String(), sortOf(t.W))
		}
		if len(t.Args) == 0 {
			fmt.Fprintf(sb, "(define-fun %s () %s %s)\n", Ref(t), sortOf(t.W), q("uf_"+sig))
			return
		}
		fmt.Fprintf(sb, "(define-fun %s () %s (%s", Ref(t), sortOf(t.W), q("uf_"+sig))
		for i := range t.Args {
			sb.WriteByte(' ')
			sb.WriteString(r(i))
		}
		sb.WriteString("))\n")
		return
	}
	fmt.Fprintf(sb, "(define-fun %s () %s ", Ref(t), sortOf(t.W))
	switch t.Op {
	case Add:
		fmt.Fprintf(sb, "(bvadd %s %s)", r(0), r(1))
	case Sub:
		fmt.Fprintf(sb, "(bvsub %s %s)", r(0), r(1))
	case Mul:
		fmt.Fprintf(sb, "(bvmul %s %s)", r(0), r(1))
	case MulHi:
		fmt.Fprintf(sb, "((_ extract 127 64) (bvmul ((_ zero_extend 64) %s) ((_ zero_extend 64) %s)))", r(0), r(1))
	case Adc:
		fmt.Fprintf(sb, "(bvadd %s %s ((_ zero_extend %d) %s))", r(0), r(1), t.W-1, r(2))
	case AdcC:
		fmt.Fprintf(sb, "((_ extract %d %d) (bvadd ((_ zero_extend 1) %s) ((_ zero_extend 1) %s) ((_ zero_extend %d) %s)))", t.K, t.K, r(0), r(1), t.K, r(2))
	case Sbb:
		fmt.Fprintf(sb, "(bvsub (bvsub %s %s) ((_ zero_extend %d) %s))", r(0), r(1), t.W-1, r(2))
	case SbbB:
		fmt.Fprintf(sb, "((_ extract %d %d) (bvsub (bvsub ((_ zero_extend 1) %s) ((_ zero_extend 1) %s)) ((_ zero_extend %d) %s)))", t.K, t.K, r(0), r(1), t.K, r(2))
	case And:
		fmt.Fprintf(sb, "(bvand %s %s)", r(0), r(1))
	case Or:
		fmt.Fprintf(sb, "(bvor %s %s)", r(0), r(1))
	case Xor:
		fmt.Fprintf(sb, "(bvxor %s %s)", r(0), r(1))
	case Not:
		fmt.Fprintf(sb, "(bvnot %s)", r(0))
	case Shl:
		fmt.Fprintf(sb, "(bvshl %s %s)", r(0), r(1))
	case Lshr:
		fmt.Fprintf(sb, "(bvlshr %s %s)", r(0), r(1))
	case Ashr:
		fmt.Fprintf(sb, "(bvashr %s %s)", r(0), r(1))
	case UDiv:
		fmt.Fprintf(sb, "(bvudiv %s %s)", r(0), r(1))
	case URem:
		fmt.Fprintf(sb, "(bvurem %s %s)", r(0), r(1))
	case SDiv:
		fmt.Fprintf(sb, "(bvsdiv %s %s)", r(0), r(1))
	case SRem:
		fmt.Fprintf(sb, "(bvsrem %s %s)", r(0), r(1))
	case Extract:
		fmt.Fprintf(sb, "((_ extract %d %d) %s)", t.K+uint64(t.W)-1, t.K, r(0))
	case Concat:
		fmt.Fprintf(sb, "(concat %s %s)", r(0), r(1))
	case SExt:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", t.W-t.Args[0].W, r(0))
	case Eq:
		fmt.Fprintf(sb, "(ite (= %s %s) #b1 #b0)", r(0), r(1))
	case Ult:
		fmt.Fprintf(sb, "(ite (bvult %s %s) #b1 #b0)", r(0), r(1))
	case Slt:
		fmt.Fprintf(sb, "(ite (bvslt %s %s) #b1 #b0)", r(0), r(1))
	case Ite:
		fmt.Fprintf(sb, "(ite (= %s #b1) %s %s)", r(0), r(1), r(2))
	case Tab:
		tb := e.C.Tables[t.K]
		iw := t.Args[0].W
		// balanced binary decision tree over index bits
		sb.WriteString(e.tabExpr(tb, r(0), iw, 0, int(iw)-1))
	default:
		panic("smt " + t.Op.String())
	}
	sb.WriteString(")\n")
}

func (e *Emitter) tabExpr(tb *Table, idx string, iw uint8, base uint64, bit int) string {
	if base >= uint64(len(tb.Data)) {
		return bvc(0, tb.W)
	}
	if bit < 0 {
		return bvc(tb.Data[base], tb.W)
	}
	l := e.tabExpr(tb, idx, iw, base, bit-1)
	h := e.tabExpr(tb, idx, iw, base|1<<uint(bit), bit-1)
	if l == h {
		return l
	}
	return fmt.Sprintf("(ite (= ((_ extract %d %d) %s) #b1) %s %s)", bit, bit, idx, h, l)
}
