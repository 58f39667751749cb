package sym

import "verifengine/term"

// ctState records secret variables for the constant-time analysis.
type ctState struct {
	secret map[int32]bool // variable ids
	open   map[int32]bool // declassified terms
	Seen   map[string]bool
}

func newCT() *ctState {
	return &ctState{secret: map[int32]bool{}, open: map[int32]bool{}, Seen: map[string]bool{}}
}

func (m *Machine) markSecret(ts []*term.Term) {
	if m.CT == nil {
		return
	}
	for _, t := range ts {
		m.CT.secret[t.ID] = true
	}
}

func (m *Machine) declassify(ts []*term.Term) {
	if m.CT == nil {
		return
	}
	for _, t := range ts {
		m.CT.open[t.ID] = true
	}
}

func (m *Machine) ctAddr(t *term.Term)   {}
func (m *Machine) ctBranch(t *term.Term) {}
func (m *Machine) ctDiv(a, b *term.Term) {}
