// Package sym executes Go SSA (and, for assembly functions, amd64 machine code)
// symbolically.
package sym

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verifengine/term"
)

type Value interface{}

// Object is a memory object of fixed size.
type Object struct {
	ID    int
	Name  string
	Cells []Cell
	Base  uint64
	Owner *Machine // machine whose path may write in place; base objects belong to the base machine
	Kind  string
}

// Cell is one byte of memory: byte I of T, or part I of the opaque value V, or zero.
type Cell struct {
	T *term.Term
	V Value
	I uint8
	N uint8 // size of the opaque value in bytes
}

type Ptr struct {
	Obj *Object
	Off int64
	// symbolic element selection: address = Off + Sym*Stride, Sym < Count
	Sym    *term.Term
	Stride int64
	Count  int64
}

func (p Ptr) IsNil() bool { return p.Obj == nil }

type Slice struct {
	P        Ptr
	Len, Cap int64
}

type Str string

// Sstr is a string with symbolic contents.
type Iface struct {
	T types.Type
	V Value
}

type Closure struct {
	Fn   *ssa.Function
	Bind []Value
}

type BuiltinFn struct{ Name string }

type Agg struct {
	Cells []Cell
	T     types.Type
}

type Tuple []Value

type MapObj struct {
	ID    int
	M     map[string]Value
	Keys  []Value
	Owner *Machine
}

type mapRef struct{ M *MapObj }

type rangeIter struct {
	keys []Value
	m    *MapObj
	i    int
	str  []rune
}

type GoPanic struct {
	Val   Value
	Msg   string
	Where string
}

type pathEnd struct{ why string } // assumption failed / infeasible

type unsupported struct{ msg string }

func (u unsupported) Error() string { return u.msg }

func fail(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}
