package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is an interpreted Go value. Its dynamic type is one of
//
//	*Term      bool, integers, uintptr, floats (IEEE bits)
//	*Str       strings
//	*Value     pointers (nil pointer: (*Value)(nil))
//	Struct, Array
//	*Slice     (nil slice: Nil flag)
//	*MapV      (nil map: (*MapV)(nil))
//	Iface      interfaces
//	*Closure   functions (nil: (*Closure)(nil))
//	*Chan      channels
//	Tuple      multiple results
//	UPtr       unsafe.Pointer
//	*Host      opaque host object
//	Complex
type Value any

// Struct is a struct value; cells are addressable.
type Struct []Value

// Array is an array value.
type Array []Value

// Tuple is a multi-value.
type Tuple []Value

// Ptr is a pointer value.
type Ptr = *Value

// UPtr is an unsafe.Pointer.
type UPtr struct{ v Value }

// Host is an opaque host object.
type Host struct{ v any }

// Complex is a complex number (concrete only).
type Complex complex128

// Str is a string: concrete s if b == nil, else symbolic bytes b.
type Str struct {
	s string
	b []*Term
}

var emptyStr = &Str{}

func mkStr(s string) *Str { return &Str{s: s} }

func strOfTerms(b []*Term) *Str {
	conc := true
	for _, t := range b {
		if !t.isConst() {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i, t := range b {
			bs[i] = byte(t.val)
		}
		return &Str{s: string(bs)}
	}
	return &Str{b: b}
}

func (s *Str) conc() bool { return s.b == nil }
func (s *Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}
func (s *Str) at(i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return BV(8, uint64(s.s[i]))
}
func (s *Str) terms() []*Term {
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = BV(8, uint64(s.s[i]))
	}
	return r
}
func (s *Str) sub(lo, hi int) *Str {
	if s.b != nil {
		return strOfTerms(s.b[lo:hi])
	}
	return mkStr(s.s[lo:hi])
}
func (s *Str) String() string {
	if s.b == nil {
		return fmt.Sprintf("%q", s.s)
	}
	var sb strings.Builder
	sb.WriteString("sym\"")
	for _, t := range s.b {
		if t.isConst() {
			sb.WriteByte(byte(t.val))
		} else {
			sb.WriteString("{" + t.str(2) + "}")
		}
	}
	sb.WriteString("\"")
	return sb.String()
}

func concatStr(a, b *Str) *Str {
	if a.conc() && b.conc() {
		return mkStr(a.s + b.s)
	}
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	r := make([]*Term, 0, a.Len()+b.Len())
	r = append(r, a.terms()...)
	r = append(r, b.terms()...)
	return strOfTerms(r)
}

func eqStr(a, b *Str) *Term {
	if a.Len() != b.Len() {
		return TFalse
	}
	if a.conc() && b.conc() {
		return B(a.s == b.s)
	}
	r := TTrue
	for i := 0; i < a.Len(); i++ {
		r = And(r, Eq(a.at(i), b.at(i)))
		if r == TFalse {
			return r
		}
	}
	return r
}

// ltStr is a < b (or <= if orEq).
func ltStr(a, b *Str, orEq bool) *Term {
	if a.conc() && b.conc() {
		if orEq {
			return B(a.s <= b.s)
		}
		return B(a.s < b.s)
	}
	n := a.Len()
	if b.Len() < n {
		n = b.Len()
	}
	var tail *Term
	if orEq {
		tail = B(a.Len() <= b.Len())
	} else {
		tail = B(a.Len() < b.Len())
	}
	for i := n - 1; i >= 0; i-- {
		x, y := a.at(i), b.at(i)
		tail = Or(Cmp(OpUlt, x, y), And(Eq(x, y), tail))
	}
	return tail
}

// Slice is a slice value. arr has Go len/cap semantics.
type Slice struct {
	arr []Value
	Nil bool
}

var nilSlice = &Slice{Nil: true}

// Iface is an interface value.
type Iface struct {
	T types.Type
	V Value
}

// Closure is a function value.
type Closure struct {
	fn   *ssa.Function
	free []Value
	nat  func(m *Machine, args []Value) Value
	name string
	bi   *ssa.Builtin
	recv Value // bound receiver for native reflect method values
}

type mapEntry struct {
	k, v    Value
	deleted bool
	conc    bool
	ks      string
}

// MapV is a map.
type MapV struct {
	entries []*mapEntry
	idx     map[string]*mapEntry
	live    int
	nsym    int
	keyT    types.Type
}

// ---- zero values ----

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	panic("deref of " + t.String())
}

func basicWidth(b *types.Basic) uint8 {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.Float64, types.UntypedInt, types.UntypedFloat:
		return 64
	}
	panic("basicWidth " + b.String())
}

func isSigned(b *types.Basic) bool {
	return b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return emptyStr
		case u.Kind() == types.UnsafePointer:
			return UPtr{Ptr(nil)}
		case u.Kind() == types.UntypedNil:
			return Iface{}
		case u.Info()&types.IsComplex != 0:
			return Complex(0)
		case u.Kind() == types.Invalid:
			return nil
		}
		w := basicWidth(u)
		if w == 0 {
			return TFalse
		}
		return BV(w, 0)
	case *types.Pointer:
		return Ptr(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		if len(a) > 0 {
			z := zero(u.Elem())
			_, isS := z.(Struct)
			_, isA := z.(Array)
			for i := range a {
				if (isS || isA) && i > 0 {
					a[i] = zero(u.Elem())
				} else {
					a[i] = z
				}
			}
		}
		return a
	case *types.Slice:
		return nilSlice
	case *types.Map:
		return (*MapV)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Tuple:
		tu := make(Tuple, u.Len())
		for i := range tu {
			tu[i] = zero(u.At(i).Type())
		}
		return tu
	}
	panic(fmt.Sprintf("zero: %v (%T)", t, t.Underlying()))
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		r := make(Struct, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	}
	return v
}

func storeInto(dst *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		d, ok := (*dst).(Struct)
		if !ok || len(d) != len(x) {
			*dst = copyVal(v)
			return
		}
		for i := range x {
			storeInto(&d[i], x[i])
		}
		return
	case Array:
		d, ok := (*dst).(Array)
		if !ok || len(d) != len(x) {
			*dst = copyVal(v)
			return
		}
		for i := range x {
			storeInto(&d[i], x[i])
		}
		return
	}
	*dst = v
}

func floatOf(t *Term) float64 {
	if t.w == 32 {
		return float64(math.Float32frombits(uint32(t.val)))
	}
	return math.Float64frombits(t.val)
}

func mkFloat(w uint8, f float64) *Term {
	if w == 32 {
		return BV(32, uint64(math.Float32bits(float32(f))))
	}
	return BV(64, math.Float64bits(f))
}

// termOf asserts that v is a scalar.
func termOf(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		panic(fmt.Sprintf("termOf: %T", v))
	}
	return t
}
