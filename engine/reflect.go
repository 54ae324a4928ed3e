package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// RType is an emulated *reflect.rtype.
type RType struct{ t types.Type }

// RV is an emulated reflect.Value.
type RV struct {
	t  types.Type
	v  Value // if p == nil
	p  Ptr
	ro bool
	fn *Closure // method value
}

func (r *RV) val() Value {
	if r.p != nil {
		return *r.p
	}
	return r.v
}

func (e *Engine) rtype(t types.Type) *RType {
	t = types.Unalias(t)
	e.typeMu.Lock()
	defer e.typeMu.Unlock()
	if v := e.rtypes.At(t); v != nil {
		return v.(*RType)
	}
	r := &RType{t}
	e.rtypes.Set(t, r)
	return r
}

func (e *Engine) rtypeIface(t types.Type) Value {
	if t == nil {
		return Iface{}
	}
	rp := e.byPath["reflect"]
	if rp == nil {
		return Iface{T: types.NewPointer(types.Typ[types.Int]), V: e.rtype(t)}
	}
	e.typeMu.Lock()
	pt := e.rtypePtr
	if pt == nil {
		pt = types.NewPointer(rp.Type("rtype").Type())
		e.rtypePtr = pt
	}
	e.typeMu.Unlock()
	return Iface{T: pt, V: e.rtype(t)}
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Struct:
		return reflect.Struct
	case *types.Array:
		return reflect.Array
	case *types.Slice:
		return reflect.Slice
	case *types.Map:
		return reflect.Map
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func mkRV(r *RV) Value {
	if r == nil {
		return Struct{Ptr(nil), UPtr{Ptr(nil)}, BV(64, 0)}
	}
	return Struct{r, UPtr{Ptr(nil)}, BV(64, 0)}
}

func getRV(v Value) *RV {
	r, _ := v.(Struct)[0].(*RV)
	return r
}

func (m *Machine) rvPanic(msg string) {
	panic(targetPanic{v: m.runtimeError("reflect: " + msg)})
}

func (m *Machine) needRV(v Value, op string) *RV {
	r := getRV(v)
	if r == nil {
		m.rvPanic("call of reflect.Value." + op + " on zero Value")
	}
	return r
}

func (m *Machine) mkStructField(st *types.Struct, i int) Value {
	f := st.Field(i)
	pp := ""
	if !f.Exported() {
		pp = f.Pkg().Path()
	}
	return Struct{mkStr(f.Name()), mkStr(pp), m.eng.rtypeIface(f.Type()), mkStr(st.Tag(i)), BV(64, uint64(i*8)),
		&Slice{arr: []Value{BV(64, uint64(i))}}, B(f.Anonymous())}
}

func (m *Machine) rvIface(r *RV) Value {
	if r.fn != nil {
		return Iface{T: r.t, V: r.fn}
	}
	v := copyVal(r.val())
	if _, ok := r.t.Underlying().(*types.Interface); ok {
		return v
	}
	return Iface{T: r.t, V: v}
}

// assignRV prepares value r for storage in a location of type t.
func (m *Machine) assignRV(r *RV, t types.Type) Value {
	_, di := t.Underlying().(*types.Interface)
	_, si := r.t.Underlying().(*types.Interface)
	if di && !si {
		return Iface{T: r.t, V: copyVal(r.val())}
	}
	return copyVal(r.val())
}

func (m *Machine) rvField(r *RV, i int) *RV {
	st, ok := r.t.Underlying().(*types.Struct)
	if !ok {
		m.rvPanic("Field of non-struct " + r.t.String())
	}
	f := st.Field(i)
	n := &RV{t: f.Type(), ro: r.ro || !f.Exported()}
	s := r.val().(Struct)
	if r.p != nil {
		n.p = &s[i]
	} else {
		n.v = s[i]
	}
	return n
}

func fieldByName(t types.Type, name string) ([]int, *types.Struct, bool) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, nil, false
	}
	// breadth-first over embedded structs
	type node struct {
		st  *types.Struct
		idx []int
	}
	level := []node{{st, nil}}
	for len(level) > 0 {
		var next []node
		var found []int
		var fst *types.Struct
		cnt := 0
		for _, n := range level {
			for i := 0; i < n.st.NumFields(); i++ {
				f := n.st.Field(i)
				idx := append(append([]int{}, n.idx...), i)
				if f.Name() == name {
					cnt++
					found, fst = idx, n.st
					continue
				}
				if f.Anonymous() {
					ft := f.Type()
					if p, ok := ft.Underlying().(*types.Pointer); ok {
						ft = p.Elem()
					}
					if s, ok := ft.Underlying().(*types.Struct); ok {
						next = append(next, node{s, idx})
					}
				}
			}
		}
		if cnt == 1 {
			return found, fst, true
		}
		if cnt > 1 {
			return nil, nil, false
		}
		level = next
	}
	return nil, nil, false
}

func (m *Machine) rvElem(r *RV) *RV {
	switch x := r.val().(type) {
	case Ptr:
		if x == nil {
			return nil
		}
		return &RV{t: deref(r.t), p: x, ro: r.ro}
	case Iface:
		if x.T == nil {
			return nil
		}
		return &RV{t: x.T, v: x.V, ro: r.ro}
	}
	m.rvPanic("Elem of " + r.t.String())
	return nil
}

func (m *Machine) isZeroTerm(t types.Type, v Value) *Term {
	switch x := v.(type) {
	case *Term:
		return Eq(x, BVz(x.w))
	case *Str:
		return B(x.Len() == 0)
	case Ptr:
		return B(x == nil)
	case *Slice:
		return B(x.Nil)
	case *MapV:
		return B(x == nil)
	case Iface:
		return B(x.T == nil)
	case *Closure:
		return B(x == nil)
	case *Chan:
		return B(x == nil)
	case UPtr:
		p, ok := x.v.(Ptr)
		return B(ok && p == nil)
	case Struct:
		st := t.Underlying().(*types.Struct)
		r := TTrue
		for i := range x {
			r = And(r, m.isZeroTerm(st.Field(i).Type(), x[i]))
		}
		return r
	case Array:
		r := TTrue
		et := t.Underlying().(*types.Array).Elem()
		for i := range x {
			r = And(r, m.isZeroTerm(et, x[i]))
		}
		return r
	case *RType:
		return TFalse
	}
	m.unsupported("isZero %T", v)
	return nil
}

// BVz is the zero of a width (0 = bool).
func BVz(w uint8) *Term {
	if w == 0 {
		return TFalse
	}
	return BV(w, 0)
}

func (m *Machine) deepEq(t types.Type, x, y Value, d int) *Term {
	if d > 60 {
		m.unsupported("DeepEqual too deep")
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		a, b := x.(Ptr), y.(Ptr)
		if a == b {
			return TTrue
		}
		if a == nil || b == nil {
			return TFalse
		}
		return m.deepEq(u.Elem(), *a, *b, d+1)
	case *types.Struct:
		a, b := x.(Struct), y.(Struct)
		r := TTrue
		for i := range a {
			r = And(r, m.deepEq(u.Field(i).Type(), a[i], b[i], d+1))
			if r == TFalse {
				return r
			}
		}
		return r
	case *types.Array:
		a, b := x.(Array), y.(Array)
		r := TTrue
		for i := range a {
			r = And(r, m.deepEq(u.Elem(), a[i], b[i], d+1))
		}
		return r
	case *types.Slice:
		a, b := x.(*Slice), y.(*Slice)
		if a.Nil != b.Nil || len(a.arr) != len(b.arr) {
			return TFalse
		}
		r := TTrue
		for i := range a.arr {
			r = And(r, m.deepEq(u.Elem(), a.arr[i], b.arr[i], d+1))
		}
		return r
	case *types.Map:
		a, b := x.(*MapV), y.(*MapV)
		if (a == nil) != (b == nil) {
			return TFalse
		}
		if a == nil || a == b {
			return TTrue
		}
		if a.live != b.live {
			return TFalse
		}
		r := TTrue
		for _, e := range a.entries {
			if e.deleted {
				continue
			}
			f := m.mapFind(b, e.k)
			if f == nil {
				return TFalse
			}
			r = And(r, m.deepEq(u.Elem(), e.v, f.v, d+1))
		}
		return r
	case *types.Interface:
		a, b := x.(Iface), y.(Iface)
		if a.T == nil || b.T == nil {
			return B(a.T == nil && b.T == nil)
		}
		if !types.Identical(a.T, b.T) {
			return TFalse
		}
		return m.deepEq(a.T, a.V, b.V, d+1)
	case *types.Signature:
		a, b := x.(*Closure), y.(*Closure)
		return B(a == nil && b == nil)
	}
	return m.eq(t, x, y)
}

func registerReflect(e *Engine) {
	type A = []Value
	fun := func(n string, f func(m *Machine, a A) Value) {
		w := func(m *Machine, fr *Frame, fn *ssa.Function, args []Value) Value { return f(m, args) }
		e.exts["reflect."+n] = w
		e.exts["internal/reflectlite."+n] = w
	}
	rt := func(n string, f func(m *Machine, t types.Type, a A) Value) {
		w := func(m *Machine, fr *Frame, fn *ssa.Function, args []Value) Value {
			r, ok := args[0].(*RType)
			if !ok {
				m.unsupported("rtype receiver %T", args[0])
			}
			return f(m, r.t, args)
		}
		e.exts["(*reflect.rtype)."+n] = w
		e.exts["(internal/reflectlite.rtype)."+n] = w
		e.exts["(*internal/reflectlite.rtype)."+n] = w
	}
	rv := func(n string, f func(m *Machine, r *RV, a A) Value) {
		w := func(m *Machine, fr *Frame, fn *ssa.Function, args []Value) Value {
			return f(m, m.needRV(args[0], n), args)
		}
		e.exts["(reflect.Value)."+n] = w
		e.exts["(internal/reflectlite.Value)."+n] = w
	}
	num := func(n int) Value { return BV(64, uint64(int64(n))) }

	fun("TypeOf", func(m *Machine, a A) Value { return m.eng.rtypeIface(a[0].(Iface).T) })
	fun("ValueOf", func(m *Machine, a A) Value {
		i := a[0].(Iface)
		if i.T == nil {
			return mkRV(nil)
		}
		return mkRV(&RV{t: i.T, v: i.V})
	})
	rtOf := func(v Value) types.Type { return v.(Iface).V.(*RType).t }
	fun("New", func(m *Machine, a A) Value {
		t := rtOf(a[0])
		v := zero(t)
		return mkRV(&RV{t: types.NewPointer(t), v: Ptr(&v)})
	})
	fun("Zero", func(m *Machine, a A) Value { t := rtOf(a[0]); return mkRV(&RV{t: t, v: zero(t)}) })
	fun("Indirect", func(m *Machine, a A) Value {
		r := getRV(a[0])
		if r != nil && kindOf(r.t) == reflect.Pointer {
			return mkRV(m.rvElem(r))
		}
		return a[0]
	})
	fun("MakeSlice", func(m *Machine, a A) Value {
		t := rtOf(a[0])
		return mkRV(&RV{t: t, v: m.makeSlice(t.Underlying().(*types.Slice).Elem(), m.concInt(a[1]), m.concInt(a[2]))})
	})
	mm := func(m *Machine, a A) Value {
		t := rtOf(a[0])
		return mkRV(&RV{t: t, v: newMap(t.Underlying().(*types.Map).Key())})
	}
	fun("MakeMap", mm)
	fun("MakeMapWithSize", mm)
	ptrTo := func(m *Machine, a A) Value { return m.eng.rtypeIface(types.NewPointer(rtOf(a[0]))) }
	fun("PointerTo", ptrTo)
	fun("PtrTo", ptrTo)
	fun("SliceOf", func(m *Machine, a A) Value { return m.eng.rtypeIface(types.NewSlice(rtOf(a[0]))) })
	fun("MapOf", func(m *Machine, a A) Value { return m.eng.rtypeIface(types.NewMap(rtOf(a[0]), rtOf(a[1]))) })
	fun("DeepEqual", func(m *Machine, a A) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		if x.T == nil || y.T == nil {
			return B(x.T == nil && y.T == nil)
		}
		if !types.Identical(x.T, y.T) {
			return TFalse
		}
		return m.deepEq(x.T, x.V, y.V, 0)
	})
	fun("Copy", func(m *Machine, a A) Value {
		d, s := getRV(a[0]), getRV(a[1])
		dv := m.elems(d.val())
		var sv []Value
		if st, ok := s.val().(*Str); ok {
			for _, t := range st.terms() {
				sv = append(sv, t)
			}
		} else {
			sv = m.elems(s.val())
		}
		n := len(dv)
		if len(sv) < n {
			n = len(sv)
		}
		for i := 0; i < n; i++ {
			storeOver(&dv[i], copyVal(sv[i]))
		}
		return num(n)
	})
	fun("Append", func(m *Machine, a A) Value {
		s := getRV(a[0])
		sl := s.val().(*Slice)
		et := s.t.Underlying().(*types.Slice).Elem()
		na := append([]Value{}, sl.arr...)
		for _, x := range a[1].(*Slice).arr {
			na = append(na, m.assignRV(getRV(x), et))
		}
		return mkRV(&RV{t: s.t, v: &Slice{arr: na}})
	})
	fun("Swapper", func(m *Machine, a A) Value {
		sl := a[0].(Iface).V.(*Slice)
		return &Closure{name: "swapper", nat: func(m *Machine, x []Value) Value {
			i, j := m.concInt(x[0]), m.concInt(x[1])
			t := copyVal(sl.arr[i])
			storeOver(&sl.arr[i], copyVal(sl.arr[j]))
			storeOver(&sl.arr[j], t)
			return nil
		}}
	})
	e.exts["(reflect.Kind).String"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return mkStr(reflect.Kind(a[0].(*Term).val).String())
	}

	// ---- Type ----
	rt("Kind", func(m *Machine, t types.Type, a A) Value {
		return BV(64, uint64(kindOf(t)))
	})
	e.exts["(internal/reflectlite.rtype).Kind"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return BV(8, uint64(kindOf(a[0].(*RType).t)))
	}
	rt("Elem", func(m *Machine, t types.Type, a A) Value {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return m.eng.rtypeIface(u.Elem())
		case *types.Slice:
			return m.eng.rtypeIface(u.Elem())
		case *types.Array:
			return m.eng.rtypeIface(u.Elem())
		case *types.Map:
			return m.eng.rtypeIface(u.Elem())
		case *types.Chan:
			return m.eng.rtypeIface(u.Elem())
		}
		m.rvPanic("Elem of invalid type " + t.String())
		return nil
	})
	rt("Key", func(m *Machine, t types.Type, a A) Value { return m.eng.rtypeIface(t.Underlying().(*types.Map).Key()) })
	rt("Len", func(m *Machine, t types.Type, a A) Value { return num(int(t.Underlying().(*types.Array).Len())) })
	rt("String", func(m *Machine, t types.Type, a A) Value { return mkStr(typeStr(t)) })
	rt("Name", func(m *Machine, t types.Type, a A) Value {
		switch x := types.Unalias(t).(type) {
		case *types.Named:
			s := typeStr(x)
			if i := strings.IndexByte(s, '.'); i >= 0 && x.TypeArgs().Len() == 0 {
				s = s[i+1:]
			}
			return mkStr(s)
		case *types.Basic:
			return mkStr(x.Name())
		}
		return emptyStr
	})
	rt("PkgPath", func(m *Machine, t types.Type, a A) Value {
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return mkStr(n.Obj().Pkg().Path())
		}
		return emptyStr
	})
	rt("NumField", func(m *Machine, t types.Type, a A) Value { return num(t.Underlying().(*types.Struct).NumFields()) })
	rt("Field", func(m *Machine, t types.Type, a A) Value {
		return m.mkStructField(t.Underlying().(*types.Struct), m.concInt(a[1]))
	})
	rt("FieldByName", func(m *Machine, t types.Type, a A) Value {
		idx, st, ok := fieldByName(t, m.concStr(a[1]))
		if !ok {
			return Tuple{zero(m.eng.byPath["reflect"].Type("StructField").Type()), TFalse}
		}
		sf := m.mkStructField(st, idx[len(idx)-1]).(Struct)
		var ia []Value
		for _, i := range idx {
			ia = append(ia, num(i))
		}
		sf[5] = &Slice{arr: ia}
		return Tuple{sf, TTrue}
	})
	rt("NumMethod", func(m *Machine, t types.Type, a A) Value {
		n := 0
		if it, ok := t.Underlying().(*types.Interface); ok {
			return num(it.NumMethods())
		}
		ms := m.eng.msets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return num(n)
	})
	sig := func(m *Machine, t types.Type, op string) *types.Signature {
		s, ok := t.Underlying().(*types.Signature)
		if !ok {
			m.rvPanic(op + " of non-func type " + t.String())
		}
		return s
	}
	rt("NumIn", func(m *Machine, t types.Type, a A) Value { return num(sig(m, t, "NumIn").Params().Len()) })
	rt("NumOut", func(m *Machine, t types.Type, a A) Value { return num(sig(m, t, "NumOut").Results().Len()) })
	rt("In", func(m *Machine, t types.Type, a A) Value {
		return m.eng.rtypeIface(sig(m, t, "In").Params().At(m.concInt(a[1])).Type())
	})
	rt("Out", func(m *Machine, t types.Type, a A) Value {
		return m.eng.rtypeIface(sig(m, t, "Out").Results().At(m.concInt(a[1])).Type())
	})
	rt("IsVariadic", func(m *Machine, t types.Type, a A) Value { return B(sig(m, t, "IsVariadic").Variadic()) })
	rt("Implements", func(m *Machine, t types.Type, a A) Value {
		return B(types.Implements(t, rtOf(a[1]).Underlying().(*types.Interface)))
	})
	rt("AssignableTo", func(m *Machine, t types.Type, a A) Value { return B(types.AssignableTo(t, rtOf(a[1]))) })
	rt("ConvertibleTo", func(m *Machine, t types.Type, a A) Value { return B(types.ConvertibleTo(t, rtOf(a[1]))) })
	rt("Comparable", func(m *Machine, t types.Type, a A) Value { return B(types.Comparable(t)) })
	rt("Size", func(m *Machine, t types.Type, a A) Value {
		return BV(64, uint64(types.SizesFor("gc", "amd64").Sizeof(t)))
	})
	rt("Bits", func(m *Machine, t types.Type, a A) Value { return num(int(basicWidth(t.Underlying().(*types.Basic)))) })

	// ---- Value ----
	valFn := func(n string, f func(m *Machine, a A) Value) {
		w := func(m *Machine, fr *Frame, fn *ssa.Function, args []Value) Value { return f(m, args) }
		e.exts["(reflect.Value)."+n] = w
		e.exts["(internal/reflectlite.Value)."+n] = w
	}
	valFn("IsValid", func(m *Machine, a A) Value { return B(getRV(a[0]) != nil) })
	valFn("Kind", func(m *Machine, a A) Value {
		r := getRV(a[0])
		if r == nil {
			return BV(64, 0)
		}
		return BV(64, uint64(kindOf(r.t)))
	})
	valFn("String", func(m *Machine, a A) Value {
		r := getRV(a[0])
		if r == nil {
			return mkStr("<invalid Value>")
		}
		if s, ok := r.val().(*Str); ok {
			return s
		}
		return mkStr("<" + typeStr(r.t) + " Value>")
	})
	rv("Type", func(m *Machine, r *RV, a A) Value { return m.eng.rtypeIface(r.t) })
	rv("Interface", func(m *Machine, r *RV, a A) Value {
		if r.ro {
			m.rvPanic("Interface on unexported field")
		}
		return m.rvIface(r)
	})
	rv("CanInterface", func(m *Machine, r *RV, a A) Value { return B(!r.ro) })
	rv("CanAddr", func(m *Machine, r *RV, a A) Value { return B(r.p != nil) })
	rv("CanSet", func(m *Machine, r *RV, a A) Value { return B(r.p != nil && !r.ro) })
	rv("Addr", func(m *Machine, r *RV, a A) Value {
		if r.p == nil {
			m.rvPanic("Addr of unaddressable value")
		}
		return mkRV(&RV{t: types.NewPointer(r.t), v: r.p, ro: r.ro})
	})
	rv("Elem", func(m *Machine, r *RV, a A) Value { return mkRV(m.rvElem(r)) })
	rv("IsNil", func(m *Machine, r *RV, a A) Value {
		switch x := r.val().(type) {
		case Ptr:
			return B(x == nil)
		case *Slice:
			return B(x.Nil)
		case *MapV:
			return B(x == nil)
		case Iface:
			return B(x.T == nil)
		case *Closure:
			return B(x == nil)
		case *Chan:
			return B(x == nil)
		case *RType:
			return TFalse
		}
		m.rvPanic("IsNil on " + r.t.String())
		return nil
	})
	rv("IsZero", func(m *Machine, r *RV, a A) Value { return m.isZeroTerm(r.t, r.val()) })
	rv("NumField", func(m *Machine, r *RV, a A) Value {
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			m.rvPanic("NumField of " + r.t.String())
		}
		return num(st.NumFields())
	})
	rv("Field", func(m *Machine, r *RV, a A) Value { return mkRV(m.rvField(r, m.concInt(a[1]))) })
	rv("FieldByIndex", func(m *Machine, r *RV, a A) Value {
		for _, i := range a[1].(*Slice).arr {
			if kindOf(r.t) == reflect.Pointer {
				r = m.rvElem(r)
			}
			r = m.rvField(r, m.concInt(i))
		}
		return mkRV(r)
	})
	rv("FieldByName", func(m *Machine, r *RV, a A) Value {
		if _, ok := r.t.Underlying().(*types.Struct); !ok {
			m.rvPanic("FieldByName of " + r.t.String())
		}
		idx, _, ok := fieldByName(r.t, m.concStr(a[1]))
		if !ok {
			return mkRV(nil)
		}
		for k, i := range idx {
			if k > 0 && kindOf(r.t) == reflect.Pointer {
				r = m.rvElem(r)
				if r == nil {
					m.rvPanic("nil embedded pointer")
				}
			}
			r = m.rvField(r, i)
		}
		return mkRV(r)
	})
	rv("FieldByIndexErr", func(m *Machine, r *RV, a A) Value {
		for k, i := range a[1].(*Slice).arr {
			if k > 0 && kindOf(r.t) == reflect.Pointer {
				n := m.rvElem(r)
				if n == nil {
					return Tuple{mkRV(nil), m.runtimeError("reflect: indirection through nil pointer to embedded struct field")}
				}
				r = n
			}
			r = m.rvField(r, m.concInt(i))
		}
		return Tuple{mkRV(r), Iface{}}
	})
	rv("Call", func(m *Machine, r *RV, a A) Value {
		s := sig(m, r.t, "Call")
		f := r.fn
		if f == nil {
			f, _ = r.val().(*Closure)
		}
		if f == nil {
			m.rvPanic("call of nil function")
		}
		in := a[1].(*Slice).arr
		n := s.Params().Len()
		fixed := n
		if s.Variadic() {
			fixed--
		}
		if len(in) < fixed || !s.Variadic() && len(in) > n {
			m.rvPanic("Call with wrong number of input arguments")
		}
		pass := func(x Value, t types.Type) Value {
			v := m.needRV(x, "Call")
			if !types.AssignableTo(v.t, t) {
				m.rvPanic("Call using " + v.t.String() + " as type " + t.String())
			}
			return m.assignRV(v, t)
		}
		var args []Value
		for i := 0; i < fixed; i++ {
			args = append(args, pass(in[i], s.Params().At(i).Type()))
		}
		if s.Variadic() {
			et := s.Params().At(fixed).Type().Underlying().(*types.Slice).Elem()
			sl := &Slice{Nil: len(in) == fixed}
			for _, x := range in[fixed:] {
				sl.arr = append(sl.arr, pass(x, et))
			}
			args = append(args, sl)
		}
		out := m.callHost(f, args...)
		res := &Slice{}
		switch s.Results().Len() {
		case 0:
		case 1:
			res.arr = []Value{mkRV(&RV{t: s.Results().At(0).Type(), v: out})}
		default:
			for i, x := range out.(Tuple) {
				res.arr = append(res.arr, mkRV(&RV{t: s.Results().At(i).Type(), v: x}))
			}
		}
		return res
	})
	rv("Len", func(m *Machine, r *RV, a A) Value {
		switch x := r.val().(type) {
		case *Str:
			return num(x.Len())
		case *Slice:
			return num(len(x.arr))
		case Array:
			return num(len(x))
		case *MapV:
			if x == nil {
				return num(0)
			}
			return num(x.live)
		case *Chan:
			return num(len(x.buf))
		}
		m.rvPanic("Len of " + r.t.String())
		return nil
	})
	rv("Cap", func(m *Machine, r *RV, a A) Value {
		switch x := r.val().(type) {
		case *Slice:
			return num(cap(x.arr))
		case Array:
			return num(len(x))
		}
		m.rvPanic("Cap of " + r.t.String())
		return nil
	})
	rv("Index", func(m *Machine, r *RV, a A) Value {
		i := m.concInt(a[1])
		switch x := r.val().(type) {
		case *Str:
			if i < 0 || i >= x.Len() {
				m.rvPanic("string index out of range")
			}
			return mkRV(&RV{t: types.Typ[types.Uint8], v: x.at(i), ro: r.ro})
		case *Slice:
			if i < 0 || i >= len(x.arr) {
				m.rvPanic("slice index out of range")
			}
			return mkRV(&RV{t: r.t.Underlying().(*types.Slice).Elem(), p: &x.arr[i], ro: r.ro})
		case Array:
			if i < 0 || i >= len(x) {
				m.rvPanic("array index out of range")
			}
			n := &RV{t: r.t.Underlying().(*types.Array).Elem(), ro: r.ro}
			if r.p != nil {
				n.p = &x[i]
			} else {
				n.v = x[i]
			}
			return mkRV(n)
		}
		m.rvPanic("Index of " + r.t.String())
		return nil
	})
	rv("MapIndex", func(m *Machine, r *RV, a A) Value {
		mt := r.t.Underlying().(*types.Map)
		mv := r.val().(*MapV)
		k := m.assignRV(getRV(a[1]), mt.Key())
		en := m.mapFind(mv, k)
		if en == nil {
			return mkRV(nil)
		}
		return mkRV(&RV{t: mt.Elem(), v: copyVal(en.v), ro: r.ro})
	})
	rv("MapKeys", func(m *Machine, r *RV, a A) Value {
		mt := r.t.Underlying().(*types.Map)
		mv := r.val().(*MapV)
		var ks []Value
		if mv != nil {
			for _, en := range mv.entries {
				if !en.deleted {
					ks = append(ks, mkRV(&RV{t: mt.Key(), v: copyVal(en.k), ro: r.ro}))
				}
			}
		}
		return &Slice{arr: ks}
	})
	rv("MapRange", func(m *Machine, r *RV, a A) Value {
		it := &mapIterHost{r: r}
		mv := r.val().(*MapV)
		if mv != nil {
			for _, en := range mv.entries {
				if !en.deleted {
					it.es = append(it.es, en)
				}
			}
		}
		it.pos = -1
		var v Value = Struct{&Host{it}}
		return &v
	})
	iter := func(v Value) *mapIterHost { return (*v.(Ptr)).(Struct)[0].(*Host).v.(*mapIterHost) }
	e.exts["(*reflect.MapIter).Next"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		it := iter(a[0])
		it.pos++
		for it.pos < len(it.es) && it.es[it.pos].deleted {
			it.pos++
		}
		return B(it.pos < len(it.es))
	}
	mk := func(it *mapIterHost) *RV {
		return &RV{t: it.r.t.Underlying().(*types.Map).Key(), v: copyVal(it.es[it.pos].k), ro: it.r.ro}
	}
	mvv := func(it *mapIterHost) *RV {
		return &RV{t: it.r.t.Underlying().(*types.Map).Elem(), v: copyVal(it.es[it.pos].v), ro: it.r.ro}
	}
	e.exts["(*reflect.MapIter).Key"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return mkRV(mk(iter(a[0]))) }
	e.exts["(*reflect.MapIter).Value"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return mkRV(mvv(iter(a[0])))
	}
	rv("SetIterKey", func(m *Machine, r *RV, a A) Value { storeInto(r.p, m.assignRV(mk(iter(a[1])), r.t)); return nil })
	rv("SetIterValue", func(m *Machine, r *RV, a A) Value { storeInto(r.p, m.assignRV(mvv(iter(a[1])), r.t)); return nil })
	rv("SetMapIndex", func(m *Machine, r *RV, a A) Value {
		mt := r.t.Underlying().(*types.Map)
		mv := r.val().(*MapV)
		k := m.assignRV(getRV(a[1]), mt.Key())
		ev := getRV(a[2])
		if ev == nil {
			m.mapDelete(mv, k)
			return nil
		}
		if mv == nil {
			panic(targetPanic{v: m.runtimeError("assignment to entry in nil map")})
		}
		m.mapSet(mv, k, m.assignRV(ev, mt.Elem()))
		return nil
	})
	set := func(m *Machine, r *RV, v Value) {
		if r.p == nil || r.ro {
			m.rvPanic("set of unsettable value " + r.t.String())
		}
		storeInto(r.p, v)
	}
	rv("Set", func(m *Machine, r *RV, a A) Value {
		x := m.needRV(a[1], "Set")
		if !types.AssignableTo(x.t, r.t) {
			m.rvPanic("Set: value of type " + x.t.String() + " is not assignable to type " + r.t.String())
		}
		set(m, r, m.assignRV(x, r.t))
		return nil
	})
	rv("SetZero", func(m *Machine, r *RV, a A) Value { set(m, r, zero(r.t)); return nil })
	rv("SetBool", func(m *Machine, r *RV, a A) Value { set(m, r, a[1]); return nil })
	rv("SetString", func(m *Machine, r *RV, a A) Value { set(m, r, a[1]); return nil })
	rv("SetBytes", func(m *Machine, r *RV, a A) Value { set(m, r, a[1]); return nil })
	setInt := func(m *Machine, r *RV, a A) Value {
		w := basicWidth(r.t.Underlying().(*types.Basic))
		set(m, r, Extract(a[1].(*Term), 0, w))
		return nil
	}
	rv("SetInt", setInt)
	rv("SetUint", setInt)
	rv("SetFloat", func(m *Machine, r *RV, a A) Value {
		w := basicWidth(r.t.Underlying().(*types.Basic))
		t := a[1].(*Term)
		if w == 32 {
			t = mkFloat(32, floatOf(BV(64, m.concretize(t))))
		}
		set(m, r, t)
		return nil
	})
	rv("SetLen", func(m *Machine, r *RV, a A) Value {
		s := r.val().(*Slice)
		n := m.concInt(a[1])
		if n < 0 || n > cap(s.arr) {
			m.rvPanic("slice length out of range in SetLen")
		}
		set(m, r, &Slice{arr: s.arr[:n]})
		return nil
	})
	rv("SetCap", func(m *Machine, r *RV, a A) Value {
		s := r.val().(*Slice)
		n := m.concInt(a[1])
		set(m, r, &Slice{arr: s.arr[:len(s.arr):n]})
		return nil
	})
	grow := func(m *Machine, r *RV, n int) {
		s := r.val().(*Slice)
		if len(s.arr)+n <= cap(s.arr) {
			return
		}
		nc := cap(s.arr)*2 + n
		if nc < 4 {
			nc = 4
		}
		ns := m.makeSlice(r.t.Underlying().(*types.Slice).Elem(), nc, nc)
		for i := range s.arr {
			ns.arr[i] = copyVal(s.arr[i])
		}
		set(m, r, &Slice{arr: ns.arr[:len(s.arr)]})
	}
	rv("Grow", func(m *Machine, r *RV, a A) Value { grow(m, r, m.concInt(a[1])); return nil })
	asInt := func(m *Machine, r *RV, a A) Value {
		t, ok := r.val().(*Term)
		b, isB := r.t.Underlying().(*types.Basic)
		if !ok || !isB || b.Info()&types.IsInteger == 0 {
			m.rvPanic("Int/Uint of " + r.t.String())
		}
		if isSigned(b) {
			return Sext(t, 64)
		}
		return Zext(t, 64)
	}
	rv("Int", asInt)
	rv("Uint", asInt)
	rv("Float", func(m *Machine, r *RV, a A) Value {
		t := r.val().(*Term)
		if t.w == 32 {
			return mkFloat(64, floatOf(BV(32, m.concretize(t))))
		}
		return t
	})
	rv("Bool", func(m *Machine, r *RV, a A) Value { return r.val() })
	rv("Bytes", func(m *Machine, r *RV, a A) Value {
		if x, ok := r.val().(Array); ok {
			return &Slice{arr: x}
		}
		return r.val()
	})
	over := func(m *Machine, r *RV, a A) Value {
		b := r.t.Underlying().(*types.Basic)
		w := basicWidth(b)
		x := a[1].(*Term)
		if w == 64 {
			return TFalse
		}
		if isSigned(b) {
			return Not(Eq(Sext(Extract(x, 0, w), 64), x))
		}
		return Not(Eq(Zext(Extract(x, 0, w), 64), x))
	}
	rv("OverflowInt", over)
	rv("OverflowUint", over)
	rv("OverflowFloat", func(m *Machine, r *RV, a A) Value { return TFalse })
	rv("NumMethod", func(m *Machine, r *RV, a A) Value {
		if it, ok := r.t.Underlying().(*types.Interface); ok {
			return num(it.NumMethods())
		}
		return num(m.eng.msets.MethodSet(r.t).Len())
	})
	rv("Convert", func(m *Machine, r *RV, a A) Value {
		t := rtOf(a[1])
		if _, ok := t.Underlying().(*types.Interface); ok {
			return mkRV(&RV{t: t, v: m.assignRV(r, t), ro: r.ro})
		}
		if types.Identical(t.Underlying(), r.t.Underlying()) {
			return mkRV(&RV{t: t, v: copyVal(r.val()), ro: r.ro})
		}
		return mkRV(&RV{t: t, v: m.convert(nil, t, r.t, copyVal(r.val())), ro: r.ro})
	})
	rv("CanConvert", func(m *Machine, r *RV, a A) Value { return B(types.ConvertibleTo(r.t, rtOf(a[1]))) })
	rv("Comparable", func(m *Machine, r *RV, a A) Value { return B(types.Comparable(r.t)) })
	rv("Slice", func(m *Machine, r *RV, a A) Value {
		x := r.val()
		t := r.t
		if at, ok := t.Underlying().(*types.Array); ok {
			return mkRV(&RV{t: types.NewSlice(at.Elem()), v: m.slice(r.p, a[1], a[2], nil), ro: r.ro})
		}
		return mkRV(&RV{t: t, v: m.slice(x, a[1], a[2], nil), ro: r.ro})
	})
	ptrNum := func(m *Machine, r *RV, a A) Value {
		switch x := r.val().(type) {
		case Ptr:
			if x != nil {
				return m.addr(x)
			}
		case *MapV:
			if x != nil {
				return m.addr(x)
			}
		case *Slice:
			if x != nil && !x.Nil {
				if cap(x.arr) > 0 {
					return m.addr(&x.arr[:1][0])
				}
				return BV(64, 0xc000000000)
			}
		case nil:
		case UPtr:
			if p := ptrOf(x); p != nil {
				return m.addr(p)
			}
		default:
			return m.addr(x)
		}
		return BV(64, 0)
	}
	rv("Pointer", ptrNum)
	rv("UnsafePointer", func(m *Machine, r *RV, a A) Value {
		if p, ok := r.val().(Ptr); ok {
			return UPtr{p}
		}
		return UPtr{Ptr(nil)}
	})
	rv("MethodByName", func(m *Machine, r *RV, a A) Value {
		f := m.eng.exportedMethod(r.t, m.concStr(a[1]))
		if f == nil {
			return mkRV(nil)
		}
		recv := copyVal(r.val())
		return mkRV(&RV{t: f.Signature, fn: &Closure{nat: func(m *Machine, x []Value) Value {
			return m.callHost(&Closure{fn: f}, append([]Value{recv}, x...)...)
		}}})
	})
	for _, k := range []struct {
		n    string
		flag types.BasicInfo
	}{{"CanInt", types.IsInteger}, {"CanUint", types.IsInteger}, {"CanFloat", types.IsFloat}} {
		k := k
		rv(k.n, func(m *Machine, r *RV, a A) Value {
			b, ok := r.t.Underlying().(*types.Basic)
			ok = ok && b.Info()&k.flag != 0
			if k.n == "CanInt" {
				ok = ok && isSigned(b)
			}
			if k.n == "CanUint" {
				ok = ok && !isSigned(b)
			}
			return B(ok)
		})
	}
}

type mapIterHost struct {
	r   *RV
	es  []*mapEntry
	pos int
}

func (m *Machine) concStr(v Value) string {
	s := v.(*Str)
	if s.conc() {
		return s.s
	}
	b := make([]byte, s.Len())
	for i := range b {
		b[i] = byte(m.concretize(s.at(i)))
	}
	return string(b)
}

// addr is a number standing for the address of an object, distinct from those of
// the other objects.
func (m *Machine) addr(x any) Value {
	n, ok := m.addrs[x]
	if !ok {
		if m.addrs == nil {
			m.addrs = map[any]uint64{}
		}
		n = 0xc000000000 + 0x1000*uint64(len(m.addrs)+1)
		m.addrs[x] = n
	}
	return BV(64, n)
}
