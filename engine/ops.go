package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

func (m *Machine) binop(op token.Token, tx, ty types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return m.eq(tx, x, y)
	case token.NEQ:
		return Not(m.eq(tx, x, y))
	}
	switch a := x.(type) {
	case *Str:
		b := y.(*Str)
		switch op {
		case token.ADD:
			return concatStr(a, b)
		case token.LSS:
			return ltStr(a, b, false)
		case token.LEQ:
			return ltStr(a, b, true)
		case token.GTR:
			return ltStr(b, a, false)
		case token.GEQ:
			return ltStr(b, a, true)
		}
	case *Term:
		b := y.(*Term)
		bt, ok := tx.Underlying().(*types.Basic)
		if !ok {
			break
		}
		if bt.Info()&types.IsFloat != 0 {
			return m.floatop(op, a, b)
		}
		signed := isSigned(bt)
		pick := func(s, u Op) Op {
			if signed {
				return s
			}
			return u
		}
		switch op {
		case token.ADD:
			return Bin(OpAdd, a, b)
		case token.SUB:
			return Bin(OpSub, a, b)
		case token.MUL:
			return Bin(OpMul, a, b)
		case token.QUO, token.REM:
			if m.branch(Eq(b, BV(b.w, 0))) {
				panic(targetPanic{v: m.runtimeError("integer divide by zero")})
			}
			if op == token.QUO {
				return Bin(pick(OpSdiv, OpUdiv), a, b)
			}
			return Bin(pick(OpSrem, OpUrem), a, b)
		case token.AND:
			if a.w == 0 {
				return And(a, b)
			}
			return Bin(OpBvAnd, a, b)
		case token.OR:
			if a.w == 0 {
				return Or(a, b)
			}
			return Bin(OpBvOr, a, b)
		case token.XOR:
			return Bin(OpBvXor, a, b)
		case token.AND_NOT:
			return Bin(OpBvAnd, a, BvNot(b))
		case token.SHL, token.SHR:
			yb := ty.Underlying().(*types.Basic)
			if isSigned(yb) {
				if m.branch(Cmp(OpSlt, b, BV(b.w, 0))) {
					panic(targetPanic{v: m.runtimeError("negative shift amount")})
				}
			}
			sh := b
			if sh.w < a.w {
				sh = Zext(sh, a.w)
			} else if sh.w > a.w {
				big := Cmp(OpUle, BV(sh.w, uint64(a.w)), sh)
				sh = Ite(big, BV(a.w, uint64(a.w)), Extract(sh, 0, a.w))
			}
			switch {
			case op == token.SHL:
				return Bin(OpShl, a, sh)
			case signed:
				return Bin(OpAshr, a, sh)
			default:
				return Bin(OpLshr, a, sh)
			}
		case token.LSS:
			return Cmp(pick(OpSlt, OpUlt), a, b)
		case token.LEQ:
			return Cmp(pick(OpSle, OpUle), a, b)
		case token.GTR:
			return Cmp(pick(OpSlt, OpUlt), b, a)
		case token.GEQ:
			return Cmp(pick(OpSle, OpUle), b, a)
		}
	case Complex:
		b := y.(Complex)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		}
	}
	m.unsupported("binop %s on %T (%s)", op, x, tx)
	return nil
}

func (m *Machine) floatop(op token.Token, a, b *Term) Value {
	switch op {
	case token.LSS:
		return Cmp(OpFLt, a, b)
	case token.LEQ:
		return Cmp(OpFLe, a, b)
	case token.GTR:
		return Cmp(OpFLt, b, a)
	case token.GEQ:
		return Cmp(OpFLe, b, a)
	}
	if !a.isConst() || !b.isConst() {
		a, b = BV(a.w, m.concretize(a)), BV(b.w, m.concretize(b))
	}
	x, y := floatOf(a), floatOf(b)
	var r float64
	switch op {
	case token.ADD:
		r = x + y
	case token.SUB:
		r = x - y
	case token.MUL:
		r = x * y
	case token.QUO:
		r = x / y
	default:
		m.unsupported("float op %s", op)
	}
	return mkFloat(a.w, r)
}

// eq is Go equality of two values of static type t.
func (m *Machine) eq(t types.Type, x, y Value) *Term {
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
			return feq(a, b)
		}
		return Eq(a, b)
	case *Str:
		return eqStr(a, y.(*Str))
	case Ptr:
		b, ok := y.(Ptr)
		if !ok {
			return TFalse
		}
		return B(a == b)
	case UPtr:
		b := y.(UPtr)
		return B(a.v == b.v)
	case Struct:
		b := y.(Struct)
		st := t.Underlying().(*types.Struct)
		r := TTrue
		for i := range a {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = And(r, m.eq(st.Field(i).Type(), a[i], b[i]))
		}
		return r
	case Array:
		b := y.(Array)
		et := t.Underlying().(*types.Array).Elem()
		r := TTrue
		for i := range a {
			r = And(r, m.eq(et, a[i], b[i]))
		}
		return r
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			// comparison of interface with concrete value
			m.unsupported("eq iface with %T", y)
		}
		if a.T == nil || b.T == nil {
			return B(a.T == nil && b.T == nil)
		}
		if !types.Identical(a.T, b.T) {
			return TFalse
		}
		if !types.Comparable(a.T) {
			panic(targetPanic{v: m.runtimeError("comparing uncomparable type " + a.T.String())})
		}
		return m.eq(a.T, a.V, b.V)
	case *Closure:
		b := y.(*Closure)
		if a == nil || b == nil {
			return B(a == nil && b == nil)
		}
		return B(a == b)
	case *MapV:
		return B(a == y.(*MapV))
	case *Slice:
		b := y.(*Slice)
		return B(a.Nil && b.Nil)
	case *Chan:
		return B(a == y.(*Chan))
	case *RType:
		return B(x == y)
	case *Host:
		b, ok := y.(*Host)
		return B(ok && (a == b || a.v == b.v))
	case Complex:
		return B(a == y.(Complex))
	case nil:
		return B(y == nil)
	}
	m.unsupported("eq on %T", x)
	return nil
}

func feq(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return B(foldCmp(OpFEq, a.w, a.val, b.val))
	}
	return mk(OpFEq, 0, a, b)
}

// ---- maps ----

func newMap(kt types.Type) *MapV {
	return &MapV{idx: map[string]*mapEntry{}, keyT: kt}
}

// concKey returns a canonical string for a fully concrete key.
func (m *Machine) concKey(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if !x.isConst() {
			return "", false
		}
		return "i" + strconv.FormatUint(x.val, 16), true
	case *Str:
		if !x.conc() {
			return "", false
		}
		return "s" + x.s, true
	case Ptr:
		return fmt.Sprintf("p%p", x), true
	case Iface:
		if x.T == nil {
			return "nil", true
		}
		k, ok := m.concKey(x.V)
		return "I" + strconv.Itoa(m.eng.typeID(x.T)) + ":" + k, ok
	case Struct:
		r := "{"
		for _, f := range x {
			k, ok := m.concKey(f)
			if !ok {
				return "", false
			}
			r += strconv.Itoa(len(k)) + "." + k
		}
		return r, true
	case Array:
		r := "["
		for _, f := range x {
			k, ok := m.concKey(f)
			if !ok {
				return "", false
			}
			r += strconv.Itoa(len(k)) + "." + k
		}
		return r, true
	case *Chan:
		return fmt.Sprintf("c%p", x), true
	case *Host:
		return fmt.Sprintf("h%p", x), true
	case UPtr:
		return m.concKey(x.v)
	case *RType:
		return fmt.Sprintf("t%p", x), true
	}
	m.unsupported("map key %T", v)
	return "", false
}

func (m *Machine) mapFind(mv *MapV, k Value) *mapEntry {
	if mv == nil || mv.live == 0 {
		return nil
	}
	ks, conc := m.concKey(k)
	if conc {
		if e, ok := mv.idx[ks]; ok {
			return e
		}
		if mv.nsym == 0 {
			return nil
		}
		for _, e := range mv.entries {
			if e.deleted || e.conc {
				continue
			}
			if m.branch(m.eq(mv.keyT, e.k, k)) {
				return e
			}
		}
		return nil
	}
	for _, e := range mv.entries {
		if e.deleted {
			continue
		}
		if m.branch(m.eq(mv.keyT, e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mv *MapV, k, v Value) {
	if i, ok := k.(Iface); ok && i.T != nil && !types.Comparable(i.T) {
		panic(targetPanic{v: m.runtimeError("hash of unhashable type " + i.T.String())})
	}
	if e := m.mapFind(mv, k); e != nil {
		e.v = copyVal(v)
		return
	}
	ks, conc := m.concKey(k)
	e := &mapEntry{k: copyVal(k), v: copyVal(v), conc: conc, ks: ks}
	mv.entries = append(mv.entries, e)
	mv.live++
	if conc {
		mv.idx[ks] = e
	} else {
		mv.nsym++
	}
}

func (m *Machine) mapDelete(mv *MapV, k Value) {
	if mv == nil {
		return
	}
	e := m.mapFind(mv, k)
	if e == nil {
		return
	}
	e.deleted = true
	mv.live--
	if e.conc {
		delete(mv.idx, e.ks)
	} else {
		mv.nsym--
	}
	if len(mv.entries) > 16 && mv.live*2 < len(mv.entries) {
		var ne []*mapEntry
		for _, x := range mv.entries {
			if !x.deleted {
				ne = append(ne, x)
			}
		}
		mv.entries = ne
	}
}

func (m *Machine) lookup(ins *ssa.Lookup, x, k Value) Value {
	switch c := x.(type) {
	case *MapV:
		if i, ok := k.(Iface); ok && i.T != nil && !types.Comparable(i.T) {
			panic(targetPanic{v: m.runtimeError("hash of unhashable type " + i.T.String())})
		}
		e := m.mapFind(c, k)
		var v Value
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = zero(ins.X.Type().Underlying().(*types.Map).Elem())
		}
		if ins.CommaOk {
			return Tuple{v, B(e != nil)}
		}
		return v
	case *Str:
		return m.strIndex(c, k.(*Term), ins.Index.Type())
	}
	m.unsupported("lookup on %T", x)
	return nil
}

// ---- indexing ----

func (m *Machine) boundIdx(i *Term, it types.Type, n int) *Term {
	// index as 64 bit
	b := it.Underlying().(*types.Basic)
	var i64 *Term
	if isSigned(b) {
		i64 = Sext(i, 64)
	} else {
		i64 = Zext(i, 64)
	}
	ok := Cmp(OpUlt, i64, BV(64, uint64(n)))
	if !m.branch(ok) {
		msg := fmt.Sprintf("index out of range with length %d", n)
		if i64.isConst() {
			msg = fmt.Sprintf("index out of range [%d] with length %d", int64(i64.val), n)
		}
		panic(targetPanic{v: m.runtimeError(msg)})
	}
	return i64
}

// iteReadFix reads arr[i] for symbolic i when all elements are scalars.
func iteReadFix(arr []Value, i *Term) (*Term, bool) {
	if len(arr) == 0 || len(arr) > 1024 {
		return nil, false
	}
	for _, v := range arr {
		if _, ok := v.(*Term); !ok {
			return nil, false
		}
	}
	// build from the right: r(k) = value for indexes >= k
	n := len(arr)
	type run struct {
		lastIdx int
		v       *Term
	}
	var runs []run
	for k := 0; k < n; k++ {
		v := arr[k].(*Term)
		if len(runs) > 0 {
			p := &runs[len(runs)-1]
			if p.v == v || p.v.isConst() && v.isConst() && p.v.val == v.val {
				p.lastIdx = k
				continue
			}
		}
		runs = append(runs, run{k, v})
	}
	r := runs[len(runs)-1].v
	for j := len(runs) - 2; j >= 0; j-- {
		r = Ite(Cmp(OpUle, i, BV(i.w, uint64(runs[j].lastIdx))), runs[j].v, r)
	}
	return r, true
}

func (m *Machine) elems(x Value) []Value {
	switch c := x.(type) {
	case *Slice:
		return c.arr
	case Array:
		return c
	case Ptr:
		if c == nil {
			m.nilDeref()
		}
		return (*c).(Array)
	}
	m.unsupported("elems of %T", x)
	return nil
}

func (m *Machine) indexAddr(x Value, i *Term, it types.Type) Value {
	arr := m.elems(x)
	i64 := m.boundIdx(i, it, len(arr))
	if i64.isConst() {
		return &arr[i64.val]
	}
	// symbolic address: if scalars, give a read-only merged cell when possible
	if t, ok := iteReadFix(arr, i64); ok && m.loadOnly() {
		var v Value = t
		return &v
	}
	return &arr[m.concretize(i64)]
}

// loadOnly reports whether the current IndexAddr result is only loaded from.
func (m *Machine) loadOnly() bool {
	fr := m.cur.top
	ia, ok := fr.curIns.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	refs := ia.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch u := r.(type) {
		case *ssa.UnOp:
			if u.Op != token.MUL || u.Block() != ia.Block() {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (m *Machine) index(x Value, i *Term, it types.Type) Value {
	if s, ok := x.(*Str); ok {
		return m.strIndex(s, i, it)
	}
	arr := m.elems(x)
	i64 := m.boundIdx(i, it, len(arr))
	if i64.isConst() {
		return copyVal(arr[i64.val])
	}
	if t, ok := iteReadFix(arr, i64); ok {
		return t
	}
	return copyVal(arr[m.concretize(i64)])
}

func (m *Machine) strIndex(s *Str, i *Term, it types.Type) Value {
	i64 := m.boundIdx(i, it, s.Len())
	if i64.isConst() {
		return s.at(int(i64.val))
	}
	ts := s.terms()
	arr := make([]Value, len(ts))
	for k := range ts {
		arr[k] = ts[k]
	}
	if t, ok := iteReadFix(arr, i64); ok {
		return t
	}
	return s.at(int(m.concretize(i64)))
}

func (m *Machine) slice(x, lo, hi, max Value) Value {
	var ln, cp int
	switch c := x.(type) {
	case *Str:
		ln = c.Len()
		cp = ln
	case *Slice:
		ln = len(c.arr)
		cp = cap(c.arr)
	case Ptr:
		if c == nil {
			m.nilDeref()
		}
		ln = len((*c).(Array))
		cp = ln
	default:
		m.unsupported("slice of %T", x)
	}
	l, h := 0, ln
	if lo != nil {
		l = m.concInt(lo)
	}
	if hi != nil {
		h = m.concInt(hi)
	}
	mx := cp
	if max != nil {
		mx = m.concInt(max)
	}
	if h < 0 || h > cp || l < 0 || l > h || mx < h || mx > cp {
		panic(targetPanic{v: m.runtimeError(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, cp))})
	}
	switch c := x.(type) {
	case *Str:
		return c.sub(l, h)
	case *Slice:
		if c.Nil {
			return c
		}
		return &Slice{arr: c.arr[l:h:mx]}
	case Ptr:
		return &Slice{arr: []Value((*c).(Array))[l:h:mx]}
	}
	return nil
}

// ---- iteration ----

type iterV struct {
	s     *Str
	pos   int
	mv    *MapV
	order []*mapEntry
	any   bool
}

func (m *Machine) rangeIter(x Value, fr *Frame, ins *ssa.Range) Value {
	switch c := x.(type) {
	case *Str:
		return &iterV{s: c}
	case *MapV:
		it := &iterV{mv: c}
		if c != nil {
			for _, e := range c.entries {
				if !e.deleted {
					it.order = append(it.order, e)
				}
			}
		}
		it.any = m.opts.MapOrder == "any" && !m.inInit
		if m.mapOrder && len(it.order) > 1 && m.eng.underCheck(fr.fn) {
			it.reorder(m.siteOrder(ins, len(it.order)))
		}
		return it
	}
	m.unsupported("range over %T", x)
	return nil
}

// siteOrder chooses how the maps iterated at a place of the code are ordered:
// as they come (0), in reverse (1) or turned by one (2). Places other than the
// ones chosen (one, two in the thorough tier) iterate as they come.
func (m *Machine) siteOrder(ins *ssa.Range, n int) int {
	o, ok := m.mapSites[ins]
	if !ok {
		max := 1
		if m.eng.thorough {
			max = 2
		}
		if m.mapDev < max {
			k := 2
			if n > 2 {
				k = 3
			}
			if o = m.choose(k, "maporder"); o != 0 {
				m.mapDev++
			}
		}
		m.mapSites[ins] = o
	}
	return o
}

func (it *iterV) reorder(o int) {
	n := len(it.order)
	switch o {
	case 1:
		for i := 0; i < n/2; i++ {
			it.order[i], it.order[n-1-i] = it.order[n-1-i], it.order[i]
		}
	case 2:
		it.order = append(append([]*mapEntry{}, it.order[1:]...), it.order[0])
	}
}

// underCheck tells the code of the repository from the rest.
func (e *Engine) underCheck(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	return fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), "github.com/lerenn/")
}

func (m *Machine) next(fr *Frame, ins *ssa.Next, it *iterV) Value {
	if it.s != nil {
		if it.pos >= it.s.Len() {
			return Tuple{TFalse, BV(64, 0), BV(32, 0)}
		}
		r, sz := m.decodeRune(it.s, it.pos)
		p := it.pos
		it.pos += sz
		return Tuple{TTrue, BV(64, uint64(p)), r}
	}
	var live []*mapEntry
	for _, e := range it.order {
		if !e.deleted {
			live = append(live, e)
		}
	}
	it.order = live
	if len(live) == 0 {
		var kz, vz Value
		tt := ins.Type().(*types.Tuple)
		if tt.Len() == 3 {
			kz, vz = zeroOrNil(tt.At(1).Type()), zeroOrNil(tt.At(2).Type())
		}
		return Tuple{TFalse, kz, vz}
	}
	i := 0
	if it.any && len(live) > 1 {
		i = m.choose(len(live), "maporder")
	}
	e := live[i]
	it.order = append(append([]*mapEntry{}, live[:i]...), live[i+1:]...)
	return Tuple{TTrue, copyVal(e.k), copyVal(e.v)}
}

func zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(t)
}

// decodeRune decodes one rune at position p.
func (m *Machine) decodeRune(s *Str, p int) (*Term, int) {
	c := s.at(p)
	if m.branch(Cmp(OpUlt, c, BV(8, 0x80))) {
		return Zext(c, 32), 1
	}
	if s.conc() {
		for i, r := range s.s[p:] {
			_ = i
			n := 0
			for j := range s.s[p:] {
				if j > 0 {
					n = j
					break
				}
			}
			if n == 0 {
				n = len(s.s) - p
			}
			return BV(32, uint64(uint32(r))), n
		}
	}
	fn := m.eng.stdFunc("unicode/utf8", "DecodeRuneInString")
	if fn == nil {
		m.unsupported("utf8 not loaded")
	}
	r := m.callHost(&Closure{fn: fn}, s.sub(p, s.Len())).(Tuple)
	return r[0].(*Term), m.concInt(r[1])
}

// encodeRune gives the UTF-8 bytes of a rune.
func (m *Machine) encodeRune(r *Term) []*Term {
	if r.isConst() {
		var out []*Term
		for _, b := range []byte(string(rune(int32(r.val)))) {
			out = append(out, BV(8, uint64(b)))
		}
		return out
	}
	if m.branch(Cmp(OpUlt, r, BV(32, 0x80))) {
		return []*Term{Extract(r, 0, 8)}
	}
	fn := m.eng.stdFunc("unicode/utf8", "AppendRune")
	if fn == nil {
		m.unsupported("utf8 not loaded")
	}
	s := m.callHost(&Closure{fn: fn}, nilSlice, r).(*Slice)
	var out []*Term
	for _, v := range s.arr {
		out = append(out, v.(*Term))
	}
	return out
}

// ---- conversions ----

func (m *Machine) convert(fr *Frame, dst, src types.Type, x Value) Value {
	ud, us := dst.Underlying(), src.Underlying()
	switch d := ud.(type) {
	case *types.Basic:
		switch {
		case d.Kind() == types.UnsafePointer:
			switch v := x.(type) {
			case UPtr:
				return v
			case *Term:
				m.unsupported("uintptr to unsafe.Pointer")
			}
			return UPtr{x}
		case d.Info()&types.IsString != 0:
			switch v := x.(type) {
			case *Str:
				return v
			case *Slice:
				et := us.(*types.Slice).Elem().Underlying().(*types.Basic)
				if et.Kind() == types.Uint8 {
					ts := make([]*Term, len(v.arr))
					for i, e := range v.arr {
						ts[i] = e.(*Term)
					}
					return strOfTerms(ts)
				}
				var ts []*Term
				for _, e := range v.arr {
					ts = append(ts, m.encodeRune(e.(*Term))...)
				}
				return strOfTerms(ts)
			case *Term:
				sb := us.(*types.Basic)
				var r *Term
				switch {
				case v.w < 32 && isSigned(sb):
					r = Sext(v, 32)
				case v.w < 32:
					r = Zext(v, 32)
				case v.w == 32:
					r = v
				default:
					fits := Cmp(OpUlt, v, BV(64, 0x110000))
					r = Ite(fits, Extract(v, 0, 32), BV(32, 0xFFFD))
				}
				return strOfTerms(m.encodeRune(r))
			}
		default:
			if v, ok := x.(*Term); ok {
				sb, ok := us.(*types.Basic)
				if !ok {
					break
				}
				sf, df := sb.Info()&types.IsFloat != 0, d.Info()&types.IsFloat != 0
				w := basicWidth(d)
				switch {
				case sf && df:
					if v.w == w {
						return v
					}
					if !v.isConst() {
						v = BV(v.w, m.concretize(v))
					}
					return mkFloat(w, floatOf(v))
				case sf:
					if !v.isConst() {
						v = BV(v.w, m.concretize(v))
					}
					f := floatOf(v)
					if isSigned(d) {
						return BV(w, uint64(int64(f)))
					}
					return BV(w, uint64(f))
				case df:
					if !v.isConst() {
						v = BV(v.w, m.concretize(v))
					}
					if isSigned(sb) {
						return mkFloat(w, float64(sext64(v.val, v.w)))
					}
					return mkFloat(w, float64(v.val))
				}
				switch {
				case w == v.w:
					return v
				case w < v.w:
					return Extract(v, 0, w)
				case isSigned(sb):
					return Sext(v, w)
				default:
					return Zext(v, w)
				}
			}
			if v, ok := x.(Complex); ok {
				return v
			}
			if v, ok := x.(UPtr); ok && d.Kind() == types.Uintptr {
				return BV(64, uint64(uintptr(unsafe.Pointer(ptrOf(v)))))
			}
		}
	case *types.Slice:
		if s, ok := x.(*Str); ok {
			if d.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
				ts := s.terms()
				arr := make([]Value, len(ts))
				for i, t := range ts {
					arr[i] = t
				}
				return &Slice{arr: arr}
			}
			var arr []Value
			for p := 0; p < s.Len(); {
				r, n := m.decodeRune(s, p)
				arr = append(arr, r)
				p += n
			}
			return &Slice{arr: arr}
		}
		return x
	case *types.Pointer:
		if u, ok := x.(UPtr); ok {
			if u.v == nil {
				return Ptr(nil)
			}
			return u.v
		}
		return x
	case *types.Array:
		if s, ok := x.(*Slice); ok {
			n := int(d.Len())
			if len(s.arr) < n {
				panic(targetPanic{v: m.runtimeError("cannot convert slice to array")})
			}
			return copyVal(Array(s.arr[:n:n]))
		}
		return x
	default:
		return x
	}
	m.unsupported("convert %s -> %s (%T)", src, dst, x)
	return nil
}

func ptrOf(u UPtr) Ptr {
	p, _ := u.v.(Ptr)
	return p
}

// ---- builtins ----

func (m *Machine) builtin(fr *Frame, b *ssa.Builtin, args []Value, call *ssa.CallCommon) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Str:
			return BV(64, uint64(x.Len()))
		case *Slice:
			return BV(64, uint64(len(x.arr)))
		case Array:
			return BV(64, uint64(len(x)))
		case Ptr:
			return BV(64, uint64(len((*x).(Array))))
		case *MapV:
			if x == nil {
				return BV(64, 0)
			}
			return BV(64, uint64(x.live))
		case *Chan:
			if x == nil {
				return BV(64, 0)
			}
			return BV(64, uint64(len(x.buf)))
		}
	case "cap":
		switch x := args[0].(type) {
		case *Slice:
			return BV(64, uint64(cap(x.arr)))
		case Array:
			return BV(64, uint64(len(x)))
		case Ptr:
			return BV(64, uint64(len((*x).(Array))))
		case *Chan:
			if x == nil {
				return BV(64, 0)
			}
			return BV(64, uint64(x.cap))
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].(*Slice)
		var add []Value
		switch y := args[1].(type) {
		case *Str:
			for _, t := range y.terms() {
				add = append(add, t)
			}
		case *Slice:
			if len(y.arr) == 0 {
				return s
			}
			add = make([]Value, len(y.arr))
			for i, v := range y.arr {
				add[i] = copyVal(v)
			}
		}
		if len(add) == 0 {
			return s
		}
		n := len(s.arr) + len(add)
		if n <= cap(s.arr) {
			// write in place (aliasing semantics)
			full := s.arr[:n]
			for i, v := range add {
				storeOver(&full[len(s.arr)+i], v)
			}
			return &Slice{arr: full}
		}
		nc := cap(s.arr) * 2
		if nc < n {
			nc = n
		}
		if nc < 4 {
			nc = 4
		}
		if n == 1 && cap(s.arr) == 0 {
			nc = 1
		}
		na := make([]Value, n, nc)
		copy(na, s.arr)
		// struct cells must not be shared with the old array
		for i := range s.arr {
			na[i] = copyVal(s.arr[i])
		}
		copy(na[len(s.arr):], add)
		if nc > n {
			// spare cells need zero values
			et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
			full := na[:nc]
			for i := n; i < nc; i++ {
				full[i] = zero(et)
			}
		}
		return &Slice{arr: na}
	case "copy":
		d := args[0].(*Slice)
		switch y := args[1].(type) {
		case *Str:
			n := y.Len()
			if len(d.arr) < n {
				n = len(d.arr)
			}
			for i := 0; i < n; i++ {
				d.arr[i] = y.at(i)
			}
			return BV(64, uint64(n))
		case *Slice:
			n := len(y.arr)
			if len(d.arr) < n {
				n = len(d.arr)
			}
			tmp := make([]Value, n)
			for i := range tmp {
				tmp[i] = copyVal(y.arr[i])
			}
			for i := range tmp {
				storeOver(&d.arr[i], tmp[i])
			}
			return BV(64, uint64(n))
		}
	case "close":
		m.chanClose(args[0].(*Chan))
		return nil
	case "delete":
		m.mapDelete(args[0].(*MapV), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				for _, e := range x.entries {
					e.deleted = true
				}
				x.entries, x.idx, x.live, x.nsym = nil, map[string]*mapEntry{}, 0, 0
			}
		case *Slice:
			et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x.arr {
				x.arr[i] = zero(et)
			}
		}
		return nil
	case "print", "println":
		return nil
	case "panic":
		panic(targetPanic{v: args[0]})
	case "recover":
		return m.doRecover(fr)
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			var lt *Term
			t := call.Args[0].Type()
			if b.Name() == "min" {
				lt = m.binop(token.LSS, t, t, a, r).(*Term)
			} else {
				lt = m.binop(token.GTR, t, t, a, r).(*Term)
			}
			switch x := r.(type) {
			case *Term:
				r = Ite(lt, a.(*Term), x)
			default:
				if m.branch(lt) {
					r = a
				}
			}
		}
		return r
	case "real":
		return mkFloat(64, real(complex128(args[0].(Complex))))
	case "imag":
		return mkFloat(64, imag(complex128(args[0].(Complex))))
	case "complex":
		return Complex(complex(floatOf(args[0].(*Term)), floatOf(args[1].(*Term))))
	case "ssa:wrapnilchk":
		p, ok := args[0].(Ptr)
		if ok && p == nil {
			m.nilDeref()
		}
		return args[0]
	case "SliceData":
		s := args[0].(*Slice)
		if cap(s.arr) == 0 {
			return Ptr(nil)
		}
		return &s.arr[:1][0]
	case "String":
		p := args[0].(Ptr)
		n := m.concInt(args[1])
		if n == 0 {
			return emptyStr
		}
		arr := unsafe.Slice((*Value)(p), n)
		ts := make([]*Term, n)
		for i := range ts {
			ts[i] = arr[i].(*Term)
		}
		return strOfTerms(ts)
	case "StringData":
		ts := args[0].(*Str).terms()
		if len(ts) == 0 {
			return Ptr(nil)
		}
		arr := make([]Value, len(ts))
		for i, t := range ts {
			arr[i] = t
		}
		return &arr[0]
	case "Slice":
		p := args[0].(Ptr)
		n := m.concInt(args[1])
		if p == nil {
			return nilSlice
		}
		return &Slice{arr: unsafe.Slice((*Value)(p), n)}
	}
	m.unsupported("builtin %s(%T)", b.Name(), args[0])
	return nil
}

// storeOver overwrites a cell of a backing array.
func storeOver(dst *Value, v Value) {
	switch v.(type) {
	case Struct, Array:
		storeInto(dst, v)
	default:
		*dst = v
	}
}

var _ = math.Pi
