package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

const vpkg = "verifh/v."

func (m *Machine) strArg(v Value) string {
	s := v.(*Str)
	if !s.conc() {
		m.unsupported("symbolic label")
	}
	return s.s
}

func (m *Machine) intArg(v Value) int64 {
	t := v.(*Term)
	return sext64(m.concretize(t), t.w)
}

// inSet builds the membership condition for a byte in a set like "a-z0-9_".
func inSet(b *Term, set string) *Term {
	r := TFalse
	for i := 0; i < len(set); {
		c := set[i]
		if c == '\\' && i+1 < len(set) {
			r = Or(r, Eq(b, BV(8, uint64(set[i+1]))))
			i += 2
			continue
		}
		if i+2 < len(set) && set[i+1] == '-' {
			lo, hi := c, set[i+2]
			r = Or(r, And(Cmp(OpUle, BV(8, uint64(lo)), b), Cmp(OpUle, b, BV(8, uint64(hi)))))
			i += 3
			continue
		}
		r = Or(r, Eq(b, BV(8, uint64(c))))
		i++
	}
	return r
}

func (m *Machine) ndScalar(name, kind string, w uint8) *Term {
	t := m.fresh(name, w)
	m.nondets = append(m.nondets, NonDet{name, kind, []*Term{t}})
	return t
}

func (m *Machine) ndBytes(name, kind string, min, max int, set string) []*Term {
	n := min
	if max > min {
		n = min + m.choose(max-min+1, name+"_len")
	}
	ts := make([]*Term, n)
	for i := range ts {
		ts[i] = m.fresh(fmt.Sprintf("%s_%d", name, i), 8)
	}
	m.nondets = append(m.nondets, NonDet{name, kind, ts})
	if set != "" {
		for i := range ts {
			m.assume(inSet(ts[i], set))
		}
	}
	return ts
}

func sliceTerms(m *Machine, v Value) []*Term {
	s := v.(*Slice)
	r := make([]*Term, len(s.arr))
	for i, e := range s.arr {
		r[i] = e.(*Term)
	}
	return r
}

func registerV(e *Engine) {
	reg := func(n string, f func(m *Machine, a []Value) Value) {
		e.exts[vpkg+n] = func(m *Machine, fr *Frame, fn *ssa.Function, args []Value) Value { return f(m, args) }
	}
	reg("Bool", func(m *Machine, a []Value) Value { return m.ndScalar(m.strArg(a[0]), "bool", 0) })
	reg("Byte", func(m *Machine, a []Value) Value { return m.ndScalar(m.strArg(a[0]), "byte", 8) })
	reg("Uint64", func(m *Machine, a []Value) Value { return m.ndScalar(m.strArg(a[0]), "u64", 64) })
	reg("Int64", func(m *Machine, a []Value) Value { return m.ndScalar(m.strArg(a[0]), "u64", 64) })
	reg("Uint32", func(m *Machine, a []Value) Value { return m.ndScalar(m.strArg(a[0]), "u32", 32) })
	reg("Int32", func(m *Machine, a []Value) Value { return m.ndScalar(m.strArg(a[0]), "u32", 32) })
	reg("Float64", func(m *Machine, a []Value) Value { return m.ndScalar(m.strArg(a[0]), "u64", 64) })
	reg("Float32", func(m *Machine, a []Value) Value { return m.ndScalar(m.strArg(a[0]), "u32", 32) })
	reg("Int", func(m *Machine, a []Value) Value {
		t := m.ndScalar(m.strArg(a[0]), "u64", 64)
		m.assume(And(Cmp(OpSle, a[1].(*Term), t), Cmp(OpSle, t, a[2].(*Term))))
		return t
	})
	reg("Choice", func(m *Machine, a []Value) Value {
		n := int(m.intArg(a[1]))
		name := m.strArg(a[0])
		t := m.fresh(name, 16)
		m.nondets = append(m.nondets, NonDet{name, "u64", []*Term{t}})
		if n <= 1 {
			m.assume(Eq(t, BV(16, 0)))
			return BV(64, 0)
		}
		return BV(64, uint64(m.chooseVar(t, n)))
	})
	reg("String", func(m *Machine, a []Value) Value {
		return strOfTerms(m.ndBytes(m.strArg(a[0]), "string", int(m.intArg(a[1])), int(m.intArg(a[2])), ""))
	})
	reg("StringOf", func(m *Machine, a []Value) Value {
		return strOfTerms(m.ndBytes(m.strArg(a[0]), "string", int(m.intArg(a[1])), int(m.intArg(a[2])), m.strArg(a[3])))
	})
	reg("Bytes", func(m *Machine, a []Value) Value {
		ts := m.ndBytes(m.strArg(a[0]), "bytes", int(m.intArg(a[1])), int(m.intArg(a[2])), "")
		arr := make([]Value, len(ts))
		for i, t := range ts {
			arr[i] = t
		}
		return &Slice{arr: arr}
	})
	reg("In", func(m *Machine, a []Value) Value { return inSet(a[0].(*Term), m.strArg(a[1])) })
	reg("AllIn", func(m *Machine, a []Value) Value {
		r := TTrue
		set := m.strArg(a[1])
		for _, b := range a[0].(*Str).terms() {
			r = And(r, inSet(b, set))
		}
		return r
	})
	reg("Assume", func(m *Machine, a []Value) Value { m.assume(a[0].(*Term)); return nil })
	reg("Assert", func(m *Machine, a []Value) Value { m.assertProp(a[0].(*Term), m.strArg(a[1])); return nil })
	reg("Fail", func(m *Machine, a []Value) Value { m.violation(m.strArg(a[0]), m.model); return nil })
	reg("Cover", func(m *Machine, a []Value) Value { m.covers[m.strArg(a[0])] = true; return nil })
	reg("And", func(m *Machine, a []Value) Value {
		r := TTrue
		for _, x := range sliceTerms(m, a[0]) {
			r = And(r, x)
		}
		return r
	})
	reg("Or", func(m *Machine, a []Value) Value {
		r := TFalse
		for _, x := range sliceTerms(m, a[0]) {
			r = Or(r, x)
		}
		return r
	})
	reg("Implies", func(m *Machine, a []Value) Value { return Or(Not(a[0].(*Term)), a[1].(*Term)) })
	reg("IteInt", func(m *Machine, a []Value) Value { return Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term)) })
	reg("EqBytes", func(m *Machine, a []Value) Value {
		x, y := sliceTerms(m, a[0]), sliceTerms(m, a[1])
		if len(x) != len(y) {
			return TFalse
		}
		r := TTrue
		for i := range x {
			r = And(r, Eq(x[i], y[i]))
		}
		return r
	})
	reg("Concrete", func(m *Machine, a []Value) Value {
		t := a[0].(*Term)
		return BV(t.w, m.concretize(t))
	})
	reg("Capture", func(m *Machine, a []Value) Value {
		old := m.capture
		s := emptyStr
		m.capture = &s
		m.callHost(a[0].(*Closure))
		m.capture = old
		return s
	})
	reg("Dir", func(m *Machine, a []Value) Value { return &Str{s: "/scratch"} })
	reg("MapOrder", func(m *Machine, a []Value) Value {
		m.mapOrder = a[0].(*Term) == TTrue
		m.mapDev = 0
		if m.mapOrder {
			m.mapSites = map[ssa.Instruction]int{}
		}
		return nil
	})
	reg("Memo", func(m *Machine, a []Value) Value {
		k, f := a[0].(*Str), a[1].(*Closure)
		key := ""
		if k.conc() {
			key = f.fn.String() + "\x00" + k.s
			if r, ok := m.pureMemo[key]; ok {
				return r
			}
		}
		nt, nn := len(m.taken), len(m.nondets)
		r := m.callHost(f)
		if s := r.(*Str); key != "" && s.conc() && nt == len(m.taken) && nn == len(m.nondets) {
			m.pureMemo[key] = &Str{s: s.s}
		}
		return r
	})
	reg("Quiesce", func(m *Machine, a []Value) Value { m.quiesce(); return nil })
	reg("Symbolic", func(m *Machine, a []Value) Value { return TTrue })
	reg("Obs", func(m *Machine, a []Value) Value {
		lab, v := m.strArg(a[0]), a[1]
		m.obs = append(m.obs, func() string { return lab + "=" + m.render(v) })
		return nil
	})
}

// render evaluates a value under the final model lazily: it is rendered when
// the path ends, so terms are kept.
func (m *Machine) render(v Value) string {
	i := v.(Iface)
	switch x := i.V.(type) {
	case *Term:
		val := m.eval(x)
		if x.w == 0 {
			return fmt.Sprint(val != 0)
		}
		return fmt.Sprint(sext64(val, x.w))
	case *Str:
		b := make([]byte, x.Len())
		for k := range b {
			b[k] = byte(m.eval(x.at(k)))
		}
		return fmt.Sprintf("%q", string(b))
	}
	return "?"
}

func init() {
	extraV = func(e *Engine) {
		reg := func(n string, f func(m *Machine, a []Value) Value) {
			e.exts[vpkg+n] = func(m *Machine, fr *Frame, fn *ssa.Function, args []Value) Value { return f(m, args) }
		}
		reg("Thorough", func(m *Machine, a []Value) Value { return B(m.eng.thorough) })
		reg("Bound", func(m *Machine, a []Value) Value {
			if m.eng.thorough {
				return a[1]
			}
			return a[0]
		})
	}
}

var extraV func(e *Engine)
