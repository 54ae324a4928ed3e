package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// compiled representation of functions

type operand struct {
	slot int32 // >=0 register; -1 constant value in k; -2 global; -3 nil operand
	k    Value
	g    *ssa.Global
}

type cinstr struct {
	ins ssa.Instruction
	ops []operand
	dst int32
}

type cblock struct {
	b     *ssa.BasicBlock
	phis  []cinstr
	body  []cinstr
	predN int
}

type cfunc struct {
	fn     *ssa.Function
	nslots int
	params []int32
	free   []int32
	blocks []*cblock
	ext    extFn
	pure   bool // see pureFns
	extOK  bool
}

// mfunc is a function as one machine sees it.
type mfunc struct {
	cf    *cfunc
	calls int
}

type extFn func(m *Machine, fr *Frame, fn *ssa.Function, args []Value) Value

var compCache sync.Map // *ssa.Function -> *cfunc

func (e *Engine) compiled(fn *ssa.Function) *cfunc {
	if c, ok := compCache.Load(fn); ok {
		return c.(*cfunc)
	}
	c := e.compile(fn)
	compCache.Store(fn, c)
	return c
}

func (e *Engine) compile(fn *ssa.Function) *cfunc {
	c := &cfunc{fn: fn, pure: pureFns[fn.String()]}
	c.ext = e.external(fn)
	if c.ext != nil {
		return c
	}
	slots := map[ssa.Value]int32{}
	add := func(v ssa.Value) int32 {
		if s, ok := slots[v]; ok {
			return s
		}
		s := int32(len(slots))
		slots[v] = s
		return s
	}
	for _, p := range fn.Params {
		c.params = append(c.params, add(p))
	}
	for _, p := range fn.FreeVars {
		c.free = append(c.free, add(p))
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
		}
	}
	mkop := func(v ssa.Value) operand {
		switch x := v.(type) {
		case nil:
			return operand{slot: -3}
		case *ssa.Const:
			return operand{slot: -1, k: constValue(x)}
		case *ssa.Global:
			return operand{slot: -2, g: x}
		case *ssa.Function:
			return operand{slot: -1, k: &Closure{fn: x}}
		case *ssa.Builtin:
			return operand{slot: -1, k: &Closure{bi: x}}
		}
		s, ok := slots[v]
		if !ok {
			panic(fmt.Sprintf("no slot for %s in %s", v.Name(), fn))
		}
		return operand{slot: s}
	}
	for _, b := range fn.Blocks {
		cb := &cblock{b: b}
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{ins: ins, dst: -1}
			if v, ok := ins.(ssa.Value); ok {
				ci.dst = slots[v]
			}
			for _, r := range ins.Operands(nil) {
				if *r == nil {
					ci.ops = append(ci.ops, operand{slot: -3})
				} else {
					ci.ops = append(ci.ops, mkop(*r))
				}
			}
			if _, ok := ins.(*ssa.Phi); ok {
				cb.phis = append(cb.phis, ci)
			} else {
				cb.body = append(cb.body, ci)
			}
		}
		c.blocks = append(c.blocks, cb)
	}
	c.nslots = len(slots)
	return c
}

func constValue(c *ssa.Const) Value {
	t := c.Type().Underlying()
	if c.Value == nil {
		return zero(c.Type())
	}
	b, ok := t.(*types.Basic)
	if !ok {
		// type parameter-ish; should not happen with instantiation
		panic("constValue: " + c.String())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return B(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return mkStr(string(rune(i)))
	case b.Info()&types.IsInteger != 0 || b.Kind() == types.UnsafePointer:
		v := constant.ToInt(c.Value)
		w := uint8(64)
		if b.Kind() != types.UnsafePointer {
			w = basicWidth(b)
		}
		if i, ok := constant.Int64Val(v); ok {
			return BV(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return BV(w, u)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if basicWidth(b) == 32 {
			f32, _ := constant.Float32Val(c.Value)
			return mkFloat(32, float64(f32))
		}
		return mkFloat(64, f)
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return Complex(complex(re, im))
	}
	panic("constValue: " + c.String())
}

// Frame is an activation record.
type Frame struct {
	g         *G
	caller    *Frame
	fn        *ssa.Function
	cf        *cfunc
	regs      []Value
	block     *cblock
	prev      *ssa.BasicBlock
	defers    []deferred
	result    Value
	panicking bool
	panicv    any
	curIns    ssa.Instruction
}

type deferred struct {
	fn   *Closure
	args []Value
	ins  *ssa.Defer
}

func (m *Machine) global(g *ssa.Global) Ptr {
	p, ok := m.globals[g]
	if !ok {
		if o := m.osGlobal(g); o != nil {
			return o
		}
		v := zero(deref(g.Type()))
		if g.Pkg != nil && deref(g.Type()).String() == "embed.FS" {
			v = m.eng.embedValue(deref(g.Type()), m.eng.embedded[g.Pkg.Pkg.Path()])
		}
		p = &v
		m.globals[g] = p
		if pk := g.Pkg; pk != nil && !m.inited[pk] && m.eng.skipInit(pk.Pkg.Path()) {
			m.warn("global of uninitialised package: " + g.String())
		}
	}
	return p
}

func (fr *Frame) get(m *Machine, o *operand) Value {
	switch o.slot {
	case -1:
		return o.k
	case -2:
		return m.global(o.g)
	case -3:
		return nil
	}
	return fr.regs[o.slot]
}

// call invokes an SSA function.
func (m *Machine) call(g *G, caller *Frame, fn *ssa.Function, args []Value, free []Value) Value {
	mf := m.fns[fn]
	if mf == nil {
		mf = &mfunc{cf: m.eng.compiled(fn)}
		m.fns[fn] = mf
	}
	cf := mf.cf
	if cf.ext != nil {
		return cf.ext(m, caller, fn, args)
	}
	if fn.Blocks == nil {
		m.unsupported("function without body: %s", fn.String())
	}
	key := ""
	if cf.pure {
		if key = memoKey(args); key != "" {
			if r, ok := m.pureMemo[key]; ok {
				return r
			}
		}
	}
	g.depth++
	if g.depth > m.opts.Depth {
		m.stopPath("violation", "unbounded recursion in "+fn.String())
	}
	fr := &Frame{g: g, caller: caller, fn: fn, cf: cf}
	fr.regs = make([]Value, cf.nslots)
	for i, p := range cf.params {
		fr.regs[p] = args[i]
	}
	for i, p := range cf.free {
		fr.regs[p] = free[i]
	}
	prevTop := g.top
	g.top = fr
	mf.calls++
	fr.block = cf.blocks[0]
	for fr.block != nil {
		m.runFrame(fr)
	}
	g.top = prevTop
	g.depth--
	if key != "" && !fr.panicking {
		m.pureMemo[key] = fr.result
	}
	return fr.result
}

// pureFns are functions of the standard library whose result only depends on
// their string arguments, and is never modified: it is kept from a path to the
// next (parsing the templates is most of the work of the generator).
var pureFns = map[string]bool{"text/template/parse.Parse": true}

// memoKey identifies the concrete string arguments of a pure function.
func memoKey(args []Value) string {
	var b strings.Builder
	for _, a := range args {
		if s, ok := a.(*Str); ok {
			if !s.conc() {
				return ""
			}
			fmt.Fprintf(&b, "%q,", s.s)
		}
	}
	return b.String()
}

func (m *Machine) zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

func (m *Machine) runFrame(fr *Frame) {
	defer func() {
		if fr.block == nil {
			return
		}
		r := recover()
		if r == nil {
			panic("runFrame exited without return in " + fr.fn.String())
		}
		if _, ok := r.(targetPanic); !ok {
			panic(r)
		}
		fr.g.top = fr
		d := 0
		for f := fr; f != nil; f = f.caller {
			d++
		}
		fr.g.depth = d
		fr.panicking = true
		fr.panicv = r
		m.runDefers(fr)
		if fr.fn.Recover != nil {
			fr.prev = fr.block.b
			fr.block = fr.cf.blocks[fr.fn.Recover.Index]
		} else {
			fr.result = m.zeroResult(fr.fn)
			fr.block = nil
		}
	}()
	for {
		cb := fr.block
		// phis
		if len(cb.phis) > 0 {
			pi := -1
			for i, p := range cb.b.Preds {
				if p == fr.prev {
					pi = i
					break
				}
			}
			if len(cb.phis) == 1 {
				c := &cb.phis[0]
				fr.regs[c.dst] = fr.get(m, &c.ops[pi])
			} else {
				tmp := make([]Value, len(cb.phis))
				for i := range cb.phis {
					tmp[i] = fr.get(m, &cb.phis[i].ops[pi])
				}
				for i := range cb.phis {
					fr.regs[cb.phis[i].dst] = tmp[i]
				}
			}
		}
		next := (*cblock)(nil)
		m.steps += len(cb.body)
		if m.steps > m.opts.Steps && !m.inInit {
			m.stopPath("bound", fmt.Sprintf("step bound %d exceeded", m.opts.Steps)+m.where())
		}
		for i := range cb.body {
			c := &cb.body[i]
			fr.curIns = c.ins
			switch ins := c.ins.(type) {
			case *ssa.Return:
				switch len(c.ops) {
				case 0:
				case 1:
					fr.result = fr.get(m, &c.ops[0])
				default:
					t := make(Tuple, len(c.ops))
					for j := range c.ops {
						t[j] = fr.get(m, &c.ops[j])
					}
					fr.result = t
				}
				fr.block = nil
				return
			case *ssa.Jump:
				next = fr.cf.blocks[cb.b.Succs[0].Index]
			case *ssa.If:
				cond := fr.get(m, &c.ops[0]).(*Term)
				s := 1
				if m.branch(cond) {
					s = 0
				}
				next = fr.cf.blocks[cb.b.Succs[s].Index]
			case *ssa.Panic:
				v := fr.get(m, &c.ops[0]).(Iface)
				panic(targetPanic{v: v})
			default:
				m.exec(fr, ins, c)
			}
		}
		if next == nil {
			panic("block without successor in " + fr.fn.String())
		}
		fr.prev = cb.b
		fr.block = next
	}
}

func (m *Machine) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		m.runDefer(fr, d)
	}
	if fr.panicking {
		panic(fr.panicv)
	}
}

func (m *Machine) runDefer(fr *Frame, d deferred) {
	ok := false
	defer func() {
		if ok {
			return
		}
		r := recover()
		if _, is := r.(targetPanic); !is {
			panic(r)
		}
		fr.g.top = fr
		fr.panicking = true
		fr.panicv = r
	}()
	m.callClosure(fr, d.fn, d.args, nil)
	ok = true
}

// doRecover implements recover() called from frame fr (the deferred function).
func (m *Machine) doRecover(fr *Frame) Value {
	c := fr.caller
	if c != nil && c.panicking && !fr.panicking {
		c.panicking = false
		tp := c.panicv.(targetPanic)
		c.panicv = nil
		return tp.v
	}
	return Iface{}
}

func (m *Machine) nilDeref() {
	panic(targetPanic{v: m.runtimeError("invalid memory address or nil pointer dereference")})
}

func (m *Machine) exec(fr *Frame, instr ssa.Instruction, c *cinstr) {
	get := func(i int) Value { return fr.get(m, &c.ops[i]) }
	switch ins := instr.(type) {
	case *ssa.Alloc:
		v := zero(deref(ins.Type()))
		p := &v
		fr.regs[c.dst] = p
	case *ssa.UnOp:
		fr.regs[c.dst] = m.unop(fr, ins, get(0))
	case *ssa.BinOp:
		fr.regs[c.dst] = m.binop(ins.Op, ins.X.Type(), ins.Y.Type(), get(0), get(1))
	case *ssa.Call:
		fr.regs[c.dst] = m.doCall(fr, &ins.Call, c)
	case *ssa.ChangeInterface, *ssa.ChangeType:
		fr.regs[c.dst] = get(0)
	case *ssa.Convert:
		fr.regs[c.dst] = m.convert(fr, ins.Type(), ins.X.Type(), get(0))
	case *ssa.MultiConvert:
		fr.regs[c.dst] = m.convert(fr, ins.Type(), ins.X.Type(), get(0))
	case *ssa.MakeInterface:
		fr.regs[c.dst] = Iface{T: ins.X.Type(), V: copyVal(get(0))}
	case *ssa.Extract:
		fr.regs[c.dst] = get(0).(Tuple)[ins.Index]
	case *ssa.Slice:
		fr.regs[c.dst] = m.slice(get(0), get(1), get(2), get(3))
	case *ssa.Store:
		p := get(0)
		pp, ok := p.(Ptr)
		if !ok {
			m.unsupported("store through %T", p)
		}
		if pp == nil {
			m.nilDeref()
		}
		storeInto(pp, get(1))
	case *ssa.FieldAddr:
		p, ok := get(0).(Ptr)
		if !ok {
			m.unsupported("FieldAddr of %T", get(0))
		}
		if p == nil {
			m.nilDeref()
		}
		s, ok := (*p).(Struct)
		if !ok {
			m.unsupported("FieldAddr on %T", *p)
		}
		fr.regs[c.dst] = &s[ins.Field]
	case *ssa.Field:
		s, ok := get(0).(Struct)
		if !ok {
			m.unsupported("Field of %T", get(0))
		}
		fr.regs[c.dst] = s[ins.Field]
	case *ssa.IndexAddr:
		fr.regs[c.dst] = m.indexAddr(get(0), get(1).(*Term), ins.Index.Type())
	case *ssa.Index:
		fr.regs[c.dst] = m.index(get(0), get(1).(*Term), ins.Index.Type())
	case *ssa.Lookup:
		fr.regs[c.dst] = m.lookup(ins, get(0), get(1))
	case *ssa.MapUpdate:
		mv := get(0).(*MapV)
		if mv == nil {
			panic(targetPanic{v: m.runtimeError("assignment to entry in nil map")})
		}
		m.mapSet(mv, get(1), get(2))
	case *ssa.MakeMap:
		fr.regs[c.dst] = newMap(ins.Type().Underlying().(*types.Map).Key())
	case *ssa.MakeChan:
		n := m.concInt(get(0))
		fr.regs[c.dst] = &Chan{cap: n, elem: ins.Type().Underlying().(*types.Chan).Elem()}
	case *ssa.MakeSlice:
		n, cp := m.concInt(get(0)), m.concInt(get(1))
		if n < 0 || cp < n || cp > 1<<24 {
			panic(targetPanic{v: m.runtimeError("makeslice: len out of range")})
		}
		fr.regs[c.dst] = m.makeSlice(ins.Type().Underlying().(*types.Slice).Elem(), n, cp)
	case *ssa.MakeClosure:
		var free []Value
		for i := 1; i < len(c.ops); i++ {
			free = append(free, get(i))
		}
		fr.regs[c.dst] = &Closure{fn: ins.Fn.(*ssa.Function), free: free}
	case *ssa.TypeAssert:
		fr.regs[c.dst] = m.typeAssert(ins, get(0).(Iface))
	case *ssa.Range:
		fr.regs[c.dst] = m.rangeIter(get(0), fr, ins)
	case *ssa.Next:
		fr.regs[c.dst] = m.next(fr, ins, get(0).(*iterV))
	case *ssa.Send:
		m.chanSend(get(0).(*Chan), copyVal(get(1)))
	case *ssa.Select:
		fr.regs[c.dst] = m.execSelect(ins, c, fr)
	case *ssa.Defer:
		fn, args := m.prepareCall(fr, &ins.Call, c.ops)
		if ins.DeferStack != nil {
			m.unsupported("defer stack (range-over-func with defer)")
		}
		fr.defers = append(fr.defers, deferred{fn, args, ins})
	case *ssa.RunDefers:
		m.runDefers(fr)
	case *ssa.Go:
		fn, args := m.prepareCall(fr, &ins.Call, c.ops)
		m.goStmt(fr, fn, args)
	case *ssa.SliceToArrayPointer:
		s := get(0).(*Slice)
		n := int(deref(ins.Type()).Underlying().(*types.Array).Len())
		if len(s.arr) < n {
			panic(targetPanic{v: m.runtimeError("cannot convert slice to array pointer")})
		}
		var v Value = Array(s.arr[:n:n])
		fr.regs[c.dst] = &v
	default:
		m.unsupported("instruction %T", ins)
	}
}

func (m *Machine) goStmt(fr *Frame, fn *Closure, args []Value) {
	if m.inInit {
		m.warn("go statement during shared init ignored: " + fr.fn.String())
		return
	}
	name := "go"
	if fn.fn != nil {
		name = fn.fn.RelString(nil)
	}
	var g *G
	g = m.newG(name)
	g.start(func() {
		m.callG(g, fn, args)
	})
	m.yield("go")
}

func (m *Machine) callG(g *G, fn *Closure, args []Value) {
	root := &Frame{g: g, fn: nil}
	_ = root
	if fn.nat != nil {
		fn.nat(m, args)
		return
	}
	if fn.fn == nil {
		if fn.bi != nil {
			m.unsupported("go builtin")
		}
		m.nilDeref()
	}
	m.call(g, nil, fn.fn, args, fn.free)
}

// prepareCall evaluates the callee and arguments; ops are the operands of the
// instruction in Operands order (value, args...).
func (m *Machine) prepareCall(fr *Frame, call *ssa.CallCommon, ops []operand) (*Closure, []Value) {
	v := fr.get(m, &ops[0])
	n := len(call.Args)
	if call.IsInvoke() {
		recv := v.(Iface)
		if recv.T == nil {
			m.nilDeref()
		}
		f := m.findMethod(recv, call.Method)
		args := make([]Value, 0, n+1)
		args = append(args, recv.V)
		for i := 0; i < n; i++ {
			args = append(args, copyVal(fr.get(m, &ops[1+i])))
		}
		return f, args
	}
	cl, ok := v.(*Closure)
	if !ok {
		m.unsupported("call of %T", v)
	}
	args := make([]Value, n)
	for i := 0; i < n; i++ {
		args[i] = copyVal(fr.get(m, &ops[1+i]))
	}
	return cl, args
}

func (m *Machine) findMethod(recv Iface, meth *types.Func) *Closure {
	key := methKey{recv.T, meth.Id()}
	if f, ok := m.eng.methCache.Load(key); ok {
		return f.(*Closure)
	}
	fn := m.eng.prog.LookupMethod(recv.T, meth.Pkg(), meth.Name())
	if fn == nil {
		m.unsupported("method %s not found on %s", meth.Name(), recv.T)
	}
	c := &Closure{fn: fn}
	m.eng.methCache.Store(key, c)
	return c
}

type methKey struct {
	t types.Type
	n string
}

func (m *Machine) doCall(fr *Frame, call *ssa.CallCommon, c *cinstr) Value {
	fn, args := m.prepareCall(fr, call, c.ops)
	return m.callClosureFrom(fr, fn, args, call)
}

func (m *Machine) callClosureFrom(fr *Frame, fn *Closure, args []Value, call *ssa.CallCommon) Value {
	if fn == nil {
		m.nilDeref()
	}
	if fn.bi != nil {
		return m.builtin(fr, fn.bi, args, call)
	}
	if fn.nat != nil {
		return fn.nat(m, args)
	}
	return m.call(fr.g, fr, fn.fn, args, fn.free)
}

// callClosure calls a function value from the frame (for defers, hosts).
func (m *Machine) callClosure(fr *Frame, fn *Closure, args []Value, call *ssa.CallCommon) Value {
	return m.callClosureFrom(fr, fn, args, call)
}

// callHost calls an interpreted function from host code running on the
// current goroutine.
func (m *Machine) callHost(fn *Closure, args ...Value) Value {
	g := m.cur
	if fn == nil {
		m.nilDeref()
	}
	if fn.nat != nil {
		return fn.nat(m, args)
	}
	return m.call(g, g.top, fn.fn, args, fn.free)
}

func (m *Machine) concInt(v Value) int {
	t := v.(*Term)
	x := m.concretize(t)
	return int(sext64(x, t.w))
}

func (m *Machine) makeSlice(elem types.Type, n, cp int) *Slice {
	a := make([]Value, n, cp)
	full := a[:cp]
	if cp > 0 {
		z := zero(elem)
		_, isS := z.(Struct)
		_, isA := z.(Array)
		for i := range full {
			if (isS || isA) && i > 0 {
				full[i] = zero(elem)
			} else {
				full[i] = z
			}
		}
	}
	return &Slice{arr: a}
}

func (m *Machine) execSelect(ins *ssa.Select, c *cinstr, fr *Frame) Value {
	cases := make([]selCase, len(ins.States))
	k := 0
	for i, st := range ins.States {
		ch := fr.get(m, &c.ops[k]).(*Chan)
		k++
		cases[i].c = ch
		if st.Dir == types.SendOnly {
			cases[i].send = true
		}
		// Operands order: Chan, Send for every state
		v := fr.get(m, &c.ops[k])
		k++
		if st.Dir == types.SendOnly {
			cases[i].v = copyVal(v)
		}
	}
	idx, val, ok := m.doSelect(cases, ins.Blocking)
	res := Tuple{BV(64, uint64(int64(idx))), B(ok)}
	for i, st := range ins.States {
		if st.Dir == types.RecvOnly {
			if i == idx {
				res = append(res, val)
			} else {
				res = append(res, zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	return res
}

func (m *Machine) typeAssert(ins *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	if it, isI := ins.AssertedType.Underlying().(*types.Interface); isI {
		if x.T != nil && m.eng.implements(x.T, it) {
			ok = true
			v = x
		} else {
			v = Iface{}
		}
	} else {
		if x.T != nil && types.Identical(x.T, ins.AssertedType) {
			ok = true
			v = copyVal(x.V)
		} else {
			v = nil
		}
	}
	if !ok {
		if !ins.CommaOk {
			d := "nil"
			if x.T != nil {
				d = x.T.String()
			}
			panic(targetPanic{v: m.runtimeError(fmt.Sprintf("interface conversion: interface is %s, not %s", d, ins.AssertedType))})
		}
		v = zero(ins.AssertedType)
	}
	if ins.CommaOk {
		return Tuple{v, B(ok)}
	}
	return v
}

func (m *Machine) unop(fr *Frame, ins *ssa.UnOp, x Value) Value {
	switch ins.Op {
	case token.MUL:
		p, ok := x.(Ptr)
		if !ok {
			m.unsupported("load through %T", x)
		}
		if p == nil {
			m.nilDeref()
		}
		return copyVal(*p)
	case token.ARROW:
		c := x.(*Chan)
		v, ok := m.chanRecv(c)
		if ins.CommaOk {
			return Tuple{v, B(ok)}
		}
		return v
	case token.NOT:
		return Not(x.(*Term))
	case token.XOR:
		return BvNot(x.(*Term))
	case token.SUB:
		switch t := x.(type) {
		case *Term:
			b := ins.X.Type().Underlying().(*types.Basic)
			if b.Info()&types.IsFloat != 0 {
				return Bin(OpBvXor, t, BV(t.w, uint64(1)<<(t.w-1)))
			}
			return Neg(t)
		case Complex:
			return -t
		}
	}
	m.unsupported("unop %s", ins.Op)
	return nil
}
