package main

import (
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

func callerStd(fr *Frame, m *Machine) bool {
	if fr == nil || fr.fn == nil || fr.fn.Pkg == nil {
		return true
	}
	return isStd(fr.fn.Pkg.Pkg.Path())
}

func registerExternals(e *Engine) {
	reg := func(n string, f func(m *Machine, fr *Frame, a []Value) Value) {
		e.exts[n] = func(m *Machine, fr *Frame, fn *ssa.Function, args []Value) Value { return f(m, fr, args) }
	}
	nop := func(m *Machine, fr *Frame, a []Value) Value { return nil }
	konst := func(v Value) func(m *Machine, fr *Frame, a []Value) Value {
		return func(m *Machine, fr *Frame, a []Value) Value { return v }
	}

	// ---- sync ----
	lock := func(m *Machine, fr *Frame, a []Value) Value {
		p := a[0].(Ptr)
		if p == nil {
			m.nilDeref()
		}
		if m.inInit {
			return nil
		}
		std := callerStd(fr, m)
		if !std {
			m.yield("lock")
		}
		s := m.mutex(p)
		m.block(func() bool { return !s.locked && s.readers == 0 })
		s.locked = true
		return nil
	}
	unlock := func(m *Machine, fr *Frame, a []Value) Value {
		p := a[0].(Ptr)
		if m.inInit {
			return nil
		}
		s := m.mutex(p)
		if !s.locked {
			m.stopPath("violation", "fatal error: sync: unlock of unlocked mutex")
		}
		s.locked = false
		if !callerStd(fr, m) {
			m.yield("unlock")
		}
		return nil
	}
	reg("(*sync.Mutex).Lock", lock)
	reg("(*sync.Mutex).Unlock", unlock)
	reg("(*sync.RWMutex).Lock", lock)
	reg("(*sync.RWMutex).Unlock", unlock)
	try := func(m *Machine, fr *Frame, a []Value) Value {
		s := m.mutex(a[0].(Ptr))
		if s.locked || s.readers > 0 {
			return TFalse
		}
		s.locked = true
		return TTrue
	}
	reg("(*sync.Mutex).TryLock", try)
	reg("(*sync.RWMutex).TryLock", try)
	reg("(*sync.RWMutex).RLock", func(m *Machine, fr *Frame, a []Value) Value {
		if m.inInit {
			return nil
		}
		if !callerStd(fr, m) {
			m.yield("rlock")
		}
		s := m.mutex(a[0].(Ptr))
		m.block(func() bool { return !s.locked })
		s.readers++
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(m *Machine, fr *Frame, a []Value) Value {
		if m.inInit {
			return nil
		}
		s := m.mutex(a[0].(Ptr))
		if s.readers <= 0 {
			m.stopPath("violation", "fatal error: sync: RUnlock of unlocked RWMutex")
		}
		s.readers--
		return nil
	})
	wg := func(m *Machine, v Value) *wgState {
		p := v.(Ptr)
		s := m.wgs[p]
		if s == nil {
			s = &wgState{}
			m.wgs[p] = s
		}
		return s
	}
	reg("(*sync.WaitGroup).Add", func(m *Machine, fr *Frame, a []Value) Value {
		s := wg(m, a[0])
		s.n += m.concInt(a[1])
		if s.n < 0 {
			panic(targetPanic{v: m.runtimeError("sync: negative WaitGroup counter")})
		}
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(m *Machine, fr *Frame, a []Value) Value {
		s := wg(m, a[0])
		s.n--
		if s.n < 0 {
			panic(targetPanic{v: m.runtimeError("sync: negative WaitGroup counter")})
		}
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(m *Machine, fr *Frame, a []Value) Value {
		m.yield("wait")
		s := wg(m, a[0])
		m.block(func() bool { return s.n == 0 })
		return nil
	})
	e.exts["(*sync.Pool).Get"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := (*a[0].(Ptr)).(Struct)
		nw, _ := s[len(s)-1].(*Closure)
		if nw == nil {
			return Iface{}
		}
		return m.callHost(nw)
	}
	reg("(*sync.Pool).Put", nop)
	anyT := types.Universe.Lookup("any").Type()
	smap := func(m *Machine, v Value) *MapV {
		p := v.(Ptr)
		s := (*p).(Struct)
		if mv, ok := s[0].(*MapV); ok {
			return mv
		}
		mv := newMap(anyT)
		s[0] = mv
		return mv
	}
	reg("(*sync.Map).Load", func(m *Machine, fr *Frame, a []Value) Value {
		if en := m.mapFind(smap(m, a[0]), a[1]); en != nil {
			return Tuple{en.v, TTrue}
		}
		return Tuple{Iface{}, TFalse}
	})
	reg("(*sync.Map).Store", func(m *Machine, fr *Frame, a []Value) Value {
		m.mapSet(smap(m, a[0]), a[1], a[2])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(m *Machine, fr *Frame, a []Value) Value {
		mv := smap(m, a[0])
		if en := m.mapFind(mv, a[1]); en != nil {
			return Tuple{en.v, TTrue}
		}
		m.mapSet(mv, a[1], a[2])
		return Tuple{a[2], TFalse}
	})
	reg("(*sync.Map).LoadAndDelete", func(m *Machine, fr *Frame, a []Value) Value {
		mv := smap(m, a[0])
		if en := m.mapFind(mv, a[1]); en != nil {
			v := en.v
			m.mapDelete(mv, a[1])
			return Tuple{v, TTrue}
		}
		return Tuple{Iface{}, TFalse}
	})
	reg("(*sync.Map).Delete", func(m *Machine, fr *Frame, a []Value) Value {
		m.mapDelete(smap(m, a[0]), a[1])
		return nil
	})
	reg("(*sync.Map).Range", func(m *Machine, fr *Frame, a []Value) Value {
		mv := smap(m, a[0])
		for _, en := range append([]*mapEntry{}, mv.entries...) {
			if en.deleted {
				continue
			}
			if !m.branch(m.callHost(a[1].(*Closure), en.k, en.v).(*Term)) {
				break
			}
		}
		return nil
	})

	// ---- sync/atomic ----
	ay := func(m *Machine, fr *Frame) {
		if fr != nil && fr.caller != nil && !callerStd(fr.caller, m) {
			m.yield("atomic")
		}
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		ty := ty
		reg("sync/atomic.Load"+ty, func(m *Machine, fr *Frame, a []Value) Value { ay(m, fr); return *a[0].(Ptr) })
		reg("sync/atomic.Store"+ty, func(m *Machine, fr *Frame, a []Value) Value {
			ay(m, fr)
			*a[0].(Ptr) = a[1]
			return nil
		})
		reg("sync/atomic.Swap"+ty, func(m *Machine, fr *Frame, a []Value) Value {
			ay(m, fr)
			o := *a[0].(Ptr)
			*a[0].(Ptr) = a[1]
			return o
		})
		reg("sync/atomic.Add"+ty, func(m *Machine, fr *Frame, a []Value) Value {
			ay(m, fr)
			p := a[0].(Ptr)
			*p = Bin(OpAdd, (*p).(*Term), a[1].(*Term))
			return *p
		})
		reg("sync/atomic.CompareAndSwap"+ty, func(m *Machine, fr *Frame, a []Value) Value {
			ay(m, fr)
			p := a[0].(Ptr)
			var eq *Term
			if x, ok := (*p).(*Term); ok {
				eq = Eq(x, a[1].(*Term))
			} else {
				eq = B((*p).(UPtr).v == a[1].(UPtr).v)
			}
			if m.branch(eq) {
				*p = a[2]
				return TTrue
			}
			return TFalse
		})
	}
	reg("(*sync/atomic.Value).Load", func(m *Machine, fr *Frame, a []Value) Value {
		return (*a[0].(Ptr)).(Struct)[0]
	})
	reg("(*sync/atomic.Value).Store", func(m *Machine, fr *Frame, a []Value) Value {
		if a[1].(Iface).T == nil {
			panic(targetPanic{v: m.runtimeError("sync/atomic: store of nil value into Value")})
		}
		(*a[0].(Ptr)).(Struct)[0] = a[1]
		return nil
	})
	reg("(*sync/atomic.Value).Swap", func(m *Machine, fr *Frame, a []Value) Value {
		s := (*a[0].(Ptr)).(Struct)
		o := s[0]
		s[0] = a[1]
		return o
	})
	reg("(*sync/atomic.Value).CompareAndSwap", func(m *Machine, fr *Frame, a []Value) Value {
		s := (*a[0].(Ptr)).(Struct)
		if m.branch(m.eq(anyT, s[0], a[1])) {
			s[0] = a[2]
			return TTrue
		}
		return TFalse
	})

	// ---- runtime ----
	reg("runtime.Gosched", func(m *Machine, fr *Frame, a []Value) Value { m.gosched(); return nil })
	reg("runtime.KeepAlive", nop)
	reg("runtime.SetFinalizer", nop)
	reg("runtime.GC", nop)
	reg("runtime.NumGoroutine", konst(BV(64, 1)))
	reg("runtime.GOMAXPROCS", konst(BV(64, 8)))
	reg("runtime.NumCPU", konst(BV(64, 8)))
	reg("runtime.Caller", konst(Tuple{BV(64, 0), emptyStr, BV(64, 0), TFalse}))
	reg("runtime.Callers", konst(BV(64, 0)))
	reg("runtime.Stack", konst(BV(64, 0)))
	reg("runtime.Goexit", func(m *Machine, fr *Frame, a []Value) Value { panic(targetPanic{goexit: true, v: Iface{}}) })
	reg("runtime/debug.Stack", func(m *Machine, fr *Frame, a []Value) Value {
		return &Slice{arr: []Value{BV(8, 's')}}
	})
	reg("runtime/debug.PrintStack", nop)
	reg("(runtime.errorString).Error", func(m *Machine, fr *Frame, a []Value) Value {
		return concatStr(mkStr("runtime error: "), a[0].(*Str))
	})

	bytesOf := func(v Value) []*Term {
		switch x := v.(type) {
		case *Str:
			return x.terms()
		case *Slice:
			r := make([]*Term, len(x.arr))
			for i, t := range x.arr {
				r[i] = t.(*Term)
			}
			return r
		}
		panic("bytesOf")
	}
	// ---- os, printing ----
	regFiles(reg, bytesOf)
	for _, n := range []string{"ln", "f", ""} {
		n := n
		reg("fmt.Print"+n, func(m *Machine, fr *Frame, a []Value) Value {
			if m.capture != nil {
				r := m.callHost(&Closure{fn: m.eng.stdFunc("fmt", "Sprint"+n)}, a...)
				*m.capture = concatStr(*m.capture, r.(*Str))
			}
			return Tuple{BV(64, 0), Iface{}}
		})
	}
	reg("os.Getenv", konst(emptyStr))
	reg("os.LookupEnv", konst(Tuple{emptyStr, TFalse}))
	reg("runtime/debug.ReadBuildInfo", konst(Tuple{Ptr(nil), TFalse}))
	reg("os.Exit", func(m *Machine, fr *Frame, a []Value) Value {
		m.stopPath("violation", "os.Exit called")
		return nil
	})

	// ---- math ----
	for _, n := range []string{"Float32bits", "Float32frombits", "Float64bits", "Float64frombits"} {
		reg("math."+n, func(m *Machine, fr *Frame, a []Value) Value { return a[0] })
	}
	f1 := map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt,
		"Exp": math.Exp, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10}
	for n, f := range f1 {
		f := f
		reg("math."+n, func(m *Machine, fr *Frame, a []Value) Value {
			return mkFloat(64, f(floatOf(BV(64, m.concretize(a[0].(*Term))))))
		})
	}
	reg("math.Abs", func(m *Machine, fr *Frame, a []Value) Value {
		return Bin(OpBvAnd, a[0].(*Term), BV(64, 1<<63-1))
	})

	// ---- bytealg / strings ----
	indexByte := func(m *Machine, fr *Frame, a []Value) Value {
		c := a[1].(*Term)
		for i, t := range bytesOf(a[0]) {
			if m.branch(Eq(t, c)) {
				return BV(64, uint64(i))
			}
		}
		return BV(64, ^uint64(0))
	}
	lastIndexByte := func(m *Machine, fr *Frame, a []Value) Value {
		c := a[1].(*Term)
		b := bytesOf(a[0])
		for i := len(b) - 1; i >= 0; i-- {
			if m.branch(Eq(b[i], c)) {
				return BV(64, uint64(i))
			}
		}
		return BV(64, ^uint64(0))
	}
	index := func(m *Machine, fr *Frame, a []Value) Value {
		s, t := bytesOf(a[0]), bytesOf(a[1])
		for i := 0; i+len(t) <= len(s); i++ {
			c := TTrue
			for j := range t {
				c = And(c, Eq(s[i+j], t[j]))
				if c == TFalse {
					break
				}
			}
			if m.branch(c) {
				return BV(64, uint64(i))
			}
		}
		return BV(64, ^uint64(0))
	}
	count := func(m *Machine, fr *Frame, a []Value) Value {
		c := a[1].(*Term)
		n := uint64(0)
		for _, t := range bytesOf(a[0]) {
			if m.branch(Eq(t, c)) {
				n++
			}
		}
		return BV(64, n)
	}
	for _, p := range []string{"internal/bytealg.", "strings.", "bytes.", "internal/stringslite."} {
		reg(p+"IndexByte", indexByte)
		reg(p+"IndexByteString", indexByte)
		reg(p+"LastIndexByte", lastIndexByte)
		reg(p+"LastIndexByteString", lastIndexByte)
		reg(p+"Index", index)
		reg(p+"IndexString", index)
	}
	reg("internal/bytealg.Count", count)
	reg("internal/bytealg.CountString", count)
	reg("internal/bytealg.Equal", func(m *Machine, fr *Frame, a []Value) Value {
		return eqStr(strOfTerms(bytesOf(a[0])), strOfTerms(bytesOf(a[1])))
	})
	reg("bytes.Equal", func(m *Machine, fr *Frame, a []Value) Value {
		return eqStr(strOfTerms(bytesOf(a[0])), strOfTerms(bytesOf(a[1])))
	})
	cmp := func(m *Machine, fr *Frame, a []Value) Value {
		x, y := strOfTerms(bytesOf(a[0])), strOfTerms(bytesOf(a[1]))
		return Ite(eqStr(x, y), BV(64, 0), Ite(ltStr(x, y, false), BV(64, ^uint64(0)), BV(64, 1)))
	}
	reg("internal/bytealg.Compare", cmp)
	reg("internal/bytealg.CompareString", cmp)
	reg("strings.Compare", cmp)
	reg("bytes.Compare", cmp)
	reg("internal/bytealg.MakeNoZero", func(m *Machine, fr *Frame, a []Value) Value {
		return m.makeSlice(types.Typ[types.Uint8], m.concInt(a[0]), m.concInt(a[0]))
	})
	reg("(*strings.Builder).copyCheck", nop)
	reg("internal/abi.NoEscape", func(m *Machine, fr *Frame, a []Value) Value { return a[0] })
	reg("internal/abi.Escape", func(m *Machine, fr *Frame, a []Value) Value { return a[0] })
	reg("(*internal/godebug.Setting).Value", konst(emptyStr))
	reg("(*internal/godebug.Setting).IncNonDefault", nop)
	reg("internal/godebug.New", func(m *Machine, fr *Frame, a []Value) Value { return Ptr(nil) })

	// ---- errors ----
	e.exts["errors.As"] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return B(m.errorsAs(a[0].(Iface), a[1].(Iface)))
	}

	// ---- time ----
	reg("time.Now", func(m *Machine, fr *Frame, a []Value) Value {
		return Struct{BV(64, 0), BV(64, 63_866_880_000), Ptr(nil)}
	})
	reg("time.runtimeNano", konst(BV(64, 1)))
	reg("time.initLocal", konst(nil)) // the local time zone is UTC
	// Virtual time: it only advances when every goroutine waits, to the next timer.
	reg("time.now", func(m *Machine, fr *Frame, a []Value) Value {
		return Tuple{BV(64, uint64(1_731_283_200+m.clock/1e9)), BV(32, uint64(m.clock%1e9)), BV(64, uint64(1+m.clock))}
	})
	addTimer := func(m *Machine, d *Term, f func()) *timerState {
		at := m.clock
		if d.isConst() && int64(d.val) > 0 {
			at += int64(d.val)
		}
		t := &timerState{at: at, f: f, seq: len(m.timers)}
		m.timers = append(m.timers, t)
		return t
	}
	newTimer := func(m *Machine, c *Chan, ts *timerState) Value {
		var cv Value = c
		if c == nil {
			cv = (*Chan)(nil)
		}
		var v Value = Struct{cv, &Host{ts}}
		return &v
	}
	timeV := func(m *Machine) Value {
		return Struct{BV(64, uint64(m.clock%1e9)), BV(64, uint64(63_866_880_000+m.clock/1e9)), Ptr(nil)}
	}
	reg("time.Sleep", func(m *Machine, fr *Frame, a []Value) Value {
		awake := false
		addTimer(m, a[0].(*Term), func() { awake = true })
		m.block(func() bool { return awake })
		return nil
	})
	reg("time.AfterFunc", func(m *Machine, fr *Frame, a []Value) Value {
		f := a[1].(*Closure)
		ts := addTimer(m, a[0].(*Term), func() {
			g := m.newG("timer")
			g.start(func() { m.callG(g, f, nil) })
		})
		return newTimer(m, nil, ts)
	})
	mkChanTimer := func(m *Machine, d *Term) (*Chan, *timerState) {
		c := &Chan{cap: 1, elem: m.eng.byPath["time"].Type("Time").Type()}
		ts := addTimer(m, d, func() {
			if len(c.buf) == 0 {
				m.chanSendNow(c, timeV(m))
			}
		})
		return c, ts
	}
	reg("time.NewTimer", func(m *Machine, fr *Frame, a []Value) Value {
		c, ts := mkChanTimer(m, a[0].(*Term))
		return newTimer(m, c, ts)
	})
	reg("time.After", func(m *Machine, fr *Frame, a []Value) Value {
		c, _ := mkChanTimer(m, a[0].(*Term))
		return c
	})
	reg("time.NewTicker", func(m *Machine, fr *Frame, a []Value) Value {
		c, ts := mkChanTimer(m, a[0].(*Term))
		return newTimer(m, c, ts)
	})
	stopT := func(m *Machine, fr *Frame, a []Value) Value {
		h := (*a[0].(Ptr)).(Struct)[1].(*Host)
		ts := h.v.(*timerState)
		was := !ts.stopped
		ts.stopped = true
		return B(was)
	}
	reg("(*time.Timer).Stop", stopT)
	reg("(*time.Ticker).Stop", func(m *Machine, fr *Frame, a []Value) Value { stopT(m, fr, a); return nil })
	reg("(*time.Timer).Reset", func(m *Machine, fr *Frame, a []Value) Value {
		h := (*a[0].(Ptr)).(Struct)[1].(*Host)
		ts := h.v.(*timerState)
		was := !ts.stopped
		ts.stopped = false
		ts.at = m.clock
		if t := a[1].(*Term); t.isConst() && int64(t.val) > 0 {
			ts.at += int64(t.val)
		}
		return B(was)
	})
}

func (m *Machine) errorsAs(err, target Iface) bool {
	if err.T == nil {
		return false
	}
	if target.T == nil {
		panic(targetPanic{v: m.runtimeError("errors: target cannot be nil")})
	}
	pt := target.T.Underlying().(*types.Pointer)
	et := pt.Elem()
	for {
		it, isI := et.Underlying().(*types.Interface)
		if isI && m.eng.implements(err.T, it) {
			*target.V.(Ptr) = err
			return true
		}
		if !isI && types.Identical(err.T, et) {
			storeInto(target.V.(Ptr), err.V)
			return true
		}
		if f := m.eng.exportedMethod(err.T, "As"); f != nil {
			if r, ok := m.callHost(&Closure{fn: f}, err.V, target).(*Term); ok && m.branch(r) {
				return true
			}
		}
		f := m.eng.exportedMethod(err.T, "Unwrap")
		if f == nil {
			return false
		}
		switch x := m.callHost(&Closure{fn: f}, err.V).(type) {
		case Iface:
			err = x
			if err.T == nil {
				return false
			}
		case *Slice:
			for _, s := range x.arr {
				if i := s.(Iface); i.T != nil && m.errorsAs(i, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// copySlice copies a slice of scalars.
func copySlice(s *Slice) *Slice {
	if s == nil {
		return &Slice{}
	}
	return &Slice{arr: append([]Value{}, s.arr...)}
}
