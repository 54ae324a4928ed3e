package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Options of one harness.
type Options struct {
	Steps      int    // max interpreted instructions per path
	Depth      int    // max call depth
	Preempt    int    // max deviations from the round-robin schedule (preemptions and picks)
	MapOrder   string // "insert" or "any"
	Timers     bool
	Deadlock   string // "violation" (default) or "ok"
	MaxPaths   int
	MaxConcret int // max values enumerated per concretisation
	NoReplay   bool
	Sched      bool // replay needs schedule
}

func defaultOptions() Options {
	return Options{Steps: 4_000_000, Depth: 600, Preempt: 0, MapOrder: "insert", Deadlock: "violation",
		MaxPaths: 5000000, MaxConcret: 300}
}

// pathStop ends a path.
type pathStop struct {
	kind string // done, infeasible, violation, deadlock, unsupported, bound, inconclusive
	msg  string
}

type killed struct{}

// targetPanic is a Go panic of the interpreted program.
type targetPanic struct {
	v      Value // Iface
	goexit bool
}

// Item is a worklist item.
type Item struct {
	prefix []int32
	model  map[string]uint64
}

// NonDet is one recorded nondeterministic input.
type NonDet struct {
	Name string
	Kind string
	Vals []*Term // scalar: 1 value; string/bytes: its bytes
}

// Machine interprets one path at a time.
type Machine struct {
	eng     *Engine
	id      int
	opts    Options
	globals map[*ssa.Global]Ptr
	inited  map[*ssa.Package]bool
	solver  *Solver

	pureMemo map[string]Value
	addrs    map[any]uint64

	// path state
	prefix   []int32
	taken    []int32
	model    map[string]uint64
	memo     map[*Term]uint64
	known    map[*Term]bool
	conds    []*Term
	nvars    int
	steps    int
	alts     []*Item
	nondets  []NonDet
	covers   map[string]bool
	opened   map[Ptr]*openFile
	temps    int
	capture  **Str // output being captured
	obs      []func() string
	asserts  int
	schedLog []string
	stop     *pathStop
	engErr   string
	inInit   bool
	branches int
	lastPos  ssa.Instruction
	violTag  map[string]bool

	gs       []*G
	cur      *G
	preempts int
	done     chan struct{}
	finished bool
	killing  bool
	mutexes  map[*Value]*mutexState
	wgs      map[*Value]*wgState
	timers   []*timerState
	clock    int64 // virtual time, in nanoseconds
	hostMaps map[*Value]*MapV
	atomVals map[*Value]Value
	store    map[string]Value
	files    map[string]Value // the scratch files of this path
	// iteration order of the maps of the code under check (see rangeIter)
	mapSites map[ssa.Instruction]int
	mapOrder bool
	mapDev   int

	fns    map[*ssa.Function]*mfunc
	warned map[string]bool
}

func newMachine(e *Engine, id int) *Machine {
	m := &Machine{eng: e, id: id, globals: map[*ssa.Global]Ptr{}, inited: map[*ssa.Package]bool{},
		fns: map[*ssa.Function]*mfunc{}, warned: map[string]bool{}, pureMemo: map[string]Value{}}
	return m
}

func (m *Machine) warn(s string) {
	if m.warned[s] {
		return
	}
	m.warned[s] = true
	if m.eng.verbose {
		fmt.Fprintln(os.Stderr, "warn:", s)
	}
}

func (m *Machine) stopPath(kind, msg string) {
	panic(pathStop{kind, msg})
}

func (m *Machine) unsupported(f string, a ...any) {
	m.stopPath("unsupported", fmt.Sprintf(f, a...)+m.where())
}

func (m *Machine) where() string {
	if m.cur == nil || m.cur.top == nil {
		return ""
	}
	var sb strings.Builder
	n := 0
	for fr := m.cur.top; fr != nil && n < 12; fr = fr.caller {
		sb.WriteString("\n    at " + fr.fn.String())
		if fr.curIns != nil {
			sb.WriteString(" " + m.eng.prog.Fset.Position(fr.curIns.Pos()).String())
		}
		n++
	}
	return sb.String()
}

// ---- variables and decisions ----

func (m *Machine) fresh(hint string, w uint8) *Term {
	m.nvars++
	return Var(fmt.Sprintf("v%d_%s", m.nvars, sanitize(hint)), w)
}

func sanitize(s string) string {
	b := []byte(s)
	for i, c := range b {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_') {
			b[i] = '_'
		}
	}
	return string(b)
}

func (m *Machine) eval(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	return evalTerm(t, m.model, m.memo)
}

func (m *Machine) setModel(md map[string]uint64) {
	if md == nil {
		md = map[string]uint64{}
	}
	m.model = md
	m.memo = map[*Term]uint64{}
}

func (m *Machine) addCond(c *Term) {
	if c.isConst() {
		return
	}
	m.conds = append(m.conds, c)
	m.solver.Assert(c)
	m.known[c] = true
	if c.op == OpNot {
		m.known[c.a[0]] = false
	}
}

func (m *Machine) pushAlt(d int32, md map[string]uint64) {
	p := make([]int32, len(m.taken)+1)
	copy(p, m.taken)
	p[len(m.taken)] = d
	m.alts = append(m.alts, &Item{prefix: p, model: md})
}

// branch decides a boolean condition, forking if both sides are feasible.
func (m *Machine) branch(c *Term) bool {
	if c.isConst() {
		return c.val != 0
	}
	if v, ok := m.known[c]; ok {
		return v
	}
	if c.op == OpNot {
		return !m.branch(c.a[0])
	}
	if m.inInit {
		panic("symbolic branch during shared init")
	}
	idx := len(m.taken)
	m.branches++
	if idx < len(m.prefix) {
		d := m.prefix[idx]
		m.taken = append(m.taken, d)
		if d == 1 {
			m.addCond(c)
			m.known[c] = true
		} else {
			m.addCond(Not(c))
			m.known[c] = false
		}
		return d == 1
	}
	side := m.eval(c) != 0
	other := c
	if side {
		other = Not(c)
	}
	r, md := m.solver.Check(other)
	switch r {
	case Sat:
		od := int32(0)
		if !side {
			od = 1
		}
		m.pushAlt(od, md)
	case Unknown:
		m.stopPath("inconclusive", "solver returned unknown on a branch"+m.where())
	}
	d := int32(0)
	if side {
		d = 1
		m.addCond(c)
	} else {
		m.addCond(Not(c))
	}
	m.known[c] = side
	m.taken = append(m.taken, d)
	return side
}

// choose makes an n-way nondeterministic choice via a fresh solver variable.
func (m *Machine) choose(n int, hint string) int {
	if n <= 0 {
		panic("choose 0")
	}
	if n == 1 {
		return 0
	}
	if m.inInit {
		panic("choice during shared init")
	}
	v := m.fresh(hint, 16)
	return m.chooseVar(v, n)
}

func (m *Machine) chooseVar(v *Term, n int) int {
	idx := len(m.taken)
	if idx < len(m.prefix) {
		d := m.prefix[idx]
		m.taken = append(m.taken, d)
		m.addCond(Eq(v, BV(v.w, uint64(d))))
		return int(d)
	}
	// the default branch follows the model (0 if unconstrained)
	d := int(m.eval(v))
	if d >= n {
		d = 0
	}
	for i := n - 1; i >= 0; i-- {
		if i == d {
			continue
		}
		md := make(map[string]uint64, len(m.model)+1)
		for k, x := range m.model {
			md[k] = x
		}
		md[v.name] = uint64(i)
		m.pushAlt(int32(i), md)
	}
	m.taken = append(m.taken, int32(d))
	m.model[v.name] = uint64(d)
	m.addCond(Eq(v, BV(v.w, uint64(d))))
	return d
}

// concretize forks over every feasible value of t.
func (m *Machine) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	for n := 0; ; n++ {
		if n > m.opts.MaxConcret {
			m.stopPath("bound", "too many values to concretise"+m.where())
		}
		// candidate must be deterministic under prefix replay: it is
		// stored as the constant of the recorded decision.
		var cand uint64
		idx := len(m.taken)
		if idx < len(m.prefix) {
			// prefix encodes pair: candidate value index is kept in the
			// side table of the item
			cand = m.replayCand(idx)
		} else {
			cand = m.eval(t)
		}
		if m.branchCand(Eq(t, BV(t.w, cand)), cand) {
			return cand
		}
	}
}

// Candidates are encoded in the prefix as two decisions: low and high parts
// of the candidate (31 bits each, plus 2), followed by the branch decision.
func (m *Machine) replayCand(idx int) uint64 {
	lo, mi, hi := m.prefix[idx], m.prefix[idx+1], m.prefix[idx+2]
	return uint64(uint32(lo)) | uint64(uint32(mi))<<24 | uint64(uint32(hi))<<48
}

func (m *Machine) branchCand(c *Term, cand uint64) bool {
	m.taken = append(m.taken, int32(cand&0xffffff), int32(cand>>24&0xffffff), int32(cand>>48))
	return m.branch(c)
}

// assume restricts the path.
func (m *Machine) assume(c *Term) {
	if c.isConst() {
		if c.val == 0 {
			m.stopPath("infeasible", "assume false")
		}
		return
	}
	if len(m.taken) < len(m.prefix) || m.eval(c) != 0 {
		m.addCond(c)
		return
	}
	r, md := m.solver.Check(c)
	switch r {
	case Unsat:
		m.stopPath("infeasible", "assume")
	case Unknown:
		m.stopPath("inconclusive", "solver returned unknown on an assumption"+m.where())
	}
	m.setModel(md)
	m.addCond(c)
}

// assertProp checks a property; a violation is recorded with its model.
func (m *Machine) assertProp(c *Term, msg string) {
	m.asserts++
	if c.isConst() {
		if c.val == 0 {
			m.violation(msg, m.model)
		}
		// literally discharged by the encoding; still ask nothing
		return
	}
	if v, ok := m.known[c]; ok && v {
		return
	}
	if len(m.taken) < len(m.prefix) {
		// decided on the path that spawned this prefix
		m.addCond(c)
		return
	}
	r, md := m.solver.Check(Not(c))
	switch r {
	case Sat:
		m.violation(msg, md)
	case Unknown:
		m.stopPath("inconclusive", "solver returned unknown on assertion: "+msg)
	}
	m.addCond(c)
}

func (m *Machine) violation(msg string, md map[string]uint64) {
	m.setModel(md)
	panic(pathStop{"violation", msg})
}

// ---- running a path ----

// PathResult is the outcome of a path.
type PathResult struct {
	Stop     pathStop
	Alts     []*Item
	Covers   map[string]bool
	Asserts  int
	Steps    int
	Branches int
	Taken    []int32
	Conds    int
	Inputs   []InputVal
	Obs      []string
	EngErr   string
	Sched    []string
}

// InputVal is a concrete nondet input for replay.
type InputVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
	Data []byte `json:"data,omitempty"`
}

func (m *Machine) runPath(fn *ssa.Function, it *Item) *PathResult {
	m.prefix, m.taken = it.prefix, nil
	m.addrs = nil
	md := make(map[string]uint64, len(it.model))
	for k, v := range it.model {
		md[k] = v
	}
	m.setModel(md)
	m.known = map[*Term]bool{}
	m.conds = nil
	m.nvars, m.steps, m.alts, m.nondets = 0, 0, nil, nil
	m.covers, m.obs, m.asserts, m.branches = map[string]bool{}, nil, 0, 0
	m.capture = nil
	m.stop, m.engErr = nil, ""
	m.schedLog = nil
	m.violTag = map[string]bool{}
	m.gs, m.cur, m.preempts = nil, nil, 0
	m.done = make(chan struct{}, 1)
	m.finished, m.killing = false, false
	m.mutexes = map[*Value]*mutexState{}
	m.wgs = map[*Value]*wgState{}
	m.hostMaps = map[*Value]*MapV{}
	m.atomVals = map[*Value]Value{}
	m.store = map[string]Value{}
	m.opened, m.temps = map[Ptr]*openFile{}, 0
	m.files, m.mapSites, m.mapOrder, m.mapDev = map[string]Value{}, nil, false, 0
	m.timers, m.clock = nil, 0
	m.solver.Begin()

	g := m.newG("main")
	g.start(func() {
		m.initFresh(g, fn.Package())
		m.call(g, nil, fn, nil, nil)
	})
	m.cur = g
	g.resume <- struct{}{}
	<-m.done
	// kill remaining goroutines
	m.killing = true
	for _, x := range m.gs {
		if !x.finished {
			x.resume <- struct{}{}
			<-x.dead
		}
	}
	m.solver.End()
	res := &PathResult{Alts: m.alts, Covers: m.covers, Asserts: m.asserts, Steps: m.steps, Branches: m.branches,
		Taken: m.taken, Conds: len(m.conds), Obs: nil, EngErr: m.engErr, Sched: m.schedLog}
	if m.stop != nil {
		res.Stop = *m.stop
	} else {
		res.Stop = pathStop{"done", ""}
	}
	for _, nd := range m.nondets {
		iv := InputVal{Name: nd.Name, Kind: nd.Kind}
		if nd.Kind == "string" || nd.Kind == "bytes" {
			iv.Data = make([]byte, len(nd.Vals))
			for i, t := range nd.Vals {
				iv.Data[i] = byte(m.eval(t))
			}
		} else {
			iv.Val = m.eval(nd.Vals[0])
		}
		res.Inputs = append(res.Inputs, iv)
	}
	for _, o := range m.obs {
		res.Obs = append(res.Obs, o())
	}
	return res
}

// finish ends the path (called on the running host goroutine).
func (m *Machine) finish(ps *pathStop) {
	if m.finished {
		return
	}
	m.finished = true
	m.stop = ps
	m.done <- struct{}{}
}

// G is an interpreted goroutine.
type G struct {
	m        *Machine
	id       int
	name     string
	resume   chan struct{}
	dead     chan struct{}
	ready    func() bool
	quiesce  bool
	finished bool
	top      *Frame
	depth    int
	lowprio  bool
}

func (m *Machine) newG(name string) *G {
	g := &G{m: m, id: len(m.gs), name: name, resume: make(chan struct{}), dead: make(chan struct{})}
	m.gs = append(m.gs, g)
	return g
}

func (g *G) start(f func()) {
	m := g.m
	go func() {
		defer close(g.dead)
		<-g.resume
		if m.killing {
			g.finished = true
			return
		}
		var r any
		var stack string
		func() {
			defer func() {
				r = recover()
				if r != nil {
					switch r.(type) {
					case pathStop, killed, targetPanic:
					default:
						stack = string(debug.Stack())
					}
				}
			}()
			f()
		}()
		g.finished = true
		switch x := r.(type) {
		case nil:
			if g.id == 0 {
				m.finish(&pathStop{"done", ""})
				return
			}
			// pick another goroutine
			func() {
				defer func() {
					if r := recover(); r != nil {
						switch y := r.(type) {
						case pathStop:
							m.finish(&y)
						case killed:
						default:
							m.engErr = fmt.Sprintf("%v\n%s", r, debug.Stack())
							m.finish(&pathStop{"unsupported", "engine panic: " + fmt.Sprint(r)})
						}
					}
				}()
				m.handoff(nil)
			}()
		case killed:
		case pathStop:
			m.finish(&x)
		case targetPanic:
			if x.goexit {
				m.handoff(nil)
				return
			}
			msg := "uncaught panic: " + m.panicString(x.v)
			m.finish(&pathStop{"violation", msg})
		default:
			m.engErr = fmt.Sprintf("%v\n%s", r, stack)
			m.finish(&pathStop{"unsupported", "engine panic: " + fmt.Sprint(r) + m.where()})
		}
	}()
}

func (m *Machine) panicString(v Value) string {
	i, ok := v.(Iface)
	if !ok || i.T == nil {
		return "nil"
	}
	switch x := i.V.(type) {
	case *Str:
		if x.conc() {
			return x.s
		}
		return x.String()
	case *Term:
		return x.String()
	case Ptr:
		if x != nil {
			if st, ok := (*x).(Struct); ok {
				for _, f := range st {
					if s, ok := f.(*Str); ok {
						return i.T.String() + ":" + s.String()
					}
				}
			}
		}
	}
	return i.T.String()
}

func (m *Machine) runnable(except *G) []*G {
	var r []*G
	for _, g := range m.gs {
		if g == except || g.finished || g.quiesce || g.lowprio {
			continue
		}
		if g.ready == nil || g.ready() {
			r = append(r, g)
		}
	}
	return r
}

// pick chooses the next goroutine when the current cannot continue.
func (m *Machine) pick() *G {
	for {
		rs := m.runnable(nil)
		if len(rs) > 0 {
			// round robin by default; every other choice uses up one
			// scheduling deviation (delay bounding)
			if m.cur != nil {
				k := 0
				for k < len(rs) && rs[k].id <= m.cur.id {
					k++
				}
				rs = append(append([]*G{}, rs[k:]...), rs[:k]...)
			}
			if m.preempts >= m.opts.Preempt {
				return rs[0]
			}
			i := m.choose(len(rs), "sched")
			if i > 0 {
				m.preempts++
			}
			return rs[i]
		}
		for _, g := range m.gs {
			if !g.finished && g.lowprio {
				g.lowprio = false
				return g
			}
		}
		if m.opts.Timers && m.fireTimer() {
			continue
		}
		for _, g := range m.gs {
			if !g.finished && g.quiesce {
				g.quiesce = false
				return g
			}
		}
		if !m.opts.Timers && m.fireTimer() {
			continue
		}
		return nil
	}
}

// handoff gives control to another goroutine; if self is non-nil it is
// blocked and waits to be resumed.
func (m *Machine) handoff(self *G) {
	n := m.pick()
	if n == nil {
		if m.opts.Deadlock == "ok" {
			m.stopPath("done", "all goroutines blocked")
		}
		names := []string{}
		for _, g := range m.gs {
			if !g.finished {
				names = append(names, fmt.Sprintf("g%d(%s)", g.id, g.name))
			}
		}
		sort.Strings(names)
		m.stopPath("violation", "deadlock: all goroutines are blocked: "+strings.Join(names, ","))
	}
	m.switchTo(self, n)
}

func (m *Machine) switchTo(self, n *G) {
	if self == n {
		return
	}
	if len(m.schedLog) < 400 {
		m.schedLog = append(m.schedLog, fmt.Sprintf("g%d(%s)", n.id, n.name))
	}
	m.cur = n
	n.resume <- struct{}{}
	if self == nil {
		return
	}
	<-self.resume
	if m.killing {
		panic(killed{})
	}
}

// block suspends the current goroutine until ready() holds.
func (m *Machine) block(ready func() bool) {
	g := m.cur
	for !ready() {
		g.ready = ready
		m.handoff(g)
		g.ready = nil
	}
	g.ready = nil
}

// yield is a potential preemption point (before a synchronisation op).
func (m *Machine) yield(what string) {
	if m.inInit || m.opts.Preempt == 0 || m.preempts >= m.opts.Preempt || len(m.gs) == 1 {
		return
	}
	g := m.cur
	rs := m.runnable(g)
	if len(rs) == 0 {
		return
	}
	i := m.choose(len(rs)+1, "preempt")
	if i == 0 {
		return
	}
	m.preempts++
	m.switchTo(g, rs[i-1])
}

// gosched lets any other goroutine run.
func (m *Machine) gosched() {
	g := m.cur
	rs := m.runnable(g)
	if len(rs) == 0 {
		return
	}
	if m.preempts >= m.opts.Preempt {
		m.switchTo(g, rs[0])
		return
	}
	i := m.choose(len(rs)+1, "gosched")
	if i == 0 {
		m.preempts++
		return
	}
	m.switchTo(g, rs[i-1])
}

func (m *Machine) quiesce() {
	g := m.cur
	g.quiesce = true
	m.handoff(g)
}

func (m *Machine) spawn(name string, f func()) *G {
	g := m.newG(name)
	g.start(f)
	return g
}

// ---- mutexes, wait groups, timers ----

type mutexState struct {
	locked  bool
	readers int
}

type wgState struct{ n int }

type timerState struct {
	at      int64
	f       func()
	stopped bool
	seq     int
}

func (m *Machine) fireTimer() bool {
	var best *timerState
	for _, t := range m.timers {
		if t.stopped {
			continue
		}
		if best == nil || t.at < best.at || (t.at == best.at && t.seq < best.seq) {
			best = t
		}
	}
	if best == nil {
		return false
	}
	best.stopped = true
	if best.at > m.clock {
		m.clock = best.at
	}
	best.f()
	return true
}

func (m *Machine) mutex(p *Value) *mutexState {
	s := m.mutexes[p]
	if s == nil {
		s = &mutexState{}
		m.mutexes[p] = s
	}
	return s
}

// ---- channels ----

// Chan is a channel.
type Chan struct {
	buf    []Value
	cap    int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	elem   types.Type
}

type selState struct {
	done    bool
	idx     int
	val     Value
	ok      bool
	panicky bool
}

type waiter struct {
	st  *selState
	val Value
	idx int
}

func liveW(q []*waiter) []*waiter {
	for len(q) > 0 && q[0].st.done {
		q = q[1:]
	}
	return q
}

func (c *Chan) firstLive(q *[]*waiter) *waiter {
	*q = liveW(*q)
	for i, w := range *q {
		if !w.st.done {
			_ = i
			return w
		}
	}
	return nil
}

func (c *Chan) canSend() bool {
	return c.closed || len(c.buf) < c.cap || c.firstLive(&c.recvq) != nil
}

func (c *Chan) canRecv() bool {
	return len(c.buf) > 0 || c.closed || c.firstLive(&c.sendq) != nil
}

func (m *Machine) chanSendNow(c *Chan, v Value) {
	if c.closed {
		m.goPanicStr("send on closed channel", true)
	}
	if w := c.firstLive(&c.recvq); w != nil {
		w.st.done, w.st.idx, w.st.val, w.st.ok = true, w.idx, v, true
		return
	}
	c.buf = append(c.buf, v)
}

func (m *Machine) chanRecvNow(c *Chan) (Value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		if w := c.firstLive(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			w.st.done, w.st.idx = true, w.idx
		}
		return v, true
	}
	if w := c.firstLive(&c.sendq); w != nil {
		w.st.done, w.st.idx = true, w.idx
		return w.val, true
	}
	return zero(c.elem), false
}

func (m *Machine) chanSend(c *Chan, v Value) {
	m.yield("send")
	if c == nil {
		m.block(func() bool { return false })
	}
	if c.canSend() {
		m.chanSendNow(c, v)
		return
	}
	st := &selState{}
	c.sendq = append(c.sendq, &waiter{st: st, val: v})
	m.block(func() bool { return st.done })
	if st.panicky {
		m.goPanicStr("send on closed channel", true)
	}
}

func (m *Machine) chanRecv(c *Chan) (Value, bool) {
	m.yield("recv")
	if c == nil {
		m.block(func() bool { return false })
	}
	if c.canRecv() {
		return m.chanRecvNow(c)
	}
	st := &selState{}
	c.recvq = append(c.recvq, &waiter{st: st})
	m.block(func() bool { return st.done })
	return st.val, st.ok
}

func (m *Machine) chanClose(c *Chan) {
	m.yield("close")
	if c == nil {
		m.goPanicStr("close of nil channel", true)
	}
	if c.closed {
		m.goPanicStr("close of closed channel", true)
	}
	c.closed = true
	for _, w := range c.recvq {
		if !w.st.done {
			w.st.done, w.st.idx, w.st.val, w.st.ok = true, w.idx, zero(c.elem), false
		}
	}
	c.recvq = nil
	for _, w := range c.sendq {
		if !w.st.done {
			w.st.done, w.st.idx, w.st.panicky = true, w.idx, true
		}
	}
	c.sendq = nil
}

type selCase struct {
	send bool
	c    *Chan
	v    Value
}

// doSelect returns index (-1 default), received value and ok.
func (m *Machine) doSelect(cases []selCase, blocking bool) (int, Value, bool) {
	m.yield("select")
	var ready []int
	for i, c := range cases {
		if c.c == nil {
			continue
		}
		if c.send && c.c.canSend() || !c.send && c.c.canRecv() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[m.choose(len(ready), "select")]
		c := cases[i]
		if c.send {
			m.chanSendNow(c.c, c.v)
			return i, nil, false
		}
		v, ok := m.chanRecvNow(c.c)
		return i, v, ok
	}
	if !blocking {
		return -1, nil, false
	}
	st := &selState{}
	for i, c := range cases {
		if c.c == nil {
			continue
		}
		w := &waiter{st: st, val: c.v, idx: i}
		if c.send {
			c.c.sendq = append(c.c.sendq, w)
		} else {
			c.c.recvq = append(c.c.recvq, w)
		}
	}
	m.block(func() bool { return st.done })
	if st.panicky {
		m.goPanicStr("send on closed channel", true)
	}
	return st.idx, st.val, st.ok
}

// goPanicStr raises an interpreted runtime error panic.
func (m *Machine) goPanicStr(msg string, plain bool) {
	panic(targetPanic{v: m.runtimeError(msg)})
}

func (m *Machine) runtimeError(msg string) Value {
	if m.eng.rtErr != nil {
		return Iface{T: m.eng.rtErr, V: mkStr(msg)}
	}
	return Iface{T: types.Typ[types.String], V: mkStr("runtime error: " + msg)}
}
