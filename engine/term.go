package main

import (
	"fmt"
	"math"
	"strings"
)

// Op is the operator of a Term.
type Op uint8

// Term operators. Width 0 is the Bool sort, 1..64 is a bit-vector.
const (
	OpConst Op = iota
	OpVar
	OpNot // Bool
	OpAnd
	OpOr
	OpEq // args any same sort -> Bool
	OpIte
	OpBvNot
	OpBvNeg
	OpBvAnd
	OpBvOr
	OpBvXor
	OpAdd
	OpSub
	OpMul
	OpUdiv
	OpSdiv
	OpUrem
	OpSrem
	OpShl
	OpLshr
	OpAshr
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpExtract // val = lo ; w = width
	OpConcat  // args hi, lo
	OpZext
	OpSext
	OpFLt // args are bv32/bv64 holding IEEE bits -> Bool
	OpFLe
	OpFEq
)

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite", OpBvNot: "bvnot", OpBvNeg: "bvneg",
	OpBvAnd: "bvand", OpBvOr: "bvor", OpBvXor: "bvxor", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul",
	OpUdiv: "bvudiv", OpSdiv: "bvsdiv", OpUrem: "bvurem", OpSrem: "bvsrem", OpShl: "bvshl", OpLshr: "bvlshr",
	OpAshr: "bvashr", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle", OpConcat: "concat",
	OpFLt: "fp.lt", OpFLe: "fp.leq", OpFEq: "fp.eq",
}

// Term is an SMT term (immutable).
type Term struct {
	op   Op
	w    uint8
	n    uint8
	val  uint64
	a    [3]*Term
	name string
}

var (
	TTrue  = &Term{op: OpConst, w: 0, val: 1}
	TFalse = &Term{op: OpConst, w: 0, val: 0}
)

var smallConsts [4][512]*Term // widths 8,16,32,64

func init() {
	for i, w := range []uint8{8, 16, 32, 64} {
		for j := 0; j < 512; j++ {
			smallConsts[i][j] = &Term{op: OpConst, w: w, val: uint64(j) & mask(w)}
		}
	}
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

// BV makes a bit-vector constant.
func BV(w uint8, v uint64) *Term {
	v &= mask(w)
	if v < 512 {
		switch w {
		case 8:
			return smallConsts[0][v]
		case 16:
			return smallConsts[1][v]
		case 32:
			return smallConsts[2][v]
		case 64:
			return smallConsts[3][v]
		}
	}
	return &Term{op: OpConst, w: w, val: v}
}

// B makes a boolean constant.
func B(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

func (t *Term) isConst() bool { return t.op == OpConst }

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func mk(op Op, w uint8, args ...*Term) *Term {
	t := &Term{op: op, w: w, n: uint8(len(args))}
	copy(t.a[:], args)
	return t
}

func Not(a *Term) *Term {
	if a.isConst() {
		return B(a.val == 0)
	}
	if a.op == OpNot {
		return a.a[0]
	}
	return mk(OpNot, 0, a)
}

func And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return TFalse
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return TFalse
		}
		return a
	}
	if a == b {
		return a
	}
	return mk(OpAnd, 0, a, b)
}

func Or(a, b *Term) *Term {
	if a.isConst() {
		if a.val != 0 {
			return TTrue
		}
		return b
	}
	if b.isConst() {
		if b.val != 0 {
			return TTrue
		}
		return a
	}
	if a == b {
		return a
	}
	return mk(OpOr, 0, a, b)
}

func sameTerm(a, b *Term, d int) bool {
	if a == b {
		return true
	}
	if d == 0 || a.op != b.op || a.w != b.w || a.val != b.val || a.n != b.n || a.name != b.name {
		return false
	}
	for i := 0; i < int(a.n); i++ {
		if !sameTerm(a.a[i], b.a[i], d-1) {
			return false
		}
	}
	return true
}

func Eq(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return B(a.val == b.val)
	}
	if sameTerm(a, b, 4) {
		return TTrue
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.w == 0 {
			if b.val != 0 {
				return a
			}
			return Not(a)
		}
		switch a.op {
		case OpIte:
			// ite over constants
			x, y := a.a[1], a.a[2]
			if x.isConst() || y.isConst() {
				return Ite(a.a[0], Eq(x, b), Eq(y, b))
			}
		case OpZext:
			in := a.a[0]
			if b.val > mask(in.w) {
				return TFalse
			}
			return Eq(in, BV(in.w, b.val))
		case OpSext:
			in := a.a[0]
			nv := BV(in.w, b.val)
			if uint64(sext64(nv.val, in.w))&mask(a.w) != b.val {
				return TFalse
			}
			return Eq(in, nv)
		case OpConcat:
			lo := a.a[1]
			return And(Eq(a.a[0], BV(a.a[0].w, b.val>>lo.w)), Eq(lo, BV(lo.w, b.val)))
		case OpAdd:
			if a.a[1].isConst() {
				return Eq(a.a[0], BV(a.w, b.val-a.a[1].val))
			}
		case OpBvXor:
			if a.a[1].isConst() {
				return Eq(a.a[0], BV(a.w, b.val^a.a[1].val))
			}
		}
	}
	return mk(OpEq, 0, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.val != 0 {
			return a
		}
		return b
	}
	if sameTerm(a, b, 3) {
		return a
	}
	if a.w == 0 {
		if a.isConst() {
			if a.val != 0 {
				return Or(c, b)
			}
			return And(Not(c), b)
		}
		if b.isConst() {
			if b.val != 0 {
				return Or(Not(c), a)
			}
			return And(c, a)
		}
	}
	return mk(OpIte, a.w, c, a, b)
}

func foldBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OpBvAnd:
		return x & y, true
	case OpBvOr:
		return x | y, true
	case OpBvXor:
		return x ^ y, true
	case OpAdd:
		return (x + y) & m, true
	case OpSub:
		return (x - y) & m, true
	case OpMul:
		return (x * y) & m, true
	case OpUdiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OpUrem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OpSdiv:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1, true
			}
			return m, true
		}
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case OpSrem:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case OpShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OpLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OpAshr:
		sx := sext64(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx>>y) & m, true
	}
	return 0, false
}

func foldCmp(op Op, w uint8, x, y uint64) bool {
	switch op {
	case OpUlt:
		return x < y
	case OpUle:
		return x <= y
	case OpSlt:
		return sext64(x, w) < sext64(y, w)
	case OpSle:
		return sext64(x, w) <= sext64(y, w)
	case OpFLt, OpFLe, OpFEq:
		var fx, fy float64
		if w == 32 {
			fx, fy = float64(math.Float32frombits(uint32(x))), float64(math.Float32frombits(uint32(y)))
		} else {
			fx, fy = math.Float64frombits(x), math.Float64frombits(y)
		}
		switch op {
		case OpFLt:
			return fx < fy
		case OpFLe:
			return fx <= fy
		default:
			return fx == fy
		}
	}
	panic("foldCmp")
}

// Bin makes a bit-vector binary operation.
func Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %s width mismatch %d %d", opNames[op], a.w, b.w))
	}
	w := a.w
	if a.isConst() && b.isConst() {
		v, _ := foldBin(op, w, a.val, b.val)
		return BV(w, v)
	}
	switch op {
	case OpAdd, OpMul, OpBvAnd, OpBvOr, OpBvXor:
		if a.isConst() {
			a, b = b, a
		}
	}
	if b.isConst() {
		switch op {
		case OpAdd, OpSub, OpBvOr, OpBvXor, OpShl, OpLshr, OpAshr:
			if b.val == 0 {
				return a
			}
		case OpMul:
			if b.val == 1 {
				return a
			}
			if b.val == 0 {
				return b
			}
		case OpBvAnd:
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			if a.op == OpZext && b.val == mask(a.a[0].w) {
				return a
			}
		case OpUdiv, OpSdiv:
			if b.val == 1 {
				return a
			}
		}
		if op == OpSub {
			return Bin(OpAdd, a, BV(w, -b.val))
		}
		if op == OpAdd && a.op == OpAdd && a.a[1].isConst() {
			return Bin(OpAdd, a.a[0], BV(w, a.a[1].val+b.val))
		}
		if (op == OpShl || op == OpLshr) && b.val >= uint64(w) {
			return BV(w, 0)
		}
		if op == OpLshr {
			// (x >> k): concat(0, extract)
			k := uint8(b.val)
			return Zext(Extract(a, k, w-k), w)
		}
		if op == OpShl {
			k := uint8(b.val)
			return Concat(Extract(a, 0, w-k), BV(k, 0))
		}
	}
	if op == OpBvOr {
		if t := orConcat(a, b); t != nil {
			return t
		}
	}
	if op == OpSub && a == b {
		return BV(w, 0)
	}
	return mk(op, w, a, b)
}

// orConcat merges disjoint byte-aligned zero-padded pieces so that byte
// (de)composition cancels out syntactically.
func orConcat(a, b *Term) *Term {
	w := a.w
	if w%8 != 0 || w > 64 {
		return nil
	}
	pa, ok := pieces(a)
	if !ok {
		return nil
	}
	pb, ok := pieces(b)
	if !ok {
		return nil
	}
	n := int(w / 8)
	out := make([]*Term, n)
	for i := 0; i < n; i++ {
		x, y := pa[i], pb[i]
		switch {
		case x.isConst() && x.val == 0:
			out[i] = y
		case y.isConst() && y.val == 0:
			out[i] = x
		default:
			return nil
		}
	}
	res := out[n-1]
	for i := n - 2; i >= 0; i-- {
		res = Concat(res, out[i])
	}
	return res
}

// pieces splits a term into bytes (little end first) if it is built by
// zero extension / concat of byte aligned parts.
func pieces(t *Term) ([]*Term, bool) {
	if t.w%8 != 0 {
		return nil, false
	}
	n := int(t.w / 8)
	switch t.op {
	case OpConst, OpZext, OpConcat:
	default:
		if n != 1 {
			return nil, false
		}
	}
	out := make([]*Term, n)
	for i := range out {
		out[i] = Extract(t, uint8(8*i), 8)
		if out[i].op == OpExtract && n > 1 && (t.op == OpZext || t.op == OpConcat) {
			continue
		}
	}
	return out, true
}

func Cmp(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic("Cmp width mismatch")
	}
	if a.isConst() && b.isConst() {
		return B(foldCmp(op, a.w, a.val, b.val))
	}
	if a == b {
		switch op {
		case OpUlt, OpSlt:
			return TFalse
		case OpUle, OpSle:
			return TTrue
		}
	}
	// zero-extended comparisons against constants
	if (op == OpUlt || op == OpUle || op == OpSlt || op == OpSle) && a.op == OpZext && b.isConst() {
		in := a.a[0]
		if (op == OpSlt || op == OpSle) && sext64(b.val, b.w) < 0 {
			return TFalse
		}
		uop := OpUlt
		if op == OpUle || op == OpSle {
			uop = OpUle
		}
		if b.val > mask(in.w) {
			return TTrue
		}
		return Cmp(uop, in, BV(in.w, b.val))
	}
	if (op == OpUlt || op == OpUle || op == OpSlt || op == OpSle) && b.op == OpZext && a.isConst() {
		in := b.a[0]
		if (op == OpSlt || op == OpSle) && sext64(a.val, a.w) < 0 {
			return TTrue
		}
		uop := OpUlt
		if op == OpUle || op == OpSle {
			uop = OpUle
		}
		if a.val > mask(in.w) {
			return TFalse
		}
		return Cmp(uop, BV(in.w, a.val), in)
	}
	if b.isConst() && op == OpUlt && b.val == 0 {
		return TFalse
	}
	if b.isConst() && op == OpUle && b.val == mask(b.w) {
		return TTrue
	}
	if a.isConst() && op == OpUle && a.val == 0 {
		return TTrue
	}
	return mk(op, 0, a, b)
}

func Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if a.isConst() {
		return BV(w, a.val>>lo)
	}
	switch a.op {
	case OpZext:
		in := a.a[0]
		if lo >= in.w {
			return BV(w, 0)
		}
		if lo+w <= in.w {
			return Extract(in, lo, w)
		}
		return Zext(Extract(in, lo, in.w-lo), w)
	case OpSext:
		in := a.a[0]
		if lo+w <= in.w {
			return Extract(in, lo, w)
		}
	case OpConcat:
		hi, l := a.a[0], a.a[1]
		if lo >= l.w {
			return Extract(hi, lo-l.w, w)
		}
		if lo+w <= l.w {
			return Extract(l, lo, w)
		}
		return Concat(Extract(hi, 0, lo+w-l.w), Extract(l, lo, l.w-lo))
	case OpExtract:
		return Extract(a.a[0], uint8(a.val)+lo, w)
	case OpIte:
		if a.a[1].isConst() && a.a[2].isConst() {
			return Ite(a.a[0], Extract(a.a[1], lo, w), Extract(a.a[2], lo, w))
		}
	}
	t := mk(OpExtract, w, a)
	t.val = uint64(lo)
	return t
}

func Concat(hi, lo *Term) *Term {
	if hi.w == 0 || lo.w == 0 {
		if hi.w == 0 {
			return lo
		}
		return hi
	}
	w := hi.w + lo.w
	if hi.isConst() && lo.isConst() {
		return BV(w, hi.val<<lo.w|lo.val)
	}
	if hi.isConst() && hi.val == 0 {
		return Zext(lo, w)
	}
	// merge adjacent extracts of the same base
	if hi.op == OpExtract && lo.op == OpExtract && hi.a[0] == lo.a[0] && hi.val == lo.val+uint64(lo.w) {
		return Extract(hi.a[0], uint8(lo.val), w)
	}
	if lo.op == OpConcat {
		// reassociate to the left: hi ++ (a ++ b) => (hi ++ a) ++ b
		return Concat(Concat(hi, lo.a[0]), lo.a[1])
	}
	return mk(OpConcat, w, hi, lo)
}

func Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return BV(w, a.val)
	}
	if a.op == OpZext {
		return Zext(a.a[0], w)
	}
	return mk(OpZext, w, a)
}

func Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return BV(w, uint64(sext64(a.val, a.w)))
	}
	if a.op == OpZext && a.a[0].w < a.w {
		return Zext(a.a[0], w)
	}
	return mk(OpSext, w, a)
}

func Neg(a *Term) *Term {
	if a.isConst() {
		return BV(a.w, -a.val)
	}
	return mk(OpBvNeg, a.w, a)
}

func BvNot(a *Term) *Term {
	if a.isConst() {
		return BV(a.w, ^a.val)
	}
	return mk(OpBvNot, a.w, a)
}

// Var makes a variable term.
func Var(name string, w uint8) *Term {
	return &Term{op: OpVar, w: w, name: name}
}

// evalTerm evaluates a term in a model (missing variables are 0).
func evalTerm(t *Term, model map[string]uint64, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OpConst:
		return t.val
	case OpVar:
		return model[t.name] & maskB(t.w)
	}
	if v, ok := memo[t]; ok {
		return v
	}
	ev := func(i int) uint64 { return evalTerm(t.a[i], model, memo) }
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OpNot:
		r = 1 - ev(0)
	case OpAnd:
		r = ev(0)
		if r != 0 {
			r = ev(1)
		}
	case OpOr:
		r = ev(0)
		if r == 0 {
			r = ev(1)
		}
	case OpEq:
		r = b2u(ev(0) == ev(1))
	case OpIte:
		if ev(0) != 0 {
			r = ev(1)
		} else {
			r = ev(2)
		}
	case OpBvNot:
		r = ^ev(0) & mask(t.w)
	case OpBvNeg:
		r = -ev(0) & mask(t.w)
	case OpUlt, OpUle, OpSlt, OpSle, OpFLt, OpFLe, OpFEq:
		r = b2u(foldCmp(t.op, t.a[0].w, ev(0), ev(1)))
	case OpExtract:
		r = (ev(0) >> t.val) & mask(t.w)
	case OpConcat:
		r = ev(0)<<t.a[1].w | ev(1)
	case OpZext:
		r = ev(0)
	case OpSext:
		r = uint64(sext64(ev(0), t.a[0].w)) & mask(t.w)
	default:
		var ok bool
		r, ok = foldBin(t.op, t.w, ev(0), ev(1))
		if !ok {
			panic("evalTerm: op " + opNames[t.op])
		}
	}
	memo[t] = r
	return r
}

func maskB(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constSMT(t *Term) string {
	if t.w == 0 {
		if t.val != 0 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(t.w/4), t.val)
	}
	return fmt.Sprintf("#b%0*b", int(t.w), t.val)
}

// smtNode renders one node given rendered arguments.
func smtNode(t *Term, args []string) string {
	switch t.op {
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.val+uint64(t.w)-1, t.val, args[0])
	case OpZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a[0].w, args[0])
	case OpSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, args[0])
	case OpFLt, OpFLe, OpFEq:
		s := "((_ to_fp 11 53) %s)"
		if t.a[0].w == 32 {
			s = "((_ to_fp 8 24) %s)"
		}
		return fmt.Sprintf("(%s %s %s)", opNames[t.op], fmt.Sprintf(s, args[0]), fmt.Sprintf(s, args[1]))
	}
	return "(" + opNames[t.op] + " " + strings.Join(args, " ") + ")"
}

// String renders for debugging (bounded depth).
func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	switch t.op {
	case OpConst:
		return constSMT(t)
	case OpVar:
		return t.name
	}
	if d == 0 {
		return "..."
	}
	var as []string
	for i := 0; i < int(t.n); i++ {
		as = append(as, t.a[i].str(d-1))
	}
	return smtNode(t, as)
}
