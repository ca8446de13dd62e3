package main

import (
	"fmt"
	"strings"
)

// Terms are hash-consed SMT expressions of sort Bool (w==0) or
// (_ BitVec w), 1<=w<=64. Every worker owns one Factory, so terms are never
// shared between goroutines.

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot // bool
	OpAnd // bool
	OpOr  // bool
	OpEq
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBVAnd
	OpBVOr
	OpBVXor
	OpBVNot
	OpShl
	OpLShr
	OpAShr
	OpUlt
	OpSlt
	OpExtract // val = hi<<8 | lo
	OpConcat
	OpZext
	OpSext
)

type Term struct {
	op      Op
	w       uint8
	a, b, c *Term
	val     uint64
	name    string
	id      int32
	emitted bool
	gen     uint32
	cached  uint64
	vars    []*Term
	vmark   uint32
	smark   uint32
	cgen    uint32
	cnum    uint32
	pmark   uint32
	ord     int32
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c int32
	val     uint64
	name    string
}

type Factory struct {
	tab    map[tkey]*Term
	n      int32
	gen    uint32
	vgen   uint32
	cgen   uint32
	cgen2  uint32
	True   *Term
	False  *Term
	byname map[string]*Term
}

func NewFactory() *Factory {
	f := &Factory{tab: make(map[tkey]*Term), byname: make(map[string]*Term), cgen2: 1 << 31}
	f.True = f.mk(OpConst, 0, nil, nil, nil, 1, "")
	f.False = f.mk(OpConst, 0, nil, nil, nil, 0, "")
	return f
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (f *Factory) mk(op Op, w uint8, a, b, c *Term, val uint64, name string) *Term {
	k := tkey{op, w, tid(a), tid(b), tid(c), val, name}
	if t, ok := f.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, val: val, name: name, id: f.n}
	f.n++
	f.tab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (t *Term) isConst() bool { return t.op == OpConst }

func (f *Factory) Bool(b bool) *Term {
	if b {
		return f.True
	}
	return f.False
}
func (f *Factory) BV(v uint64, w uint8) *Term {
	return f.mk(OpConst, w, nil, nil, nil, v&mask(w), "")
}
func (f *Factory) Var(name string, w uint8) *Term {
	return f.mk(OpVar, w, nil, nil, nil, 0, name)
}

func (f *Factory) Not(a *Term) *Term {
	switch {
	case a == f.True:
		return f.False
	case a == f.False:
		return f.True
	case a.op == OpNot:
		return a.a
	}
	return f.mk(OpNot, 0, a, nil, nil, 0, "")
}

func (f *Factory) And(a, b *Term) *Term {
	switch {
	case a == f.False || b == f.False:
		return f.False
	case a == f.True:
		return b
	case b == f.True:
		return a
	case a == b:
		return a
	case f.Not(a) == b:
		return f.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return f.mk(OpAnd, 0, a, b, nil, 0, "")
}

func (f *Factory) Or(a, b *Term) *Term {
	switch {
	case a == f.True || b == f.True:
		return f.True
	case a == f.False:
		return b
	case b == f.False:
		return a
	case a == b:
		return a
	case f.Not(a) == b:
		return f.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return f.mk(OpOr, 0, a, b, nil, 0, "")
}

func (f *Factory) Eq(a, b *Term) *Term {
	if a == b {
		return f.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return f.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b == f.True {
			return a
		}
		if b == f.False {
			return f.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.op == OpIte && (a.b.isConst() || a.c.isConst()) {
			return f.Ite(a.a, f.Eq(a.b, b), f.Eq(a.c, b))
		}
		if a.op == OpZext {
			if b.val > mask(a.a.w) {
				return f.False
			}
			return f.Eq(a.a, f.BV(b.val, a.a.w))
		}
		if a.op == OpAdd && a.b.isConst() {
			return f.Eq(a.a, f.BV(b.val-a.b.val, a.w))
		}
		return f.mk(OpEq, 0, a, b, nil, 0, "")
	}
	if a.id > b.id {
		a, b = b, a
	}
	return f.mk(OpEq, 0, a, b, nil, 0, "")
}

func (f *Factory) Ite(c, a, b *Term) *Term {
	if c == f.True || a == b {
		return a
	}
	if c == f.False {
		return b
	}
	if a.w == 0 {
		if a == f.True {
			return f.Or(c, b)
		}
		if a == f.False {
			return f.And(f.Not(c), b)
		}
		if b == f.True {
			return f.Or(f.Not(c), a)
		}
		if b == f.False {
			return f.And(c, a)
		}
	}
	if c.op == OpNot {
		return f.Ite(c.a, b, a)
	}
	return f.mk(OpIte, a.w, c, a, b, 0, "")
}

func (f *Factory) bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("bin width mismatch op %d: %d %d", op, a.w, b.w))
	}
	w := a.w
	if a.isConst() && b.isConst() {
		return f.constOf(op, w, evalBin(op, w, a.val, b.val))
	}
	switch op {
	case OpAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if a.op == OpAdd && a.b.isConst() {
				return f.bin(OpAdd, a.a, f.BV(a.b.val+b.val, w))
			}
			// ite(c, const, x) + const pushes inwards
			if a.op == OpIte && a.b.isConst() && a.c.isConst() {
				return f.Ite(a.a, f.BV(a.b.val+b.val, w), f.BV(a.c.val+b.val, w))
			}
		}
	case OpSub:
		if b.isConst() {
			return f.bin(OpAdd, a, f.BV(-b.val, w))
		}
		if a == b {
			return f.BV(0, w)
		}
	case OpMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	case OpBVAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 0 {
			return b
		}
		if b.isConst() && b.val == mask(w) {
			return a
		}
	case OpBVOr, OpBVXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 0 {
			return a
		}
	case OpUlt:
		if a == b {
			return f.False
		}
		if b.isConst() && b.val == 0 {
			return f.False
		}
	case OpSlt:
		if a == b {
			return f.False
		}
	}
	rw := w
	if op == OpUlt || op == OpSlt {
		rw = 0
		// comparisons of an ite of constants with a constant
		if b.isConst() && a.op == OpIte && (a.b.isConst() || a.c.isConst()) {
			return f.Ite(a.a, f.bin(op, a.b, b), f.bin(op, a.c, b))
		}
		if a.isConst() && b.op == OpIte && (b.b.isConst() || b.c.isConst()) {
			return f.Ite(b.a, f.bin(op, a, b.b), f.bin(op, a, b.c))
		}
	}
	return f.mk(op, rw, a, b, nil, 0, "")
}

func (f *Factory) constOf(op Op, w uint8, v uint64) *Term {
	if op == OpUlt || op == OpSlt {
		return f.Bool(v != 0)
	}
	return f.BV(v, w)
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	b2 := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch op {
	case OpAdd:
		return (x + y) & m
	case OpSub:
		return (x - y) & m
	case OpMul:
		return (x * y) & m
	case OpUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpURem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSDiv:
		sxv, syv := sx(x, w), sx(y, w)
		if syv == 0 {
			if sxv < 0 {
				return 1
			}
			return m
		}
		if syv == -1 {
			return uint64(-sxv) & m
		}
		return uint64(sxv/syv) & m
	case OpSRem:
		sxv, syv := sx(x, w), sx(y, w)
		if syv == 0 {
			return x
		}
		if syv == -1 {
			return 0
		}
		return uint64(sxv%syv) & m
	case OpBVAnd:
		return x & y
	case OpBVOr:
		return x | y
	case OpBVXor:
		return x ^ y
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OpLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & m
	case OpUlt:
		return b2(x < y)
	case OpSlt:
		return b2(sx(x, w) < sx(y, w))
	}
	panic("evalBin")
}

func (f *Factory) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if a.isConst() {
		return f.BV(a.val>>lo, w)
	}
	switch a.op {
	case OpExtract:
		l := uint8(a.val & 0xff)
		return f.Extract(a.a, hi+l, lo+l)
	case OpZext:
		if hi < a.a.w {
			return f.Extract(a.a, hi, lo)
		}
		if lo >= a.a.w {
			return f.BV(0, w)
		}
	case OpConcat:
		lw := a.b.w
		if hi < lw {
			return f.Extract(a.b, hi, lo)
		}
		if lo >= lw {
			return f.Extract(a.a, hi-lw, lo-lw)
		}
	case OpIte:
		if a.b.isConst() && a.c.isConst() {
			return f.Ite(a.a, f.Extract(a.b, hi, lo), f.Extract(a.c, hi, lo))
		}
	}
	return f.mk(OpExtract, w, a, nil, nil, uint64(hi)<<8|uint64(lo), "")
}

func (f *Factory) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if a.isConst() && b.isConst() {
		return f.BV(a.val<<b.w|b.val, w)
	}
	if a.op == OpExtract && b.op == OpExtract && a.a == b.a {
		ahi, alo := uint8(a.val>>8), uint8(a.val&0xff)
		bhi, blo := uint8(b.val>>8), uint8(b.val&0xff)
		if alo == bhi+1 {
			return f.Extract(a.a, ahi, blo)
		}
	}
	return f.mk(OpConcat, w, a, b, nil, 0, "")
}

func (f *Factory) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return f.BV(a.val, w)
	}
	if a.op == OpZext {
		return f.Zext(a.a, w)
	}
	return f.mk(OpZext, w, a, nil, nil, 0, "")
}
func (f *Factory) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return f.BV(uint64(sx(a.val, a.w)), w)
	}
	return f.mk(OpSext, w, a, nil, nil, 0, "")
}
func (f *Factory) BVNot(a *Term) *Term {
	if a.isConst() {
		return f.BV(^a.val, a.w)
	}
	return f.mk(OpBVNot, a.w, a, nil, nil, 0, "")
}

// ---- evaluation under a model ----

type Model map[string]uint64

// Eval evaluates t under m. A fresh generation must be started with
// f.newGen() whenever m changes.
func (f *Factory) newGen() { f.gen++ }

func (f *Factory) Eval(t *Term, m Model) uint64 {
	switch t.op {
	case OpConst:
		return t.val
	case OpVar:
		return m[t.name] & mask1(t.w)
	}
	if t.gen == f.gen {
		return t.cached
	}
	var r uint64
	switch t.op {
	case OpNot:
		r = 1 - f.Eval(t.a, m)
	case OpAnd:
		r = f.Eval(t.a, m)
		if r != 0 {
			r = f.Eval(t.b, m)
		}
	case OpOr:
		r = f.Eval(t.a, m)
		if r == 0 {
			r = f.Eval(t.b, m)
		}
	case OpEq:
		if f.Eval(t.a, m) == f.Eval(t.b, m) {
			r = 1
		}
	case OpIte:
		if f.Eval(t.a, m) != 0 {
			r = f.Eval(t.b, m)
		} else {
			r = f.Eval(t.c, m)
		}
	case OpBVNot:
		r = ^f.Eval(t.a, m) & mask(t.w)
	case OpExtract:
		r = (f.Eval(t.a, m) >> (t.val & 0xff)) & mask(t.w)
	case OpConcat:
		r = f.Eval(t.a, m)<<t.b.w | f.Eval(t.b, m)
	case OpZext:
		r = f.Eval(t.a, m)
	case OpSext:
		r = uint64(sx(f.Eval(t.a, m), t.a.w)) & mask(t.w)
	default:
		r = evalBin(t.op, t.a.w, f.Eval(t.a, m), f.Eval(t.b, m))
	}
	t.gen = f.gen
	t.cached = r
	return r
}

func mask1(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

// ---- SMT-LIB printing ----

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem",
	OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpBVAnd: "bvand", OpBVOr: "bvor", OpBVXor: "bvxor",
	OpBVNot: "bvnot", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr", OpUlt: "bvult",
	OpSlt: "bvslt", OpConcat: "concat",
}

func (t *Term) ref(sb *strings.Builder) {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.val != 0 {
				sb.WriteString("true")
			} else {
				sb.WriteString("false")
			}
			return
		}
		fmt.Fprintf(sb, "(_ bv%d %d)", t.val, t.w)
	case OpVar:
		sb.WriteString(t.name)
	default:
		fmt.Fprintf(sb, "t%d", t.id)
	}
}

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// emit writes declarations/definitions for t (and its subterms) not yet
// known to the solver.
func (t *Term) emit(sb *strings.Builder) {
	if t == nil || t.emitted || t.op == OpConst {
		return
	}
	t.a.emit(sb)
	t.b.emit(sb)
	t.c.emit(sb)
	t.emitted = true
	if t.op == OpVar {
		fmt.Fprintf(sb, "(declare-const %s %s)\n", t.name, sortStr(t.w))
		return
	}
	fmt.Fprintf(sb, "(define-fun t%d () %s (", t.id, sortStr(t.w))
	switch t.op {
	case OpExtract:
		fmt.Fprintf(sb, "(_ extract %d %d)", t.val>>8, t.val&0xff)
	case OpZext:
		fmt.Fprintf(sb, "(_ zero_extend %d)", t.w-t.a.w)
	case OpSext:
		fmt.Fprintf(sb, "(_ sign_extend %d)", t.w-t.a.w)
	default:
		sb.WriteString(opNames[t.op])
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			x.ref(sb)
		}
	}
	sb.WriteString("))\n")
}

func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 0)
	return sb.String()
}

func (t *Term) str(sb *strings.Builder, d int) {
	if t.op == OpConst || t.op == OpVar {
		t.ref(sb)
		return
	}
	if d > 6 {
		sb.WriteString("...")
		return
	}
	n := opNames[t.op]
	if t.op == OpExtract {
		n = fmt.Sprintf("extract[%d:%d]", t.val>>8, t.val&0xff)
	} else if t.op == OpZext {
		n = "zext"
	} else if t.op == OpSext {
		n = "sext"
	}
	sb.WriteString("(" + n)
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			x.str(sb, d+1)
		}
	}
	sb.WriteString(")")
}
