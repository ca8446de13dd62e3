package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Func is the compiled form of one ssa.Function: every SSA instruction is
// turned into a closure over register slots.
type Func struct {
	fn       *ssa.Function
	name     string
	id       int
	blocks   []*blk
	nregs    int
	nparams  int
	hasDefer bool
	inRepo   bool
	isInit   bool
	native   func(p *Path, args []Value) Value
	once     sync.Once
	nofold   bool
	resT     types.Type // result type (tuple or single), nil if none
}

type instr func(p *Path, fr *frame)

type phiC struct {
	dst   int
	edges []opnd
}

type blk struct {
	phis []phiC
	ins  []instr
	term func(p *Path, fr *frame) int
	n    int
	gid  int // global block id, for coverage
	pred map[int]int
}

type opndKind uint8

const (
	okReg opndKind = iota
	okConst
	okGlobal
)

type opnd struct {
	kind opndKind
	idx  int
	c    Value
	g    *ssa.Global
}

func (o *opnd) get(p *Path, fr *frame) Value {
	switch o.kind {
	case okReg:
		return fr.regs[o.idx]
	case okConst:
		return o.c
	}
	return p.global(o.g)
}

type frame struct {
	f         *Func
	regs      []Value
	defers    []deferred
	result    Value
	panicking bool
	pv        targetPanic
	done      bool
	owner     *frame // frame whose deferred call this is
	start     int
}

type deferred struct {
	fn   *Closure
	nat  func(p *Path, args []Value) Value
	args []Value
	rec  func(p *Path) // builtin
}

func (e *Engine) fnOf(fn *ssa.Function) *Func {
	if v, ok := e.funcs.Load(fn); ok {
		f := v.(*Func)
		f.once.Do(func() { e.compile(f) })
		return f
	}
	f := &Func{fn: fn, name: fn.String()}
	v, _ := e.funcs.LoadOrStore(fn, f)
	f = v.(*Func)
	f.once.Do(func() { e.compile(f) })
	return f
}

type comp struct {
	e    *Engine
	f    *Func
	regs map[ssa.Value]int
}

func (c *comp) reg(v ssa.Value) int {
	if i, ok := c.regs[v]; ok {
		return i
	}
	i := len(c.regs)
	c.regs[v] = i
	return i
}

func (c *comp) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{kind: okConst, c: constVal(x)}
	case *ssa.Global:
		return opnd{kind: okGlobal, g: x}
	case *ssa.Function:
		return opnd{kind: okConst, c: &Closure{fn: c.e.lazyFn(x)}}
	case *ssa.Builtin:
		return opnd{kind: okConst, c: (*Closure)(nil)}
	}
	return opnd{kind: okReg, idx: c.reg(v)}
}

// lazyFn returns the Func without compiling it (recursion).
func (e *Engine) lazyFn(fn *ssa.Function) *Func {
	if v, ok := e.funcs.Load(fn); ok {
		return v.(*Func)
	}
	f := &Func{fn: fn, name: fn.String()}
	v, _ := e.funcs.LoadOrStore(fn, f)
	return v.(*Func)
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		return zero(c.Type())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case b.Info()&types.IsInteger != 0:
		k, _ := kindOf(t)
		if k.w == 64 && !k.signed {
			return int64(c.Uint64())
		}
		return k.norm(c.Int64())
	case b.Info()&types.IsFloat != 0:
		return c.Float64()
	}
	return c.Complex128()
}

func (e *Engine) compile(f *Func) {
	fn := f.fn
	e.mu.Lock()
	f.id = e.nfuncs
	e.nfuncs++
	e.allFuncs = append(e.allFuncs, f)
	e.mu.Unlock()
	f.inRepo = e.isRepoFn(fn)
	f.isInit = fn.Synthetic == "package initializer"
	if fn.Signature.Results().Len() == 1 {
		f.resT = fn.Signature.Results().At(0).Type()
	} else if fn.Signature.Results().Len() > 1 {
		f.resT = fn.Signature.Results()
	}
	if n := intrinsicFor(fn); n != nil {
		f.native = n
		f.inRepo = false
		return
	}
	if len(fn.Blocks) == 0 {
		name := f.name
		f.native = func(p *Path, args []Value) Value {
			unsupported("external function %s", name)
			return nil
		}
		return
	}
	c := &comp{e: e, f: f, regs: map[ssa.Value]int{}}
	for _, x := range fn.Params {
		c.reg(x)
	}
	f.nparams = len(fn.Params)
	for _, x := range fn.FreeVars {
		c.reg(x)
	}
	for _, b := range fn.Blocks {
		f.blocks = append(f.blocks, c.block(b))
	}
	f.nregs = len(c.regs)
	if f.inRepo {
		e.mu.Lock()
		for _, b := range f.blocks {
			b.gid = e.nblocks
			e.nblocks++
		}
		e.mu.Unlock()
	}
}

func (c *comp) block(b *ssa.BasicBlock) *blk {
	r := &blk{n: len(b.Instrs), gid: -1}
	r.pred = map[int]int{}
	for i, p := range b.Preds {
		if _, dup := r.pred[p.Index]; !dup {
			r.pred[p.Index] = i
		}
	}
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			ph := phiC{dst: c.reg(x)}
			for _, e := range x.Edges {
				ph.edges = append(ph.edges, c.op(e))
			}
			r.phis = append(r.phis, ph)
		case *ssa.DebugRef:
		case *ssa.If:
			cond := c.op(x.Cond)
			t, f := b.Succs[0].Index, b.Succs[1].Index
			r.term = func(p *Path, fr *frame) int {
				if p.truth(cond.get(p, fr)) {
					return t
				}
				return f
			}
		case *ssa.Jump:
			t := b.Succs[0].Index
			r.term = func(p *Path, fr *frame) int { return t }
		case *ssa.Return:
			var ops []opnd
			for _, v := range x.Results {
				ops = append(ops, c.op(v))
			}
			switch len(ops) {
			case 0:
				r.term = func(p *Path, fr *frame) int { return -1 }
			case 1:
				o := ops[0]
				r.term = func(p *Path, fr *frame) int {
					fr.result = o.get(p, fr)
					return -1
				}
			default:
				r.term = func(p *Path, fr *frame) int {
					t := make(tuple, len(ops))
					for i := range ops {
						t[i] = ops[i].get(p, fr)
					}
					fr.result = t
					return -1
				}
			}
		case *ssa.Panic:
			o := c.op(x.X)
			r.term = func(p *Path, fr *frame) int {
				v := o.get(p, fr)
				if i, ok := v.(iface); ok && i.t == nil {
					p.runtimePanic("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
				}
				panic(targetPanic{v})
			}
		default:
			if i := c.instr(in); i != nil {
				r.ins = append(r.ins, i)
			}
		}
	}
	if r.term == nil {
		name := c.f.name
		r.term = func(p *Path, fr *frame) int {
			unsupported("block without terminator in %s", name)
			return -1
		}
	}
	return r
}

func deref(p *Path, v Value) *Value {
	a, ok := v.(*Value)
	if !ok {
		unsupported("pointer value %T", v)
	}
	if a == nil {
		p.runtimePanic("invalid memory address or nil pointer dereference")
	}
	return a
}

func (c *comp) instr(in ssa.Instruction) instr {
	switch x := in.(type) {
	case *ssa.Alloc:
		dst := c.reg(x)
		t := x.Type().Underlying().(*types.Pointer).Elem()
		return func(p *Path, fr *frame) {
			v := new(Value)
			*v = zero(t)
			fr.regs[dst] = v
		}
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.BinOp:
		return c.binop(x)
	case *ssa.Call:
		dst := c.reg(x)
		cl := c.call(&x.Call)
		return func(p *Path, fr *frame) { fr.regs[dst] = cl(p, fr) }
	case *ssa.Defer:
		c.f.hasDefer = true
		if x.DeferStack != nil {
			return c.unsup("defer in range-over-func body")
		}
		d := c.prepCall(&x.Call)
		return func(p *Path, fr *frame) { fr.defers = append(fr.defers, d(p, fr)) }
	case *ssa.Go:
		return c.unsup("go statement")
	case *ssa.Send:
		ch, v := c.op(x.Chan), c.op(x.X)
		return func(p *Path, fr *frame) {
			h := ch.get(p, fr).(*Chan)
			if !h.canSend(p) {
				unsupported("blocking channel send")
			}
			h.send(p, v.get(p, fr))
		}
	case *ssa.Select:
		return c.selectStmt(x)
	case *ssa.RunDefers:
		return func(p *Path, fr *frame) { p.runDefers(fr) }
	case *ssa.ChangeType:
		return c.mov(x, x.X)
	case *ssa.ChangeInterface:
		return c.mov(x, x.X)
	case *ssa.Convert:
		return c.convert(x)
	case *ssa.MultiConvert:
		return c.unsup("multiconvert")
	case *ssa.SliceToArrayPointer:
		return c.unsup("slice to array pointer")
	case *ssa.MakeInterface:
		dst, o, t := c.reg(x), c.op(x.X), x.X.Type()
		return func(p *Path, fr *frame) { fr.regs[dst] = iface{t, o.get(p, fr)} }
	case *ssa.MakeClosure:
		dst := c.reg(x)
		fn := c.e.lazyFn(x.Fn.(*ssa.Function))
		var bs []opnd
		for _, b := range x.Bindings {
			bs = append(bs, c.op(b))
		}
		return func(p *Path, fr *frame) {
			env := make([]Value, len(bs))
			for i := range bs {
				env[i] = bs[i].get(p, fr)
			}
			fr.regs[dst] = &Closure{fn: fn, env: env}
		}
	case *ssa.MakeChan:
		dst := c.reg(x)
		sz := c.op(x.Size)
		return func(p *Path, fr *frame) {
			n, ok := sz.get(p, fr).(int64)
			if !ok {
				unsupported("channel of symbolic capacity")
			}
			if n < 0 {
				p.runtimePanic("makechan: size out of range")
			}
			fr.regs[dst] = &Chan{p: p, cap: int(n)}
		}
	case *ssa.MakeMap:
		dst := c.reg(x)
		kt := x.Type().Underlying().(*types.Map).Key()
		return func(p *Path, fr *frame) { fr.regs[dst] = newMap(kt) }
	case *ssa.MakeSlice:
		dst, l, cp := c.reg(x), c.op(x.Len), c.op(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		return func(p *Path, fr *frame) {
			n := p.concInt(l.get(p, fr))
			m := p.concInt(cp.get(p, fr))
			if n < 0 || n > 1<<20 {
				p.runtimePanic("makeslice: len out of range")
			}
			if m < n || m > 1<<20 {
				p.runtimePanic("makeslice: cap out of range")
			}
			fr.regs[dst] = makeSlice(et, int(n), int(m))
		}
	case *ssa.Slice:
		return c.slice(x)
	case *ssa.FieldAddr:
		dst, o, i := c.reg(x), c.op(x.X), x.Field
		return func(p *Path, fr *frame) {
			a := deref(p, o.get(p, fr))
			fr.regs[dst] = &(*a).(structure)[i]
		}
	case *ssa.Field:
		dst, o, i := c.reg(x), c.op(x.X), x.Field
		return func(p *Path, fr *frame) { fr.regs[dst] = o.get(p, fr).(structure)[i] }
	case *ssa.IndexAddr:
		dst, o, ix := c.reg(x), c.op(x.X), c.op(x.Index)
		return func(p *Path, fr *frame) {
			var s []Value
			switch a := o.get(p, fr).(type) {
			case []Value:
				s = a
			case *Value:
				if a == nil {
					p.runtimePanic("invalid memory address or nil pointer dereference")
				}
				s = (*a).(array)
			default:
				unsupported("IndexAddr on %T", a)
			}
			i := p.index(ix.get(p, fr), len(s))
			fr.regs[dst] = &s[i]
		}
	case *ssa.Index:
		dst, o, ix := c.reg(x), c.op(x.X), c.op(x.Index)
		return func(p *Path, fr *frame) {
			switch s := o.get(p, fr).(type) {
			case array:
				fr.regs[dst] = s[p.index(ix.get(p, fr), len(s))]
			case string:
				fr.regs[dst] = int64(s[p.index(ix.get(p, fr), len(s))])
			case *SymStr:
				b := p.strBytes(s)
				fr.regs[dst] = b[p.index(ix.get(p, fr), len(b))]
			default:
				unsupported("Index on %T", s)
			}
		}
	case *ssa.Lookup:
		return c.lookup(x)
	case *ssa.Range:
		dst, o := c.reg(x), c.op(x.X)
		return func(p *Path, fr *frame) {
			switch v := o.get(p, fr).(type) {
			case *Map:
				fr.regs[dst] = &mapIter{m: v, order: p.mapOrder(v)}
			case string, *SymStr:
				fr.regs[dst] = &strIter{s: v}
			default:
				unsupported("range over %T", v)
			}
		}
	case *ssa.Next:
		dst, o := c.reg(x), c.op(x.Iter)
		return func(p *Path, fr *frame) { fr.regs[dst] = p.next(o.get(p, fr)) }
	case *ssa.TypeAssert:
		dst, o := c.reg(x), c.op(x.X)
		at, ok := x.AssertedType, x.CommaOk
		_, isI := at.Underlying().(*types.Interface)
		return func(p *Path, fr *frame) {
			fr.regs[dst] = p.typeAssert(o.get(p, fr).(iface), at, isI, ok)
		}
	case *ssa.Extract:
		dst, o, i := c.reg(x), c.op(x.Tuple), x.Index
		return func(p *Path, fr *frame) { fr.regs[dst] = o.get(p, fr).(tuple)[i] }
	case *ssa.Store:
		a, o := c.op(x.Addr), c.op(x.Val)
		return func(p *Path, fr *frame) {
			ad := deref(p, a.get(p, fr))
			if p.frozen != nil {
				p.noteStore(ad)
			}
			store(ad, o.get(p, fr))
		}
	case *ssa.MapUpdate:
		m, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		return func(p *Path, fr *frame) {
			mm := m.get(p, fr).(*Map)
			if mm == nil {
				panic(targetPanic{p.rtErr("assignment to entry in nil map")})
			}
			p.mapSet(mm, k.get(p, fr), v.get(p, fr))
		}
	}
	return c.unsup(fmt.Sprintf("%T", in))
}

func (c *comp) unsup(what string) instr {
	name := c.f.name
	return func(p *Path, fr *frame) { unsupported("%s in %s", what, name) }
}

func (c *comp) mov(dst ssa.Value, src ssa.Value) instr {
	d, o := c.reg(dst), c.op(src)
	return func(p *Path, fr *frame) { fr.regs[d] = o.get(p, fr) }
}

func makeSlice(et types.Type, n, m int) []Value {
	s := make([]Value, m)
	if m > 0 {
		z := zero(et)
		switch z.(type) {
		case structure, array:
			for i := range s {
				s[i] = zero(et)
			}
		default:
			for i := range s {
				s[i] = z
			}
		}
	}
	return s[:n]
}

func (c *comp) unop(x *ssa.UnOp) instr {
	dst, o := c.reg(x), c.op(x.X)
	switch x.Op {
	case token.ARROW:
		et, commaOk := x.X.Type().Underlying().(*types.Chan).Elem(), x.CommaOk
		return func(p *Path, fr *frame) {
			h := o.get(p, fr).(*Chan)
			if !h.canRecv(p) {
				unsupported("blocking channel receive")
			}
			v, ok := h.recv(et)
			if commaOk {
				fr.regs[dst] = tuple{v, ok}
			} else {
				fr.regs[dst] = v
			}
		}
	case token.MUL:
		return func(p *Path, fr *frame) {
			a := deref(p, o.get(p, fr))
			v := *a
			switch v.(type) {
			case structure, array:
				v = load(v)
			}
			fr.regs[dst] = v
		}
	case token.NOT:
		return func(p *Path, fr *frame) {
			switch v := o.get(p, fr).(type) {
			case bool:
				fr.regs[dst] = !v
			case *Term:
				fr.regs[dst] = p.f.Not(v)
			}
		}
	case token.SUB:
		k, isInt := kindOf(x.Type())
		return func(p *Path, fr *frame) {
			switch v := o.get(p, fr).(type) {
			case int64:
				fr.regs[dst] = k.norm(-v)
			case float64:
				fr.regs[dst] = -v
			case *Term:
				if !isInt {
					unsupported("symbolic negation")
				}
				fr.regs[dst] = p.fromTerm(p.f.bin(OpSub, p.f.BV(0, k.w), v), k)
			default:
				unsupported("negation of %T", v)
			}
		}
	case token.XOR:
		k, _ := kindOf(x.Type())
		return func(p *Path, fr *frame) {
			switch v := o.get(p, fr).(type) {
			case int64:
				fr.regs[dst] = k.norm(^v)
			case *Term:
				fr.regs[dst] = p.fromTerm(p.f.BVNot(v), k)
			default:
				unsupported("complement of %T", v)
			}
		}
	}
	return c.unsup("unary " + x.Op.String())
}

func (c *comp) binop(x *ssa.BinOp) instr {
	dst, a, b := c.reg(x), c.op(x.X), c.op(x.Y)
	t := x.X.Type()
	op := x.Op
	switch op {
	case token.EQL, token.NEQ:
		// mixed interface / concrete comparisons
		yt := x.Y.Type()
		_, xi := t.Underlying().(*types.Interface)
		_, yi := yt.Underlying().(*types.Interface)
		neg := op == token.NEQ
		return func(p *Path, fr *frame) {
			u, v := a.get(p, fr), b.get(p, fr)
			ct := t
			if xi && !yi {
				v = iface{yt, v}
			} else if yi && !xi {
				u = iface{t, u}
				ct = yt
			}
			var r Value
			switch uu := u.(type) {
			case int64:
				if vv, ok := v.(int64); ok {
					r = uu == vv
				}
			case string:
				if vv, ok := v.(string); ok {
					r = uu == vv
				}
			case bool:
				if vv, ok := v.(bool); ok {
					r = uu == vv
				}
			}
			if r == nil {
				r = p.fromBool(p.equal(ct, u, v))
			}
			if neg {
				switch rr := r.(type) {
				case bool:
					r = !rr
				case *Term:
					r = p.f.Not(rr)
				}
			}
			fr.regs[dst] = r
		}
	}
	u := t.Underlying().(*types.Basic)
	switch {
	case u.Info()&types.IsInteger != 0:
		k, _ := kindOf(t)
		yk, _ := kindOf(x.Y.Type())
		return func(p *Path, fr *frame) {
			u, v := a.get(p, fr), b.get(p, fr)
			if i, ok := u.(int64); ok {
				if j, ok := v.(int64); ok {
					fr.regs[dst] = p.intOp(op, k, yk, i, j)
					return
				}
			}
			fr.regs[dst] = p.symIntOp(op, k, yk, u, v)
		}
	case u.Info()&types.IsString != 0:
		return func(p *Path, fr *frame) {
			u, v := a.get(p, fr), b.get(p, fr)
			s1, ok1 := u.(string)
			s2, ok2 := v.(string)
			conc := ok1 && ok2
			var r Value
			switch op {
			case token.ADD:
				r = p.concat(u, v)
			case token.LSS:
				if conc {
					r = s1 < s2
				} else {
					r = p.fromBool(p.strLt(u, v))
				}
			case token.GTR:
				if conc {
					r = s1 > s2
				} else {
					r = p.fromBool(p.strLt(v, u))
				}
			case token.LEQ:
				if conc {
					r = s1 <= s2
				} else {
					r = p.fromBool(p.f.Not(p.strLt(v, u)))
				}
			case token.GEQ:
				if conc {
					r = s1 >= s2
				} else {
					r = p.fromBool(p.f.Not(p.strLt(u, v)))
				}
			}
			fr.regs[dst] = r
		}
	case u.Info()&types.IsFloat != 0:
		f32 := u.Kind() == types.Float32
		return func(p *Path, fr *frame) {
			i, ok1 := a.get(p, fr).(float64)
			j, ok2 := b.get(p, fr).(float64)
			if !ok1 || !ok2 {
				unsupported("symbolic float arithmetic")
			}
			var r Value
			switch op {
			case token.ADD:
				r = i + j
			case token.SUB:
				r = i - j
			case token.MUL:
				r = i * j
			case token.QUO:
				r = i / j
			case token.LSS:
				r = i < j
			case token.LEQ:
				r = i <= j
			case token.GTR:
				r = i > j
			case token.GEQ:
				r = i >= j
			}
			if f32 {
				if z, ok := r.(float64); ok {
					r = float64(float32(z))
				}
			}
			fr.regs[dst] = r
		}
	}
	return c.unsup("binop on " + t.String())
}

func (p *Path) intOp(op token.Token, k, yk intKind, i, j int64) Value {
	uns := !k.signed
	switch op {
	case token.ADD:
		return k.norm(i + j)
	case token.SUB:
		return k.norm(i - j)
	case token.MUL:
		return k.norm(i * j)
	case token.QUO, token.REM:
		if j == 0 {
			p.runtimePanic("integer divide by zero")
		}
		if uns {
			if op == token.QUO {
				return k.norm(int64(uint64(i) / uint64(j)))
			}
			return k.norm(int64(uint64(i) % uint64(j)))
		}
		if j == -1 {
			if op == token.QUO {
				return k.norm(-i)
			}
			return int64(0)
		}
		if op == token.QUO {
			return k.norm(i / j)
		}
		return k.norm(i % j)
	case token.AND:
		return k.norm(i & j)
	case token.OR:
		return k.norm(i | j)
	case token.XOR:
		return k.norm(i ^ j)
	case token.AND_NOT:
		return k.norm(i &^ j)
	case token.SHL, token.SHR:
		if yk.signed && j < 0 {
			p.runtimePanic("negative shift amount")
		}
		s := uint64(j)
		if op == token.SHL {
			if s >= 64 {
				return int64(0)
			}
			return k.norm(i << s)
		}
		if uns {
			if s >= 64 {
				return int64(0)
			}
			return k.norm(int64(uint64(i) >> s))
		}
		if s >= 64 {
			s = 63
		}
		return k.norm(i >> s)
	case token.LSS:
		if uns {
			return uint64(i) < uint64(j)
		}
		return i < j
	case token.LEQ:
		if uns {
			return uint64(i) <= uint64(j)
		}
		return i <= j
	case token.GTR:
		if uns {
			return uint64(i) > uint64(j)
		}
		return i > j
	case token.GEQ:
		if uns {
			return uint64(i) >= uint64(j)
		}
		return i >= j
	}
	unsupported("int op %s", op)
	return nil
}

func (p *Path) symIntOp(op token.Token, k, yk intKind, u, v Value) Value {
	f := p.f
	x := p.toTerm(u, k.w)
	if op == token.SHL || op == token.SHR {
		y := p.toTerm(v, yk.w)
		if yk.signed && p.branch(f.bin(OpSlt, y, f.BV(0, yk.w))) {
			p.runtimePanic("negative shift amount")
		}
		var yy *Term
		if yk.w <= k.w {
			yy = f.Zext(y, k.w)
		} else {
			yy = f.Ite(f.bin(OpUlt, y, f.BV(uint64(k.w), yk.w)), f.Extract(y, k.w-1, 0), f.BV(uint64(k.w), k.w))
		}
		o := OpShl
		if op == token.SHR {
			o = OpLShr
			if k.signed {
				o = OpAShr
			}
		}
		return p.fromTerm(f.bin(o, x, yy), k)
	}
	y := p.toTerm(v, k.w)
	lt := OpUlt
	if k.signed {
		lt = OpSlt
	}
	switch op {
	case token.ADD:
		return p.fromTerm(f.bin(OpAdd, x, y), k)
	case token.SUB:
		return p.fromTerm(f.bin(OpSub, x, y), k)
	case token.MUL:
		return p.fromTerm(f.bin(OpMul, x, y), k)
	case token.QUO, token.REM:
		if p.branch(f.Eq(y, f.BV(0, k.w))) {
			p.runtimePanic("integer divide by zero")
		}
		o := OpUDiv
		switch {
		case op == token.QUO && k.signed:
			o = OpSDiv
		case op == token.REM && k.signed:
			o = OpSRem
		case op == token.REM:
			o = OpURem
		}
		return p.fromTerm(f.bin(o, x, y), k)
	case token.AND:
		return p.fromTerm(f.bin(OpBVAnd, x, y), k)
	case token.OR:
		return p.fromTerm(f.bin(OpBVOr, x, y), k)
	case token.XOR:
		return p.fromTerm(f.bin(OpBVXor, x, y), k)
	case token.AND_NOT:
		return p.fromTerm(f.bin(OpBVAnd, x, f.BVNot(y)), k)
	case token.LSS:
		return p.fromBool(f.bin(lt, x, y))
	case token.GTR:
		return p.fromBool(f.bin(lt, y, x))
	case token.LEQ:
		return p.fromBool(f.Not(f.bin(lt, y, x)))
	case token.GEQ:
		return p.fromBool(f.Not(f.bin(lt, x, y)))
	}
	unsupported("symbolic int op %s", op)
	return nil
}

func (c *comp) convert(x *ssa.Convert) instr {
	dst, o := c.reg(x), c.op(x.X)
	ft, tt := x.X.Type(), x.Type()
	fk, fInt := kindOf(ft)
	tk, tInt := kindOf(tt)
	switch {
	case fInt && tInt:
		return func(p *Path, fr *frame) {
			switch v := o.get(p, fr).(type) {
			case int64:
				fr.regs[dst] = tk.norm(v)
			case *Term:
				var r *Term
				if tk.w <= fk.w {
					r = p.f.Extract(v, tk.w-1, 0)
				} else if fk.signed {
					r = p.f.Sext(v, tk.w)
				} else {
					r = p.f.Zext(v, tk.w)
				}
				fr.regs[dst] = p.fromTerm(r, tk)
			}
		}
	case fInt && isFloat(tt):
		f32 := tt.Underlying().(*types.Basic).Kind() == types.Float32
		return func(p *Path, fr *frame) {
			v := p.concIntW(o.get(p, fr), fk)
			var r float64
			if fk.signed {
				r = float64(v)
			} else {
				r = float64(uint64(v))
			}
			if f32 {
				r = float64(float32(r))
			}
			fr.regs[dst] = r
		}
	case isFloat(ft) && tInt:
		return func(p *Path, fr *frame) {
			fr.regs[dst] = tk.norm(int64(o.get(p, fr).(float64)))
		}
	case isFloat(ft) && isFloat(tt):
		f32 := tt.Underlying().(*types.Basic).Kind() == types.Float32
		return func(p *Path, fr *frame) {
			r := o.get(p, fr).(float64)
			if f32 {
				r = float64(float32(r))
			}
			fr.regs[dst] = r
		}
	case isString(ft) && isString(tt):
		return c.mov(x, x.X)
	case fInt && isString(tt):
		return func(p *Path, fr *frame) {
			fr.regs[dst] = string(rune(p.concIntW(o.get(p, fr), fk)))
		}
	}
	if sl, ok := tt.Underlying().(*types.Slice); ok && isString(ft) {
		ek, _ := kindOf(sl.Elem())
		if ek.w == 8 {
			return func(p *Path, fr *frame) { fr.regs[dst] = p.strBytes(o.get(p, fr)) }
		}
		return func(p *Path, fr *frame) {
			it := &strIter{s: o.get(p, fr)}
			r := []Value{}
			for {
				t := p.next(it).(tuple)
				if !t[0].(bool) {
					break
				}
				r = append(r, t[2])
			}
			fr.regs[dst] = r
		}
	}
	if sl, ok := ft.Underlying().(*types.Slice); ok && isString(tt) {
		ek, _ := kindOf(sl.Elem())
		if ek.w == 8 {
			return func(p *Path, fr *frame) { fr.regs[dst] = p.bytesStr(o.get(p, fr).([]Value)) }
		}
		return func(p *Path, fr *frame) {
			var b []rune
			for _, v := range o.get(p, fr).([]Value) {
				b = append(b, rune(p.concIntW(v, ek)))
			}
			fr.regs[dst] = string(b)
		}
	}
	return c.unsup(fmt.Sprintf("conversion %s to %s", ft, tt))
}

func (c *comp) slice(x *ssa.Slice) instr {
	dst, o := c.reg(x), c.op(x.X)
	opt := func(v ssa.Value) *opnd {
		if v == nil {
			return nil
		}
		q := c.op(v)
		return &q
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	return func(p *Path, fr *frame) {
		get := func(q *opnd, def int) int {
			if q == nil {
				return def
			}
			return int(p.concInt(q.get(p, fr)))
		}
		v := o.get(p, fr)
		switch s := v.(type) {
		case string:
			l, h := get(lo, 0), get(hi, len(s))
			if l < 0 || h < l || h > len(s) {
				p.runtimePanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, len(s)))
			}
			fr.regs[dst] = s[l:h]
			return
		case *SymStr:
			b := p.strBytes(s)
			l, h := get(lo, 0), get(hi, len(b))
			if l < 0 || h < l || h > len(b) {
				p.runtimePanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, len(b)))
			}
			fr.regs[dst] = p.bytesStr(b[l:h])
			return
		}
		var s []Value
		isArr := false
		switch a := v.(type) {
		case []Value:
			s = a
		case *Value:
			s = (*deref(p, a)).(array)
			isArr = true
		default:
			unsupported("slice of %T", v)
		}
		l := get(lo, 0)
		h := get(hi, len(s))
		m := get(mx, cap(s))
		if l < 0 || h < l || m < h || m > cap(s) {
			p.runtimePanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, cap(s)))
		}
		if s == nil && !isArr {
			fr.regs[dst] = []Value(nil)
			return
		}
		fr.regs[dst] = s[l:h:m]
	}
}

func (c *comp) lookup(x *ssa.Lookup) instr {
	dst, o, ix := c.reg(x), c.op(x.X), c.op(x.Index)
	if isString(x.X.Type()) {
		return func(p *Path, fr *frame) {
			b := p.strBytes(o.get(p, fr))
			fr.regs[dst] = b[p.index(ix.get(p, fr), len(b))]
		}
	}
	et := x.X.Type().Underlying().(*types.Map).Elem()
	kt := x.X.Type().Underlying().(*types.Map).Key()
	ok := x.CommaOk
	return func(p *Path, fr *frame) {
		m := o.get(p, fr).(*Map)
		k := ix.get(p, fr)
		var e *mapEntry
		if m != nil {
			e = p.mapFind(m, k)
		} else {
			p.ckey(kt, k)
		}
		var v Value
		if e != nil {
			v = e.v
		} else {
			v = zero(et)
		}
		if ok {
			fr.regs[dst] = tuple{v, e != nil}
		} else {
			fr.regs[dst] = v
		}
	}
}
