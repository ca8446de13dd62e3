package main

import (
	"fmt"
	"go/types"
	"reflect"
	"slices"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type callFn func(p *Path, fr *frame) Value

// call compiles a call site.
func (c *comp) call(cc *ssa.CallCommon) callFn {
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return c.builtin(b, cc)
	}
	args := make([]opnd, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = c.op(a)
	}
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		m := cc.Method
		return func(p *Path, fr *frame) Value {
			r := recv.get(p, fr).(iface)
			if r.t == nil {
				p.runtimePanic("invalid memory address or nil pointer dereference")
			}
			fn := p.w.method(r.t, m)
			as := make([]Value, len(args)+1)
			as[0] = r.v
			for i := range args {
				as[i+1] = args[i].get(p, fr)
			}
			return p.callFn(fn, as, nil, nil)
		}
	}
	if fn, ok := cc.Value.(*ssa.Function); ok {
		f := c.e.lazyFn(fn)
		return func(p *Path, fr *frame) Value {
			as := make([]Value, len(args))
			for i := range args {
				as[i] = args[i].get(p, fr)
			}
			return p.callFn(f, as, nil, nil)
		}
	}
	fv := c.op(cc.Value)
	return func(p *Path, fr *frame) Value {
		cl := fv.get(p, fr).(*Closure)
		as := make([]Value, len(args))
		for i := range args {
			as[i] = args[i].get(p, fr)
		}
		return p.callClosure(cl, as, nil)
	}
}

// prepCall compiles the operand evaluation of a defer statement.
func (c *comp) prepCall(cc *ssa.CallCommon) func(p *Path, fr *frame) deferred {
	args := make([]opnd, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = c.op(a)
	}
	eval := func(p *Path, fr *frame) []Value {
		as := make([]Value, len(args))
		for i := range args {
			as[i] = args[i].get(p, fr)
		}
		return as
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		cl := c.call(cc)
		return func(p *Path, fr *frame) deferred {
			return deferred{rec: func(p *Path) { cl(p, fr) }}
		}
	}
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		m := cc.Method
		return func(p *Path, fr *frame) deferred {
			r := recv.get(p, fr).(iface)
			if r.t == nil {
				p.runtimePanic("invalid memory address or nil pointer dereference")
			}
			return deferred{fn: &Closure{fn: p.w.method(r.t, m)}, args: append([]Value{r.v}, eval(p, fr)...)}
		}
	}
	fv := c.op(cc.Value)
	return func(p *Path, fr *frame) deferred {
		return deferred{fn: fv.get(p, fr).(*Closure), args: eval(p, fr)}
	}
}

func (p *Path) callClosure(cl *Closure, args []Value, owner *frame) Value {
	if cl == nil {
		p.runtimePanic("invalid memory address or nil pointer dereference")
	}
	if cl.nat != nil {
		return cl.nat(p, args)
	}
	return p.callFn(cl.fn, args, cl.env, owner)
}

func (p *Path) callFn(f *Func, args []Value, env []Value, owner *frame) Value {
	f.once.Do(func() { p.w.e.compile(f) })
	if f.native != nil {
		return f.native(p, args)
	}
	if f.isInit && p.depth > 0 {
		return nil // package initialisers run lazily, see global()
	}
	p.depth++
	if p.depth > p.w.e.maxDepth {
		panic(abortPath{"limit", "call depth exceeded in " + f.name})
	}
	if f.inRepo {
		p.w.fnHit[f.id]++
	}
	fr := frame{f: f, owner: owner}
	fr.regs = make([]Value, f.nregs)
	copy(fr.regs, args)
	copy(fr.regs[f.nparams:], env)
	if !f.hasDefer {
		p.exec(&fr)
	} else {
		d := p.depth
		p.execDefer(&fr)
		p.depth = d
	}
	p.depth--
	return fr.result
}

func (p *Path) exec(fr *frame) {
	bi, prev := fr.start, -1
	f := fr.f
	var tmp [8]Value
	for {
		b := f.blocks[bi]
		if b.gid >= 0 {
			p.w.blkHit[b.gid] = true
		}
		p.steps += int64(b.n)
		if p.steps > p.w.e.maxSteps {
			panic(abortPath{"limit", "step limit exceeded in " + f.name})
		}
		if len(b.phis) > 0 {
			ei := b.pred[prev]
			vals := tmp[:0]
			for i := range b.phis {
				vals = append(vals, b.phis[i].edges[ei].get(p, fr))
			}
			for i := range b.phis {
				fr.regs[b.phis[i].dst] = vals[i]
			}
		}
		for _, in := range b.ins {
			in(p, fr)
		}
		n := b.term(p, fr)
		if n < 0 {
			return
		}
		prev, bi = bi, n
	}
}

func (p *Path) execDefer(fr *frame) {
	depth := p.depth
	func() {
		defer func() {
			if fr.done {
				return
			}
			r := recover()
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r)
			}
			fr.panicking = true
			fr.pv = tp
		}()
		p.exec(fr)
		fr.done = true
	}()
	if !fr.panicking {
		return
	}
	p.depth = depth
	p.runDefers(fr)
	if fr.panicking {
		panic(fr.pv)
	}
	// recovered
	if rb := fr.f.fn.Recover; rb != nil {
		fr.start = rb.Index
		p.exec(fr)
		return
	}
	if fr.f.resT != nil {
		fr.result = zero(fr.f.resT)
	}
}

func (p *Path) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			depth := p.depth
			defer func() {
				if ok {
					return
				}
				r := recover()
				tp, isT := r.(targetPanic)
				if !isT {
					panic(r)
				}
				p.depth = depth
				fr.panicking = true
				fr.pv = tp
			}()
			if d.rec != nil {
				d.rec(p)
			} else {
				p.callClosure(d.fn, d.args, fr)
			}
			ok = true
		}()
	}
	if fr.panicking && !fr.done {
		// if called from RunDefers (normal flow) and a deferred call
		// panicked, propagate
		return
	}
}

func (p *Path) rtErr(msg string) Value {
	return iface{p.w.e.rtErrType, "runtime error: " + msg}
}

func (p *Path) runtimePanic(msg string) {
	panic(targetPanic{p.rtErr(msg)})
}

// index forks on the value of a possibly symbolic index.
func (p *Path) index(v Value, n int) int {
	switch i := v.(type) {
	case int64:
		if i < 0 || i >= int64(n) {
			p.runtimePanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i)
	case *Term:
		f := p.f
		if !p.branch(f.bin(OpUlt, i, f.BV(uint64(n), i.w))) && n <= int(mask(i.w)>>1) {
			p.runtimePanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
		}
		for k := 0; k < n-1; k++ {
			if p.branch(f.Eq(i, f.BV(uint64(k), i.w))) {
				return k
			}
		}
		return n - 1
	}
	panic(fmt.Sprintf("index %T", v))
}

func (p *Path) concInt(v Value) int64 {
	return p.concIntW(v, intKind{64, true})
}

// concIntW enumerates the feasible values of a symbolic integer.
func (p *Path) concIntW(v Value, k intKind) int64 {
	switch i := v.(type) {
	case int64:
		return i
	case *Term:
		for n := 0; n < 64; n++ {
			c := p.pick(i)
			if p.branch(p.f.Eq(i, c)) {
				if k.signed {
					return sx(c.val, k.w)
				}
				return int64(c.val)
			}
		}
		panic(abortPath{"unsupported", "more than 64 values for a concretised integer"})
	}
	panic(fmt.Sprintf("concInt %T", v))
}

func (p *Path) typeAssert(v iface, at types.Type, isI, commaOk bool) Value {
	ok := false
	if v.t != nil {
		if isI {
			ok = p.w.e.implements(v.t, at)
		} else {
			ok = p.w.e.identical(v.t, at)
		}
	}
	var r Value
	if ok {
		if isI {
			r = v
		} else {
			r = v.v
		}
	}
	if commaOk {
		if !ok {
			if isI {
				r = iface{}
			} else {
				r = zero(at)
			}
		}
		return tuple{r, ok}
	}
	if !ok {
		what := "nil"
		if v.t != nil {
			what = v.t.String()
		}
		panic(targetPanic{iface{p.w.e.rtErrType, fmt.Sprintf("interface conversion: interface is %s, not %s", what, at)}})
	}
	return r
}

func (p *Path) next(v Value) Value {
	switch it := v.(type) {
	case *mapIter:
		for it.pos < len(it.order) {
			e := it.order[it.pos]
			it.pos++
			if !e.deleted {
				return tuple{true, e.k, e.v}
			}
		}
		// entries added during iteration may or may not be produced; the
		// model does not produce them
		return tuple{false, nil, nil}
	case *strIter:
		switch s := it.s.(type) {
		case string:
			if it.pos >= len(s) {
				return tuple{false, int64(0), int64(0)}
			}
			r, n := utf8.DecodeRuneInString(s[it.pos:])
			i := it.pos
			it.pos += n
			return tuple{true, int64(i), int64(r)}
		case *SymStr:
			if it.pos >= len(s.slots) || p.branch(p.f.Eq(s.slots[it.pos], p.f.BV(0, 9))) {
				return tuple{false, int64(0), int64(0)}
			}
			b := p.slotByte(s.slots[it.pos])
			t := p.toTerm(b, 8)
			if !p.branch(p.f.bin(OpUlt, t, p.f.BV(0x80, 8))) {
				unsupported("ranging over a symbolic non-ASCII string")
			}
			i := it.pos
			it.pos++
			return tuple{true, int64(i), p.fromTerm(p.f.Zext(t, 32), intKind{32, true})}
		}
	}
	panic(fmt.Sprintf("next %T", v))
}

func byRank(a, b *mapEntry) int { return a.rank - b.rank }

// mapOrder picks the iteration order of a map.
func (p *Path) mapOrder(m *Map) []*mapEntry {
	l := m.live()
	if len(l) < 2 {
		return l
	}
	if !slices.IsSortedFunc(l, byRank) {
		slices.SortFunc(l, byRank)
	}
	switch p.w.run.mapMode {
	case "perm":
		if len(l) <= 3 {
			r := make([]*mapEntry, 0, len(l))
			rest := append([]*mapEntry{}, l...)
			for len(rest) > 1 {
				k := p.choose("maporder", len(rest))
				r = append(r, rest[k])
				rest = append(append([]*mapEntry{}, rest[:k]...), rest[k+1:]...)
			}
			return append(r, rest[0])
		}
		fallthrough
	case "rev":
		rev := p.branch(p.mapRevBit())
		if p.mapRanges++; p.mapRanges > 1 && p.branch(p.mapAltBit()) && p.mapRanges%2 == 0 {
			rev = !rev
		}
		if rev {
			r := make([]*mapEntry, len(l))
			for i, e := range l {
				r[len(l)-1-i] = e
			}
			return r
		}
	}
	return l
}

// global returns the address of a package-level variable, running the
// initialiser of its package first if that has not happened on this path.
func (p *Path) global(g *ssa.Global) Value {
	if a, ok := p.globals[g]; ok {
		return a
	}
	pkg := g.Pkg
	if !p.inited[pkg] {
		p.inited[pkg] = true
		p.initPkg(pkg)
		if a, ok := p.globals[g]; ok {
			return a
		}
	}
	a := new(Value)
	*a = zero(g.Type().Underlying().(*types.Pointer).Elem())
	p.globals[g] = a
	return a
}

func (p *Path) initPkg(pkg *ssa.Package) {
	if p.w.e.noInit[pkg.Pkg.Path()] {
		return
	}
	init := pkg.Func("init")
	if init == nil {
		return
	}
	d, fz := p.depth, p.frozen
	p.depth, p.frozen = 0, nil
	p.callFn(p.w.e.fnOf(init), nil, nil, nil)
	p.depth, p.frozen = d, fz
}

// ---- builtins ----

func (c *comp) builtin(b *ssa.Builtin, cc *ssa.CallCommon) callFn {
	args := make([]opnd, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = c.op(a)
	}
	switch b.Name() {
	case "len":
		return func(p *Path, fr *frame) Value {
			switch x := args[0].get(p, fr).(type) {
			case []Value:
				return int64(len(x))
			case string:
				return int64(len(x))
			case *SymStr:
				return p.strLen(x)
			case *Map:
				if x == nil {
					return int64(0)
				}
				return int64(x.n)
			case array:
				return int64(len(x))
			case *Value:
				return int64(len((*deref(p, x)).(array)))
			case *Chan:
				if x == nil {
					return int64(0)
				}
				return int64(len(x.buf))
			}
			unsupported("len of %T", args[0].get(p, fr))
			return nil
		}
	case "cap":
		return func(p *Path, fr *frame) Value {
			switch x := args[0].get(p, fr).(type) {
			case []Value:
				return int64(cap(x))
			case array:
				return int64(len(x))
			case *Chan:
				if x == nil {
					return int64(0)
				}
				return int64(x.cap)
			}
			unsupported("cap")
			return nil
		}
	case "append":
		st, _ := cc.Args[0].Type().Underlying().(*types.Slice)
		var esz int64 = 1
		if st != nil {
			esz = c.e.sizes.Sizeof(st.Elem())
		}
		return func(p *Path, fr *frame) Value {
			s := args[0].get(p, fr).([]Value)
			if len(args) == 1 {
				return s
			}
			var t []Value
			switch x := args[1].get(p, fr).(type) {
			case []Value:
				t = x
			case string, *SymStr:
				t = p.strBytes(x)
			default:
				unsupported("append of %T", x)
			}
			return p.appendVals(s, t, esz)
		}
	case "copy":
		return func(p *Path, fr *frame) Value {
			d := args[0].get(p, fr).([]Value)
			var t []Value
			switch x := args[1].get(p, fr).(type) {
			case []Value:
				t = x
			default:
				t = p.strBytes(x)
			}
			n := len(d)
			if len(t) < n {
				n = len(t)
			}
			if p.frozen != nil {
				for i := 0; i < n; i++ {
					p.noteStore(&d[i])
				}
			}
			tmp := make([]Value, n)
			for i := range tmp {
				tmp[i] = load(t[i])
			}
			for i := range tmp {
				store(&d[i], tmp[i])
			}
			return int64(n)
		}
	case "close":
		return func(p *Path, fr *frame) Value {
			args[0].get(p, fr).(*Chan).close(p)
			return nil
		}
	case "delete":
		return func(p *Path, fr *frame) Value {
			m := args[0].get(p, fr).(*Map)
			k := args[1].get(p, fr)
			if m != nil {
				p.mapDelete(m, k)
			}
			return nil
		}
	case "clear":
		return func(p *Path, fr *frame) Value {
			switch x := args[0].get(p, fr).(type) {
			case *Map:
				if x != nil {
					p.noteMapWrite(x)
					for _, e := range x.entries {
						e.deleted = true
					}
					x.entries, x.idx, x.n, x.nsym = nil, nil, 0, 0
				}
			case []Value:
				et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
				for i := range x {
					if p.frozen != nil {
						p.noteStore(&x[i])
					}
					store(&x[i], zero(et))
				}
			default:
				unsupported("clear of %T", x)
			}
			return nil
		}
	case "recover":
		return func(p *Path, fr *frame) Value {
			if o := fr.owner; o != nil && o.panicking {
				o.panicking = false
				return o.pv.v
			}
			return iface{}
		}
	case "print", "println":
		return func(p *Path, fr *frame) Value { return nil }
	case "min", "max":
		isMin := b.Name() == "min"
		t := cc.Args[0].Type()
		k, isInt := kindOf(t)
		return func(p *Path, fr *frame) Value {
			r := args[0].get(p, fr)
			for i := 1; i < len(args); i++ {
				v := args[i].get(p, fr)
				switch {
				case isInt:
					lt := OpUlt
					if k.signed {
						lt = OpSlt
					}
					x, y := p.toTerm(r, k.w), p.toTerm(v, k.w)
					if !isMin {
						x, y = y, x
					}
					less := p.f.bin(lt, x, y)
					r = p.fromTerm(p.f.Ite(less, p.toTerm(r, k.w), p.toTerm(v, k.w)), k)
				default:
					unsupported("min/max on %s", t)
				}
			}
			return r
		}
	case "ssa:wrapnilchk":
		return func(p *Path, fr *frame) Value {
			v := args[0].get(p, fr)
			if a, ok := v.(*Value); ok && a == nil {
				p.runtimePanic("value method called using nil pointer")
			}
			return v
		}
	}
	name := b.Name()
	return func(p *Path, fr *frame) Value { unsupported("builtin %s", name); return nil }
}

func (p *Path) appendVals(s, t []Value, esz int64) []Value {
	n := len(s) + len(t)
	if n <= cap(s) {
		r := s[:n]
		if p.frozen != nil {
			for i := len(s); i < n; i++ {
				p.noteStore(&r[i])
			}
		}
		tmp := make([]Value, len(t))
		for i := range t {
			tmp[i] = load(t[i])
		}
		for i := range tmp {
			store(&r[len(s)+i], tmp[i])
		}
		return r
	}
	r := make([]Value, n, growCap(len(s), cap(s), n, esz))
	for i := range s {
		r[i] = load(s[i])
	}
	for i := range t {
		r[len(s)+i] = load(t[i])
	}
	return r
}

type growKey struct {
	l, c, n int
	sz      int64
}

var growCache sync.Map

// growCap asks the Go runtime what capacity append would give a slice of
// elements of that size, so that aliasing between slices that share a
// backing array is the same as in the compiled program.
func growCap(l, c, n int, sz int64) int {
	k := growKey{l, c, n, sz}
	if v, ok := growCache.Load(k); ok {
		return v.(int)
	}
	var et reflect.Type
	switch {
	case sz == 0:
		return n
	case sz%8 == 0:
		et = reflect.ArrayOf(int(sz/8), reflect.TypeOf((*int)(nil)))
	default:
		et = reflect.ArrayOf(int(sz), reflect.TypeOf(byte(0)))
	}
	s := reflect.MakeSlice(reflect.SliceOf(et), l, c)
	t := reflect.MakeSlice(reflect.SliceOf(et), n-l, n-l)
	r := reflect.AppendSlice(s, t).Cap()
	if r < n {
		r = n
	}
	growCache.Store(k, r)
	return r
}
