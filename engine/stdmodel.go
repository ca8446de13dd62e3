package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of further library functions: sync, sync/atomic, maps, strconv
// quoting, error wrapping and reflect.DeepEqual. The engine runs one
// goroutine, so locks are no-ops; atomic operations are exempt from the
// frozen-heap check because they synchronise.

func init() {
	for _, t := range []struct {
		n string
		k intKind
	}{{"Int32", intKind{32, true}}, {"Int64", intKind{64, true}}, {"Uint32", intKind{32, false}}, {"Uint64", intKind{64, false}}, {"Uintptr", intKind{64, false}}} {
		k := t.k
		libFns["sync/atomic.Load"+t.n] = func(p *Path, a []Value) Value { return load(*deref(p, a[0])) }
		libFns["sync/atomic.Store"+t.n] = func(p *Path, a []Value) Value { store(deref(p, a[0]), a[1]); return nil }
		libFns["sync/atomic.Swap"+t.n] = func(p *Path, a []Value) Value {
			c := deref(p, a[0])
			old := load(*c)
			store(c, a[1])
			return old
		}
		libFns["sync/atomic.Add"+t.n] = func(p *Path, a []Value) Value {
			c := deref(p, a[0])
			r := p.fromTerm(p.f.bin(OpAdd, p.toTerm(load(*c), k.w), p.toTerm(a[1], k.w)), k)
			store(c, r)
			return r
		}
		libFns["sync/atomic.CompareAndSwap"+t.n] = func(p *Path, a []Value) Value {
			c := deref(p, a[0])
			if p.branch(p.f.Eq(p.toTerm(load(*c), k.w), p.toTerm(a[1], k.w))) {
				store(c, a[2])
				return true
			}
			return false
		}
	}
	libFns["maps.clone"] = func(p *Path, a []Value) Value {
		x := a[0].(iface)
		m, ok := x.v.(*Map)
		if !ok || m == nil {
			return x
		}
		c := newMap(m.kt)
		for _, e := range m.live() {
			n := &mapEntry{k: e.k, v: load(e.v), conc: e.conc, rank: e.rank}
			if e.conc {
				if c.idx == nil {
					c.idx = map[any]*mapEntry{}
				}
				ck, _ := p.ckey(m.kt, e.k)
				c.idx[ck] = n
			} else {
				c.nsym++
			}
			c.entries = append(c.entries, n)
			c.n++
		}
		return iface{x.t, c}
	}
	libFns["strconv.Quote"] = func(p *Path, a []Value) Value { return p.quoteIf(a[0], 'q') }
	libFns["strconv.AppendQuote"] = func(p *Path, a []Value) Value {
		return p.appendVals(a[0].([]Value), p.strBytes(p.quoteIf(a[1], 'q')), 1)
	}
	libFns["fmt.Errorf"] = func(p *Path, a []Value) Value {
		f := p.mustStr(a[0], "format")
		args := a[1].([]Value)
		msg := p.sprintf(strings.ReplaceAll(f, "%w", "%v"), args)
		if strings.Count(f, "%w") != 1 || p.w.e.wrapErrPtr == nil {
			return errIface(p, msg)
		}
		n := 0
		for i := 0; i+1 < len(f); i++ {
			if f[i] != '%' {
				continue
			}
			i++
			if f[i] == 'w' {
				break
			}
			if f[i] != '%' {
				n++
			}
		}
		if n >= len(args) {
			return errIface(p, msg)
		}
		cell := new(Value)
		*cell = structure{msg, args[n]}
		return iface{p.w.e.wrapErrPtr, cell}
	}
	libFns["errors.Is"] = func(p *Path, a []Value) Value {
		err, target := a[0].(iface), a[1].(iface)
		for depth := 0; depth < 20; depth++ {
			if err.t == nil || target.t == nil {
				return err.t == nil && target.t == nil
			}
			if types.Comparable(target.t) && p.branch(p.equal(p.w.e.errIface, err, target)) {
				return true
			}
			if p.methodOf(err.t, "Is") != nil {
				unsupported("errors.Is with an Is method")
			}
			u := p.methodOf(err.t, "Unwrap")
			if u == nil {
				return false
			}
			r, ok := p.callFn(u, []Value{err.v}, nil, nil).(iface)
			if !ok {
				unsupported("errors.Is with a list of errors")
			}
			err = r
		}
		unsupported("a long chain of errors")
		return nil
	}
	libFns["errors.Unwrap"] = func(p *Path, a []Value) Value {
		err := a[0].(iface)
		if err.t == nil {
			return iface{}
		}
		if u := p.methodOf(err.t, "Unwrap"); u != nil {
			if r, ok := p.callFn(u, []Value{err.v}, nil, nil).(iface); ok {
				return r
			}
		}
		return iface{}
	}
	libFns["errors.As"] = func(p *Path, a []Value) Value {
		err, target := a[0].(iface), a[1].(iface)
		pt, ok := target.t.(*types.Pointer)
		if !ok {
			p.runtimePanic("errors: target must be a non-nil pointer")
		}
		for depth := 0; depth < 20; depth++ {
			if err.t == nil {
				return false
			}
			it, isI := pt.Elem().Underlying().(*types.Interface)
			switch {
			case isI && types.Implements(err.t, it):
				store(target.v.(*Value), err)
				return true
			case !isI && p.w.e.identical(err.t, pt.Elem()):
				store(target.v.(*Value), err.v)
				return true
			}
			if p.methodOf(err.t, "As") != nil {
				unsupported("errors.As with an As method")
			}
			u := p.methodOf(err.t, "Unwrap")
			if u == nil {
				return false
			}
			r, ok := p.callFn(u, []Value{err.v}, nil, nil).(iface)
			if !ok {
				unsupported("errors.As with a list of errors")
			}
			err = r
		}
		unsupported("a long chain of errors")
		return nil
	}
	libFns["reflect.DeepEqual"] = func(p *Path, a []Value) Value {
		x, y := a[0].(iface), a[1].(iface)
		return p.fromBool(p.deepEqual(p.w.e.errIface, x, y, 0))
	}
	libFns["sort.SliceIsSorted"] = func(p *Path, a []Value) Value {
		s, ok := a[0].(iface).v.([]Value)
		if !ok {
			unsupported("sort.SliceIsSorted of %T", a[0].(iface).v)
		}
		for i := len(s) - 1; i > 0; i-- {
			if p.truth(p.callClosure(a[1].(*Closure), []Value{int64(i), int64(i - 1)}, nil)) {
				return false
			}
		}
		return true
	}
	libFns["(*sync.Once).Do"] = func(p *Path, a []Value) Value {
		c := deref(p, a[0])
		if p.onces[c] {
			return nil
		}
		if p.onces == nil {
			p.onces = map[*Value]bool{}
		}
		p.onces[c] = true
		p.callClosure(a[1].(*Closure), nil, nil)
		return nil
	}
	libFns["(*sync.Pool).Put"] = func(p *Path, a []Value) Value { return nil }
	libFns["(*sync.Pool).Get"] = func(p *Path, a []Value) Value {
		s := (*deref(p, a[0])).(structure)
		if cl, ok := s[len(s)-1].(*Closure); ok && cl != nil {
			return p.callClosure(cl, nil, nil)
		}
		return iface{}
	}
	libFns["(*sync/atomic.Value).Load"] = func(p *Path, a []Value) Value {
		return load((*deref(p, a[0])).(structure)[0])
	}
	libFns["(*sync/atomic.Value).Store"] = func(p *Path, a []Value) Value {
		(*deref(p, a[0])).(structure)[0] = a[1]
		return nil
	}
}

// stdIntrinsic covers generic and method families.
func stdIntrinsic(fn *ssa.Function, name string) natFn {
	if strings.HasPrefix(name, "(*sync.Mutex).") || strings.HasPrefix(name, "(*sync.RWMutex).") {
		switch fn.Name() {
		case "Lock", "Unlock", "RLock", "RUnlock":
			return func(p *Path, args []Value) Value { return nil }
		case "TryLock", "TryRLock":
			return func(p *Path, args []Value) Value { return true }
		}
	}
	if strings.HasPrefix(name, "(*sync/atomic.Pointer[") {
		cell := func(p *Path, a Value) *Value {
			s := (*deref(p, a)).(structure)
			c := &s[len(s)-1]
			if _, ok := (*c).(*Value); !ok {
				*c = (*Value)(nil)
			}
			return c
		}
		switch fn.Name() {
		case "Load":
			return func(p *Path, a []Value) Value { return *cell(p, a[0]) }
		case "Store":
			return func(p *Path, a []Value) Value { *cell(p, a[0]) = a[1]; return nil }
		case "Swap":
			return func(p *Path, a []Value) Value { c := cell(p, a[0]); o := *c; *c = a[1]; return o }
		case "CompareAndSwap":
			return func(p *Path, a []Value) Value {
				c := cell(p, a[0])
				if (*c).(*Value) == a[1].(*Value) {
					*c = a[2]
					return true
				}
				return false
			}
		}
	}
	return nil
}

func (p *Path) methodOf(t types.Type, name string) *Func {
	sel := types.NewMethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return p.w.method(t, sel.Obj().(*types.Func))
}

func (p *Path) deepEqual(t types.Type, x, y Value, depth int) *Term {
	if depth > 20 {
		unsupported("reflect.DeepEqual on a deep value")
	}
	f := p.f
	switch u := t.Underlying().(type) {
	case *types.Interface:
		a, b := x.(iface), y.(iface)
		if a.t == nil || b.t == nil {
			return f.Bool(a.t == nil && b.t == nil)
		}
		if !p.w.e.identical(a.t, b.t) {
			return f.False
		}
		return p.deepEqual(a.t, a.v, b.v, depth+1)
	case *types.Slice:
		a, b := x.([]Value), y.([]Value)
		if len(a) != len(b) || (a == nil) != (b == nil) {
			return f.False
		}
		r := f.True
		for i := range a {
			r = f.And(r, p.deepEqual(u.Elem(), load(a[i]), load(b[i]), depth+1))
		}
		return r
	case *types.Array:
		a, b := x.(array), y.(array)
		r := f.True
		for i := range a {
			r = f.And(r, p.deepEqual(u.Elem(), a[i], b[i], depth+1))
		}
		return r
	case *types.Struct:
		a, b := x.(structure), y.(structure)
		r := f.True
		for i := range a {
			r = f.And(r, p.deepEqual(u.Field(i).Type(), a[i], b[i], depth+1))
		}
		return r
	case *types.Pointer:
		a, b := x.(*Value), y.(*Value)
		if a == b {
			return f.True
		}
		if a == nil || b == nil {
			return f.False
		}
		return p.deepEqual(u.Elem(), load(*a), load(*b), depth+1)
	case *types.Map:
		a, b := x.(*Map), y.(*Map)
		if (a == nil) != (b == nil) {
			return f.False
		}
		if a == nil || a == b {
			return f.True
		}
		if a.n != b.n {
			return f.False
		}
		r := f.True
		for _, e := range a.live() {
			o := p.mapFind(b, e.k)
			if o == nil {
				return f.False
			}
			r = f.And(r, p.deepEqual(u.Elem(), load(e.v), load(o.v), depth+1))
		}
		return r
	case *types.Signature:
		return f.Bool(x.(*Closure) == nil && y.(*Closure) == nil)
	}
	return p.equal(t, x, y)
}

// quoteByte is the quoted form of an ASCII byte in strconv.Quote.
func (p *Path) quoteByte(b Value) []Value {
	t := p.toTerm(b, 8)
	f := p.f
	if p.branch(f.Or(f.Eq(t, f.BV('"', 8)), f.Eq(t, f.BV('\\', 8)))) {
		return []Value{int64('\\'), b}
	}
	if !p.branch(f.Or(f.bin(OpUlt, t, f.BV(0x20, 8)), f.bin(OpUlt, f.BV(0x7e, 8), t))) {
		return []Value{b}
	}
	c := byte(p.concIntW(b, intKind{8, false}))
	if c >= 0x80 {
		unsupported("quoting symbolic bytes outside ASCII")
	}
	q := strconv.Quote(string(rune(c)))
	return p.strBytes(q[1 : len(q)-1])
}
