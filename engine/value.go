package main

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"strings"
)

// Representation of Go values:
//
//	bool            bool | *Term (w 0)
//	integers        int64 (normalised to the type's width) | *Term (w = width)
//	floats          float64
//	string          string | *SymStr
//	struct          structure ([]Value)
//	array           array ([]Value)
//	slice           []Value (Go-native aliasing and capacity)
//	pointer         *Value
//	map             *Map
//	interface       iface
//	func            *Closure
//	chan            *Chan
//	tuple           tuple
type Value = any

type structure []Value
type array []Value
type tuple []Value

type iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *Func
	env []Value
	nat func(p *Path, args []Value) Value
}

// SymStr is a string of symbolic content and length: a sequence of 9-bit
// slots, 0 = past the end, otherwise byte+1; once a slot is 0 all later
// ones are (asserted when the string is introduced).
type SymStr struct {
	slots []*Term
}

type mapEntry struct {
	k, v    Value
	deleted bool
	conc    bool // key fully concrete
	rank    int  // when the key was first seen on the path
}

type Map struct {
	entries []*mapEntry
	idx     map[any]*mapEntry // concrete keys
	nsym    int               // live entries with symbolic keys
	n       int
	kt      types.Type
}

type mapIter struct {
	m     *Map
	order []*mapEntry
	pos   int
}

type strIter struct {
	s   Value
	pos int
}

type abortPath struct {
	kind string // infeasible, unsupported, limit, done
	msg  string
}

type targetPanic struct {
	v Value // iface
}

func unsupported(format string, a ...any) {
	panic(abortPath{"unsupported", fmt.Sprintf(format, a...)})
}

type intKind struct {
	w      uint8
	signed bool
}

func kindOf(t types.Type) (intKind, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intKind{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intKind{64, true}, true
	case types.Int32, types.UntypedRune:
		return intKind{32, true}, true
	case types.Int16:
		return intKind{16, true}, true
	case types.Int8:
		return intKind{8, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intKind{64, false}, true
	case types.Uint32:
		return intKind{32, false}, true
	case types.Uint16:
		return intKind{16, false}, true
	case types.Uint8:
		return intKind{8, false}, true
	}
	return intKind{}, false
}

func (k intKind) norm(x int64) int64 {
	switch k.w {
	case 64:
		return x
	case 32:
		if k.signed {
			return int64(int32(x))
		}
		return int64(uint32(x))
	case 16:
		if k.signed {
			return int64(int16(x))
		}
		return int64(uint16(x))
	case 8:
		if k.signed {
			return int64(int8(x))
		}
		return int64(uint8(x))
	}
	return x
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// zero returns the zero value of t.
func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case u.Kind() == types.UntypedNil:
			return iface{}
		}
		return complex128(0)
	case *types.Struct:
		s := make(structure, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(array, u.Len())
		if u.Len() > 0 {
			z := zero(u.Elem())
			switch z.(type) {
			case structure, array:
				for i := range a {
					a[i] = zero(u.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return []Value(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return iface{}
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Tuple:
		r := make(tuple, u.Len())
		for i := range r {
			r[i] = zero(u.At(i).Type())
		}
		return r
	}
	unsupported("zero of %s", t)
	return nil
}

// load copies a value out of memory.
func load(v Value) Value {
	switch x := v.(type) {
	case structure:
		c := make(structure, len(x))
		for i, e := range x {
			switch e.(type) {
			case structure, array:
				c[i] = load(e)
			default:
				c[i] = e
			}
		}
		return c
	case array:
		c := make(array, len(x))
		for i, e := range x {
			switch e.(type) {
			case structure, array:
				c[i] = load(e)
			default:
				c[i] = e
			}
		}
		return c
	}
	return v
}

// store writes v into memory in place, keeping the addresses of
// sub-objects.
func store(addr *Value, v Value) {
	switch x := v.(type) {
	case structure:
		d, ok := (*addr).(structure)
		if !ok || len(d) != len(x) {
			*addr = load(x)
			return
		}
		for i := range x {
			switch x[i].(type) {
			case structure, array:
				store(&d[i], x[i])
			default:
				d[i] = x[i]
			}
		}
	case array:
		d, ok := (*addr).(array)
		if !ok || len(d) != len(x) {
			*addr = load(x)
			return
		}
		for i := range x {
			switch x[i].(type) {
			case structure, array:
				store(&d[i], x[i])
			default:
				d[i] = x[i]
			}
		}
	default:
		*addr = v
	}
}

// ---- strings ----

func (p *Path) slotsOf(v Value) []*Term {
	switch s := v.(type) {
	case string:
		r := make([]*Term, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = p.f.BV(uint64(s[i])+1, 9)
		}
		return r
	case *SymStr:
		return s.slots
	}
	panic(fmt.Sprintf("slotsOf %T", v))
}

// pack joins up to 7 slots into one bit vector (63 bits).
func (p *Path) pack(s []*Term) *Term {
	t := s[0]
	for _, x := range s[1:] {
		t = p.f.Concat(t, x)
	}
	return t
}

func (p *Path) padded(a, b Value) ([]*Term, []*Term) {
	x, y := p.slotsOf(a), p.slotsOf(b)
	z := p.f.BV(0, 9)
	n := len(x)
	if len(y) > n {
		n = len(y)
	}
	pad := func(s []*Term) []*Term {
		if len(s) == n {
			return s
		}
		r := make([]*Term, n)
		copy(r, s)
		for i := len(s); i < n; i++ {
			r[i] = z
		}
		return r
	}
	return pad(x), pad(y)
}

func (p *Path) strEq(a, b Value) *Term {
	x, y := p.padded(a, b)
	r := p.f.True
	for i := 0; i < len(x); i += 7 {
		j := i + 7
		if j > len(x) {
			j = len(x)
		}
		r = p.f.And(r, p.f.Eq(p.pack(x[i:j]), p.pack(y[i:j])))
	}
	return r
}

func (p *Path) strLt(a, b Value) *Term {
	x, y := p.padded(a, b)
	r := p.f.False
	n := (len(x) + 6) / 7
	for c := n - 1; c >= 0; c-- {
		i, j := c*7, c*7+7
		if j > len(x) {
			j = len(x)
		}
		px, py := p.pack(x[i:j]), p.pack(y[i:j])
		r = p.f.Or(p.f.bin(OpUlt, px, py), p.f.And(p.f.Eq(px, py), r))
	}
	return r
}

func (p *Path) strLen(v Value) Value {
	switch s := v.(type) {
	case string:
		return int64(len(s))
	case *SymStr:
		z := p.f.BV(0, 9)
		t := p.f.BV(uint64(len(s.slots)), 64)
		for i := len(s.slots) - 1; i >= 0; i-- {
			t = p.f.Ite(p.f.Eq(s.slots[i], z), p.f.BV(uint64(i), 64), t)
		}
		return p.fromTerm(t, intKind{64, true})
	}
	panic(fmt.Sprintf("strLen %T", v))
}

// fixLen forks on the length of a symbolic string and returns its bytes
// (values int64 or BV8 terms).
func (p *Path) strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = int64(s[i])
		}
		return r
	case *SymStr:
		z := p.f.BV(0, 9)
		n := len(s.slots)
		for i := range s.slots {
			if p.branch(p.f.Eq(s.slots[i], z)) {
				n = i
				break
			}
		}
		r := make([]Value, n)
		for i := range r {
			r[i] = p.slotByte(s.slots[i])
		}
		return r
	}
	panic(fmt.Sprintf("strBytes %T", v))
}

func (p *Path) slotByte(s *Term) Value {
	b := p.f.Extract(p.f.bin(OpSub, s, p.f.BV(1, 9)), 7, 0)
	return p.fromTerm(b, intKind{8, false})
}

// bytesStr builds a string from byte cells.
func (p *Path) bytesStr(b []Value) Value {
	conc := true
	for _, x := range b {
		switch x.(type) {
		case int64:
		case *Term:
			conc = false
		default:
			unsupported("byte cell %T", x)
		}
	}
	if conc {
		var sb strings.Builder
		for _, x := range b {
			sb.WriteByte(byte(x.(int64)))
		}
		return sb.String()
	}
	r := &SymStr{slots: make([]*Term, len(b))}
	for i, x := range b {
		t := p.toTerm(x, 8)
		if t.op == OpExtract && t.a.op == OpAdd && t.val == 7<<8 && t.a.b.isConst() && t.a.b.val == 511 {
			r.slots[i] = t.a.a // undo slotByte (the slot is known non-zero on this path)
			continue
		}
		r.slots[i] = p.f.bin(OpAdd, p.f.Zext(t, 9), p.f.BV(1, 9))
	}
	return r
}

func (p *Path) concat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	ba := p.strBytes(a)
	left := p.bytesStr(ba)
	ls := p.slotsOf(left)
	rs := p.slotsOf(b)
	if len(rs) == 0 {
		return left
	}
	r := &SymStr{slots: append(append([]*Term{}, ls...), rs...)}
	return p.simplStr(r)
}

func (p *Path) simplStr(s *SymStr) Value {
	conc := make([]byte, 0, len(s.slots))
	for i, t := range s.slots {
		if !t.isConst() {
			return s
		}
		if t.val == 0 {
			_ = i
			break
		}
		conc = append(conc, byte(t.val-1))
	}
	return string(conc)
}

// ---- scalars ----

func (p *Path) toTerm(v Value, w uint8) *Term {
	switch x := v.(type) {
	case *Term:
		if x.w != w {
			panic(fmt.Sprintf("toTerm: width %d, want %d", x.w, w))
		}
		return x
	case int64:
		return p.f.BV(uint64(x), w)
	case bool:
		return p.f.Bool(x)
	}
	panic(fmt.Sprintf("toTerm %T", v))
}

func (p *Path) fromTerm(t *Term, k intKind) Value {
	if t.isConst() {
		if t.w == 0 {
			return t.val != 0
		}
		if k.signed {
			return sx(t.val, k.w)
		}
		return int64(t.val)
	}
	return t
}

func (p *Path) fromBool(t *Term) Value {
	if t.isConst() {
		return t.val != 0
	}
	return t
}

func (p *Path) truth(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return p.branch(x)
	}
	panic(fmt.Sprintf("truth %T", v))
}

func (p *Path) boolTerm(v Value) *Term { return p.toTerm(v, 0) }

// equal implements == for values of static type t.
func (p *Path) equal(t types.Type, x, y Value) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if a, ok := x.(string); ok {
				if b, ok := y.(string); ok {
					return p.f.Bool(a == b)
				}
			}
			return p.strEq(x, y)
		case u.Info()&types.IsInteger != 0:
			if a, ok := x.(int64); ok {
				if b, ok := y.(int64); ok {
					return p.f.Bool(a == b)
				}
			}
			k, _ := kindOf(t)
			return p.f.Eq(p.toTerm(x, k.w), p.toTerm(y, k.w))
		case u.Info()&types.IsBoolean != 0:
			return p.f.Eq(p.boolTerm(x), p.boolTerm(y))
		case u.Kind() == types.UnsafePointer:
			return p.f.Bool(x == y)
		}
		return p.f.Bool(x == y)
	case *types.Struct:
		a, b := x.(structure), y.(structure)
		r := p.f.True
		for i := range a {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = p.f.And(r, p.equal(u.Field(i).Type(), a[i], b[i]))
		}
		return r
	case *types.Array:
		a, b := x.(array), y.(array)
		r := p.f.True
		for i := range a {
			r = p.f.And(r, p.equal(u.Elem(), a[i], b[i]))
		}
		return r
	case *types.Interface:
		a, aok := x.(iface)
		b, bok := y.(iface)
		if !aok || !bok {
			unsupported("interface comparison with %T/%T", x, y)
		}
		if a.t == nil || b.t == nil {
			return p.f.Bool(a.t == nil && b.t == nil)
		}
		if !p.w.e.identical(a.t, b.t) {
			return p.f.False
		}
		if !types.Comparable(a.t) {
			p.runtimePanic("comparing uncomparable type " + a.t.String())
		}
		return p.equal(a.t, a.v, b.v)
	case *types.Pointer:
		return p.f.Bool(x.(*Value) == y.(*Value))
	case *types.Map:
		return p.f.Bool(x.(*Map) == y.(*Map))
	case *types.Chan:
		return p.f.Bool(x.(*Chan) == y.(*Chan))
	case *types.Signature:
		return p.f.Bool(x.(*Closure) == y.(*Closure))
	case *types.Slice:
		// only comparisons with nil are legal
		return p.f.Bool(x.([]Value) == nil && y.([]Value) == nil)
	}
	unsupported("equality on %s", t)
	return nil
}

// ---- maps ----

type ifaceKey struct {
	t int
	v any
}

// ckey returns a Go-comparable canonical form of a key, or ok=false if the
// key has symbolic parts.
func (p *Path) ckey(t types.Type, v Value) (any, bool) {
	switch x := v.(type) {
	case *Term:
		return nil, false
	case *SymStr:
		return nil, false
	case iface:
		if x.t == nil {
			return ifaceKey{-1, nil}, true
		}
		if !types.Comparable(x.t) {
			p.runtimePanic("hash of unhashable type " + x.t.String())
		}
		k, ok := p.ckey(x.t, x.v)
		if !ok {
			return nil, false
		}
		return ifaceKey{p.w.e.typeID(x.t), k}, true
	case structure:
		u := t.Underlying().(*types.Struct)
		if len(x) > 6 {
			unsupported("map key struct with %d fields", len(x))
		}
		var r [7]any
		r[6] = len(x)
		okAll := true
		for i := range x {
			k, ok := p.ckey(u.Field(i).Type(), x[i])
			if !ok {
				okAll = false
				continue
			}
			r[i] = k
		}
		if !okAll {
			return nil, false
		}
		return r, true
	case array:
		u := t.Underlying().(*types.Array)
		if len(x) > 6 {
			unsupported("map key array with %d elements", len(x))
		}
		var r [8]any
		r[7] = len(x)
		for i := range x {
			k, ok := p.ckey(u.Elem(), x[i])
			if !ok {
				return nil, false
			}
			r[i] = k
		}
		return r, true
	case float64:
		if x != x {
			unsupported("NaN map key")
		}
	}
	return v, true
}

// mapFind returns the live entry whose key equals k, forking over the
// possibilities.
func (p *Path) mapFind(m *Map, k Value) *mapEntry {
	ck, conc := p.ckey(m.kt, k)
	if m.n == 0 {
		return nil
	}
	if conc {
		if e := m.idx[ck]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.entries {
		if e.deleted || (conc && e.conc) {
			continue
		}
		if p.branch(p.equal(m.kt, k, e.k)) {
			return e
		}
	}
	return nil
}

func (p *Path) mapSet(m *Map, k, v Value) {
	if e := p.mapFind(m, k); e != nil {
		p.noteMapWrite(m)
		e.v = v
		return
	}
	p.noteMapWrite(m)
	e := &mapEntry{k: k, v: v}
	ck, conc := p.ckey(m.kt, k)
	e.conc = conc
	e.rank = p.keyRank(k, ck, conc)
	if conc {
		if m.idx == nil {
			m.idx = make(map[any]*mapEntry)
		}
		m.idx[ck] = e
	} else {
		m.nsym++
	}
	m.entries = append(m.entries, e)
	m.n++
}

// keyRank is the number of different keys inserted into any map before the
// key was. Maps are iterated in this order or its reverse, so copying a map
// in a loop does not undo the reversal.
func (p *Path) keyRank(k, ck Value, conc bool) int {
	if !conc {
		if x, ok := k.(iface); ok {
			k = x.v
		}
		switch x := k.(type) {
		case *Term:
			ck = x
		case *SymStr:
			b := make([]byte, 0, 4*len(x.slots))
			for _, t := range x.slots {
				b = binary.LittleEndian.AppendUint32(b, uint32(t.id))
			}
			ck = symKey(b)
		default:
			ck = new(byte)
		}
	}
	r, ok := p.ranks[ck]
	if !ok {
		if p.ranks == nil {
			p.ranks = map[any]int{}
		}
		r = len(p.ranks)
		p.ranks[ck] = r
	}
	return r
}

type symKey string

func (p *Path) mapDelete(m *Map, k Value) {
	e := p.mapFind(m, k)
	if e == nil {
		return
	}
	p.noteMapWrite(m)
	e.deleted = true
	m.n--
	if e.conc {
		ck, _ := p.ckey(m.kt, e.k)
		delete(m.idx, ck)
	} else {
		m.nsym--
	}
	// compact
	if len(m.entries) > 8 && m.n*2 < len(m.entries) {
		var l []*mapEntry
		for _, x := range m.entries {
			if !x.deleted {
				l = append(l, x)
			}
		}
		m.entries = l
	}
}

func (m *Map) live() []*mapEntry {
	if m == nil {
		return nil
	}
	r := make([]*mapEntry, 0, m.n)
	for _, e := range m.entries {
		if !e.deleted {
			r = append(r, e)
		}
	}
	return r
}

func newMap(kt types.Type) *Map { return &Map{kt: kt} }
