package zzverif

import (
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

// Model of property values.

type mval struct {
	kind int // 0 int, 1 string, 2 list, or kindNil
	i    int
	s    string
	l    []mval
	elem int // element type of a typed list: 1 int, 2 string
}

const kindNil = 3

// symNilable is nil or a symbolic integer.
func symNilable(name string) (any, mval) {
	if zz.Choose(name+".nil", 2) == 1 {
		return nil, mval{kind: kindNil}
	}
	return symScalar(name, false, 0)
}

// native is a value with a native value.
type native struct{ v any }

func (n native) GetNativeValue() any { return n.v }

// value kinds for symValue
const (
	kInt = iota
	kString
	kInts
	kStrings
	kAnys // []any of ints and strings
	kNativeInt
	kNativeString
	kNativeInts
	kNativeNative
	kNested // []any holding lists
	nKinds
)

func symScalar(name string, str bool, smax int) (any, mval) {
	if str {
		s := zz.StringIn(name, smax, 'a', 'z')
		return s, mval{kind: 1, s: s}
	}
	i := zz.AnyInt(name)
	return i, mval{kind: 0, i: i}
}

// symValue is a symbolic value of the given kind with lists of at most
// lmax elements and strings of at most smax bytes.
func symValue(name string, kind, lmax, smax int) (any, mval) {
	switch kind {
	case kInt:
		return symScalar(name, false, smax)
	case kString:
		return symScalar(name, true, smax)
	case kNativeInt:
		v, m := symScalar(name, false, smax)
		return native{v}, m
	case kNativeString:
		v, m := symScalar(name, true, smax)
		return native{v}, m
	case kNativeNative:
		v, m := symScalar(name, false, smax)
		return native{native{v}}, m
	case kNativeInts:
		v, m := symValue(name, kInts, lmax, smax)
		return native{v}, m
	}
	n := zz.Choose(name+".len", lmax+1)
	m := mval{kind: 2}
	switch kind {
	case kInts:
		m.elem = 1
		r := []int{}
		for i := 0; i < n; i++ {
			v, x := symScalar(name, false, smax)
			r = append(r, v.(int))
			m.l = append(m.l, x)
		}
		return r, m
	case kStrings:
		m.elem = 2
		r := []string{}
		for i := 0; i < n; i++ {
			v, x := symScalar(name, true, smax)
			r = append(r, v.(string))
			m.l = append(m.l, x)
		}
		return r, m
	case kNested:
		r := []any{}
		for i := 0; i < n; i++ {
			v, x := symValue(name, kInts+zz.Choose(name+".elem", 2), 1, smax)
			r = append(r, v)
			m.l = append(m.l, x)
		}
		return r, m
	}
	r := []any{}
	for i := 0; i < n; i++ {
		v, x := symScalar(name, zz.Choose(name+".elem", 2) == 1, smax)
		r = append(r, v)
		m.l = append(m.l, x)
	}
	return r, m
}

func sign(lt, eq bool) int { return zz.Ite(eq, 0, zz.Ite(lt, -1, 1)) }

// mcmp is the reference order: the sign of the comparison, and whether the
// values are comparable at all. Lists are compared element by element up to
// the first difference, then by length; a list of integers and a list of
// strings are different kinds.
func mcmp(a, b mval) (int, bool) {
	if a.kind != b.kind {
		return 0, false
	}
	switch a.kind {
	case 0:
		return sign(a.i < b.i, a.i == b.i), true
	case 1:
		return sign(a.s < b.s, a.s == b.s), true
	}
	if a.elem != 0 && b.elem != 0 && a.elem != b.elem {
		return 0, false
	}
	n := len(a.l)
	if len(b.l) < n {
		n = len(b.l)
	}
	r := sign(len(a.l) < len(b.l), len(a.l) == len(b.l))
	ok := true
	for i := n - 1; i >= 0; i-- {
		c, o := mcmp(a.l[i], b.l[i])
		r = zz.Ite(c != 0, c, r)
		ok = zz.And(o, zz.Or(c != 0, ok))
		if !o {
			r = 0
		}
	}
	return r, ok
}

// meq: comparable and equal.
func meq(a, b mval) bool {
	c, ok := mcmp(a, b)
	return zz.And(ok, c == 0)
}
