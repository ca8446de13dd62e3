package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

func sgn(x int) int { return zz.Ite(x < 0, -1, zz.Ite(x > 0, 1, 0)) }

// One comparison against the reference order, all pairs of kinds.
//
//sym:quick l=2 s=2
//sym:thorough l=3 s=3
func H_C10_pair() {
	ka := zz.Choose("a.kind", nKinds)
	kb := zz.Choose("b.kind", nKinds)
	a, ma := symValue("a", ka, zz.Param("l"), zz.Param("s"))
	b, mb := symValue("b", kb, zz.Param("l"), zz.Param("s"))
	want, ok := mcmp(ma, mb)
	if zz.IteB(ok, true, false) {
		c := lpg.ComparePropertyValue(a, b)
		zz.Assert(sgn(c) == want, "order")
		d := lpg.ComparePropertyValue(b, a)
		zz.Assert(sgn(d) == -want, "antisymmetric")
		zz.Cover("comparable")
	} else {
		zz.Assert(zz.Panics(func() { lpg.ComparePropertyValue(a, b) }), "incomparable values panic")
		zz.Cover("incomparable")
	}
}

// A list of integers and a list of strings are of different kinds.
//
//sym:both l=2 s=1
func H_C10_typed() {
	a, _ := symValue("a", kInts, zz.Param("l"), zz.Param("s"))
	b, _ := symValue("b", kStrings, zz.Param("l"), zz.Param("s"))
	zz.Assert(zz.Panics(func() { lpg.ComparePropertyValue(a, b) }), "integer list with string list panics")
	zz.Assert(zz.Panics(func() { lpg.ComparePropertyValue(b, a) }), "string list with integer list panics")
}

// Transitivity and reflexivity on triples of comparable values.
//
//sym:quick l=2 s=2
//sym:thorough l=3 s=2
func H_C10_triple() {
	l, s := zz.Param("l"), zz.Param("s")
	fams := [][]int{{kInt, kNativeInt, kNativeNative}, {kString, kNativeString}, {kInts, kNativeInts}, {kStrings}}
	f := fams[zz.Choose("family", len(fams))]
	a, _ := symValue("a", f[zz.Choose("a.kind", len(f))], l, s)
	b, _ := symValue("b", f[zz.Choose("b.kind", len(f))], l, s)
	c, _ := symValue("c", f[zz.Choose("c.kind", len(f))], l, s)
	ab, bc, ac := sgn(lpg.ComparePropertyValue(a, b)), sgn(lpg.ComparePropertyValue(b, c)), sgn(lpg.ComparePropertyValue(a, c))
	zz.Assert(lpg.ComparePropertyValue(a, a) == 0, "reflexive")
	zz.Assert(zz.Implies(zz.And(ab <= 0, bc <= 0), ac <= 0), "transitive")
	zz.Assert(zz.Implies(zz.And(ab == 0, bc == 0), ac == 0), "equality is transitive")
	zz.Assert(zz.Implies(zz.And(ab <= 0, bc < 0), ac < 0), "strictly transitive")
}

// Values of unsupported or unrelated types never compare.
//
//sym:both
func H_C10_unsupported() {
	vals := []any{1, "a", []int{1}, []string{"a"}, []any{1}, true, 1.5, nil, map[string]any{}}
	i := zz.Choose("a", len(vals))
	j := zz.Choose("b", len(vals))
	zz.Assume(i != j || i >= 5)
	// a generic list compares with a typed list
	zz.Assume(!(i == 4 && (j == 2 || j == 3)) && !(j == 4 && (i == 2 || i == 3)))
	zz.Assert(zz.Panics(func() { lpg.ComparePropertyValue(vals[i], vals[j]) }), "unrelated types panic")
	zz.Assert(zz.Panics(func() { lpg.ComparePropertyValue(native{vals[i]}, vals[j]) }), "unrelated native types panic")
}

// Longer lists and strings that agree except in one place.
//
//sym:quick l=6 s=5
//sym:thorough l=10 s=8
func H_C10_long() {
	l := zz.Param("l")
	a, b := []int{}, []int{}
	as, bs := []string{}, []string{}
	aa, ba := []any{}, []any{}
	at := zz.Choose("at", l)
	x, y := zz.AnyInt("x"), zz.AnyInt("y")
	sx, sy := zz.StringIn("sx", zz.Param("s"), 'a', 'z'), zz.StringIn("sy", zz.Param("s"), 'a', 'z')
	for i := 0; i < l; i++ {
		if i == at {
			a, b = append(a, x), append(b, y)
			as, bs = append(as, sx), append(bs, sy)
			continue
		}
		a, b = append(a, i), append(b, i)
		as, bs = append(as, letter(i)), append(bs, letter(i))
	}
	cut := zz.Choose("cut", l-at)
	b, bs = b[:l-cut], bs[:l-cut]
	want := zz.Ite(x < y, -1, zz.Ite(x > y, 1, zz.B2i(cut > 0)))
	wants := zz.Ite(sx < sy, -1, zz.Ite(sx > sy, 1, zz.B2i(cut > 0)))
	for i := range a {
		aa = append(aa, a[i])
	}
	for i := range bs {
		ba = append(ba, bs[i])
	}
	zz.Assert(sgn(lpg.ComparePropertyValue(a, b)) == want, "integers")
	zz.Assert(sgn(lpg.ComparePropertyValue(b, a)) == -want, "integers")
	zz.Assert(sgn(lpg.ComparePropertyValue(as, bs)) == wants, "strings")
	zz.Assert(sgn(lpg.ComparePropertyValue(bs, as)) == -wants, "strings")
	zz.Assert(sgn(lpg.ComparePropertyValue(aa, b)) == want, "list and integers")
	zz.Assert(sgn(lpg.ComparePropertyValue(b, aa)) == -want, "integers and list")
	zz.Assert(sgn(lpg.ComparePropertyValue(as, ba)) == wants, "strings and list")
	zz.Assert(sgn(lpg.ComparePropertyValue(ba, native{as})) == -wants, "list and strings")
}
