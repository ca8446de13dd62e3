package zzverif

import (
	"encoding/json"

	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

// The model of a set: the additions and removals so far; a string is a
// member iff the last event naming it is an addition.
type mEvent struct {
	s   string
	add bool
}

type mSet struct {
	s  lpg.StringSet
	ev []mEvent
}

func (m *mSet) has(s string) bool {
	r := false
	for _, e := range m.ev {
		r = zz.IteB(e.s == s, e.add, r)
	}
	return r
}

func (m *mSet) mentions() []string {
	var r []string
	for _, e := range m.ev {
		r = append(r, e.s)
	}
	return r
}

func member(name string) string { return zz.StringIn(name, 1, 'a', 'd') }

func members(name string, max int) []string {
	var r []string
	for n := zz.Choose(name+".n", max+1); n > 0; n-- {
		r = append(r, member(name))
	}
	return r
}

// isList asserts that l holds exactly the members, each once.
func (m *mSet) isList(l []string, id string) {
	ok := true
	for i, x := range l {
		ok = zz.And(ok, m.has(x))
		for _, y := range l[:i] {
			ok = zz.And(ok, x != y)
		}
	}
	for _, x := range m.mentions() {
		ok = zz.And(ok, zz.Iff(m.has(x), inList(x, l)))
	}
	zz.Assert(ok, id)
}

func (m *mSet) check(id string) {
	q := member(id + ".query")
	zz.Assert(zz.Iff(m.s.Has(q), m.has(q)), id+".Has")
	l := m.s.Slice()
	m.isList(l, id+".Slice")
	zz.Assert(m.s.Len() == len(l), id+".Len")
	sorted := m.s.SortedSlice()
	m.isList(sorted, id+".SortedSlice")
	up := true
	for i := 1; i < len(sorted); i++ {
		up = zz.And(up, sorted[i-1] < sorted[i])
	}
	zz.Assert(up, id+".SortedSlice.order")
}

func newMSet(name string, max int) *mSet {
	if zz.Bool(name + ".zero") {
		return &mSet{}
	}
	l := members(name, max)
	m := &mSet{s: lpg.NewStringSet(l...)}
	for _, x := range l {
		m.ev = append(m.ev, mEvent{x, true})
	}
	return m
}

func (m *mSet) clone() *mSet {
	return &mSet{s: m.s.Clone(), ev: append([]mEvent{}, m.ev...)}
}

func (m *mSet) add(l ...string) {
	r := m.s.Add(l...)
	zz.Assert(r == &m.s, "Add.result")
	for _, x := range l {
		m.ev = append(m.ev, mEvent{x, true})
	}
}

func (m *mSet) remove(l ...string) {
	r := m.s.Remove(l...)
	zz.Assert(r == &m.s, "Remove.result")
	for _, x := range l {
		m.ev = append(m.ev, mEvent{x, false})
	}
}

func (m *mSet) addSet(o *mSet) {
	var l []mEvent
	for _, x := range o.mentions() {
		// x is added iff o has it now
		l = append(l, mEvent{x, zz.Or(m.has(x), o.has(x))})
	}
	r := m.s.AddSet(o.s)
	zz.Assert(r == &m.s, "AddSet.result")
	m.ev = append(m.ev, l...)
}

// Any sequence of operations on a family of sets, some cloned or copied
// from others: every set keeps exactly its own members.
//
//sym:quick k=3 n=1
//sym:quick k=2 n=2
//sym:thorough k=4 n=1
//sym:thorough k=3 n=2
func H_C23_histories() {
	sets := []*mSet{newMSet("initial", zz.Param("n"))}
	for s := 0; s < zz.Param("k"); s++ {
		m := sets[0]
		if len(sets) > 1 {
			m = sets[zz.Choose("op.set", len(sets))]
		}
		switch zz.Choose("op", 5) {
		case 0:
			m.add(members("added", zz.Param("n"))...)
		case 1:
			m.remove(members("removed", zz.Param("n"))...)
		case 2:
			m.addSet(sets[zz.Choose("op.other", len(sets))])
		case 3:
			zz.Assume(len(sets) < 3)
			sets = append(sets, m.clone())
		case 4:
			// plain copy of the value
			zz.Assume(len(sets) < 3)
			sets = append(sets, &mSet{s: m.s, ev: append([]mEvent{}, m.ev...)})
		}
	}
	for _, m := range sets {
		m.check("set")
	}
}

// Tests against lists and other sets.
//
//sym:quick n=2
//sym:thorough n=3
func H_C23_algebra() {
	a, b := newMSet("a", zz.Param("n")), newMSet("b", zz.Param("n"))
	if zz.Bool("shrunk") {
		a.remove(member("removed"))
	}
	l := members("list", zz.Param("n"))
	anyL, allL := false, true
	for _, x := range l {
		anyL = zz.Or(anyL, a.has(x))
		allL = zz.And(allL, a.has(x))
	}
	zz.Assert(zz.Iff(a.s.HasAny(l...), anyL), "HasAny")
	zz.Assert(zz.Iff(a.s.HasAll(l...), allL), "HasAll")
	anyS, sub, sup := false, true, true
	for _, x := range b.mentions() {
		anyS = zz.Or(anyS, zz.And(a.has(x), b.has(x)))
		sub = zz.And(sub, zz.Implies(b.has(x), a.has(x)))
	}
	for _, x := range a.mentions() {
		sup = zz.And(sup, zz.Implies(a.has(x), b.has(x)))
	}
	zz.Assert(zz.Iff(a.s.HasAnySet(b.s), anyS), "HasAnySet")
	zz.Assert(zz.Iff(a.s.HasAllSet(b.s), sub), "HasAllSet")
	zz.Assert(zz.Iff(a.s.IsEqual(b.s), zz.And(sub, sup)), "IsEqual")
	zz.Assert(zz.Iff(b.s.IsEqual(a.s), zz.And(sub, sup)), "IsEqual.symmetric")
	a.check("a")
	b.check("b")
}

// The text form lists the members, in any order.
//
//sym:both
func H_C23_text() {
	a := newMSet("a", 2)
	text := a.s.String()
	l := a.s.Slice()
	switch len(l) {
	case 0:
		zz.Assert(text == "", "String.empty")
	case 1:
		zz.Assert(text == l[0], "String.one")
	case 2:
		zz.Assert(zz.Or(text == l[0]+", "+l[1], text == l[1]+", "+l[0]), "String.two")
	}
	a.isList(l, "Slice")
}

// A slice or list handed over or returned is independent of the set.
//
//sym:both
func H_C23_independence() {
	a := newMSet("a", 2)
	l := a.s.Slice()
	if zz.Bool("sorted") {
		l = a.s.SortedSlice()
	}
	zz.Assume(len(l) > 0)
	l[zz.Choose("changed", len(l))] = member("other")
	a.check("after")
	given := []string{member("given"), member("given")}
	a.add(given...)
	given[0] = member("later")
	a.check("added")
}

// The labels of a node follow the same rules: changing the set given to or
// returned by the node leaves the labels alone.
//
//sym:both
func H_C23_node() {
	g := lpg.NewGraph()
	m := newMSet("labels", 2)
	n := g.NewNode(nil, nil)
	n.SetLabels(m.s)
	kept := m.clone()
	got := &mSet{s: n.GetLabels(), ev: append([]mEvent{}, m.ev...)}
	if zz.Bool("given") {
		got = m
	}
	switch zz.Choose("op", 3) {
	case 0:
		got.add(member("added"))
	case 1:
		got.remove(member("removed"))
	case 2:
		got.addSet(newMSet("addedset", 1))
	}
	got.check("changed")
	(&mSet{s: n.GetLabels(), ev: kept.ev}).check("labels")
}

// JSON: an array of the members, each once; any array of strings is read as
// the set of its elements, replacing the previous members.
//
//sym:quick n=2 l=1
//sym:thorough n=3 l=1
func H_C23_json() {
	a := newMSet("a", zz.Param("n"))
	if zz.Bool("shrunk") {
		a.remove(member("removed"))
	}
	text, err := json.Marshal(a.s)
	zz.Assert(err == nil, "Marshal.err")
	var l []string
	zz.Assert(json.Unmarshal(text, &l) == nil, "Marshal.array")
	a.isList(l, "Marshal")
	b := newMSet("b", 1)
	c := b.clone()
	zz.Assert(json.Unmarshal(text, &b.s) == nil, "Unmarshal.err")
	b.ev = a.ev
	b.check("Unmarshal")
	c.check("Unmarshal.clone")
	a.check("Unmarshal.source")
}

//sym:both
func H_C23_unmarshal() {
	texts := []string{`[]`, `["a","b","a"]`, `["a\"b","\u0061"]`, ` [ "" ] `, `null`, `1`, `"a"`, `{}`, `[1]`, `["a",2]`, `[`, `["a"`, ``, `[null]`, `["a"]x`}
	want := [][]string{{}, {"a", "b"}, {"a\"b", "a"}, {""}, {}, nil, nil, nil, nil, nil, nil, nil, nil, {""}, nil}
	i := zz.Choose("text", len(texts))
	b := newMSet("b", 1)
	err := json.Unmarshal([]byte(texts[i]), &b.s)
	zz.Assert((err == nil) == (want[i] != nil), "Unmarshal.err")
	if err != nil {
		b.check("Unmarshal.unchanged")
		return
	}
	b.ev = nil
	for _, x := range want[i] {
		b.ev = append(b.ev, mEvent{x, true})
	}
	b.check("Unmarshal")
}

// Larger sets.
//
//sym:quick n=6
//sym:thorough n=9
func H_C23_big() {
	n := zz.Param("n")
	a, b := &mSet{}, &mSet{}
	for i := 0; i < n; i++ {
		a.add(letter(i))
		if i%2 == 0 {
			b.add(letter(i))
		}
	}
	c := a.clone()
	switch zz.Choose("op", 5) {
	case 0:
		a.remove(letter(zz.Choose("removed", n)))
	case 1:
		a.add(symLabel("added"))
	case 2:
		b.addSet(a)
		a.remove("A")
	case 3:
		a.addSet(b)
		b.remove("A")
	case 4:
		for i := 0; i < n; i++ {
			a.remove(letter(i))
		}
		a.addSet(b)
	}
	x := symLabel("query")
	for _, m := range []*mSet{a, b, c} {
		zz.Assert(zz.Iff(m.s.Has(x), m.has(x)), "Has")
		zz.Assert(zz.Iff(m.s.HasAny("0", x), m.has(x)), "HasAny")
		m.isList(m.s.Slice(), "Slice")
		m.isList(m.s.SortedSlice(), "SortedSlice")
		zz.Assert(m.s.Len() == len(m.s.Slice()), "Len")
	}
	sub := func(a, b *mSet) bool {
		r := true
		for _, x := range b.mentions() {
			r = zz.And(r, zz.Implies(b.has(x), a.has(x)))
		}
		return r
	}
	zz.Assert(zz.Iff(a.s.HasAllSet(b.s), sub(a, b)), "HasAllSet")
	zz.Assert(zz.Iff(c.s.HasAllSet(a.s), sub(c, a)), "HasAllSet")
	zz.Assert(zz.Iff(a.s.IsEqual(c.s), zz.And(sub(a, c), sub(c, a))), "IsEqual")
}
