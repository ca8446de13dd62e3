package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

// symKey is a property key: one of two fixed keys or a symbolic one.
func symKey(name string) string { return zz.StringIn(name, 1, 'a', 'z') }

// A model of the properties as an association list over symbolic keys.
type assoc struct {
	k []string
	v []mval
}

func (a *assoc) set(k string, v mval) {
	for i := range a.k {
		if a.k[i] == k {
			a.v[i] = v
			return
		}
	}
	a.k = append(a.k, k)
	a.v = append(a.v, v)
}

func (a *assoc) remove(k string) {
	for i := range a.k {
		if a.k[i] == k {
			a.k = append(append([]string{}, a.k[:i]...), a.k[i+1:]...)
			a.v = append(append([]mval{}, a.v[:i]...), a.v[i+1:]...)
			return
		}
	}
}

func (a *assoc) check(x withProps, id string) {
	ok := true
	for i, k := range a.k {
		v, has := x.GetProperty(k)
		ok = zz.And(ok, has, isValue(v, a.v[i]))
	}
	zz.Assert(ok, id+".GetProperty")
	q := symKey("query")
	_, has := x.GetProperty(q)
	zz.Assert(zz.Iff(has, inList(q, a.k)), id+".exists")
	var seen []string
	all := x.ForEachProperty(func(k string, v any) bool {
		seen = append(seen, k)
		f := false
		for i := range a.k {
			f = zz.Or(f, zz.And(a.k[i] == k, isValue(v, a.v[i])))
		}
		zz.Assert(f, id+".ForEachProperty")
		return true
	})
	zz.Assert(all && len(seen) == len(a.k), id+".ForEachProperty.number")
	for i := range seen {
		for j := i + 1; j < len(seen); j++ {
			zz.Assert(seen[i] != seen[j], id+".ForEachProperty.once")
		}
	}
	if len(a.k) > 0 {
		n := 0
		r := x.ForEachProperty(func(string, any) bool {
			n++
			return false
		})
		zz.Assert(!r && n == 1, id+".ForEachProperty.stop")
	}
}

type writable interface {
	withProps
	SetProperty(string, any)
	RemoveProperty(string)
}

// Histories of writes to two nodes or two edges.
//
//sym:quick k=3
//sym:thorough k=4
func H_C24_properties() {
	w := newWorld()
	if zz.Choose("indexed", 2) == 1 {
		ix := indexType("index")
		w.g.AddNodePropertyIndex("a", ix)
		w.g.AddEdgePropertyIndex("a", ix)
	}
	w.addNode(nil, nil)
	w.addNode(nil, nil)
	var x [2]writable
	var m [2]assoc
	edges := zz.Choose("edges", 2) == 1
	for i := range x {
		var props map[string]any
		if i == 0 && zz.Choose("initial", 2) == 1 {
			k := symKey("initial.key")
			v, mv := symScalar("initial", false, 0)
			props = map[string]any{k: v}
			m[i].set(k, mv)
		}
		if edges {
			x[i] = w.addEdge(0, 1, "E", props).e
		} else {
			x[i] = w.addNode(nil, props).n
		}
	}
	for s := 0; s < zz.Param("k"); s++ {
		i := zz.Choose("op.item", 2)
		k := symKey("op.key")
		if zz.Choose("op", 2) == 0 {
			v, mv := symScalar("op.value", false, 0)
			x[i].SetProperty(k, v)
			m[i].set(k, mv)
		} else {
			x[i].RemoveProperty(k)
			m[i].remove(k)
		}
	}
	i := zz.Choose("checked", 2)
	m[i].check(x[i], "properties")
}

// Labels read back as assigned; identifiers are unique.
//
//sym:quick k=2
//sym:thorough k=3
func H_C24_labels() {
	w := newWorld()
	w.addNode(symLabels("labels", 1), nil)
	for s := 0; s < zz.Param("k"); s++ {
		switch zz.Choose("op", 6) {
		case 0:
			w.addNode(symLabels("labels", 2), nil)
		case 1:
			w.newEdge("op", nil)
		case 2:
			w.setLabels(w.pickNode("op.node"), symLabels("op.labels", 2))
		case 3:
			w.setEdgeLabel(w.pickEdge("op.edge"), symLabel("op.label"))
		case 4:
			w.removeNode(w.pickNode("op.node"))
		case 5:
			w.removeEdge(w.pickEdge("op.edge"))
		}
	}
	var ids []int
	for _, n := range w.nodes {
		ids = append(ids, n.n.GetID())
		if n.alive {
			sameLabelSet(n.n.GetLabels(), n.labels, "GetLabels")
			q := symLabel("query")
			zz.Assert(zz.Iff(n.n.HasLabel(q), inList(q, n.labels)), "HasLabel")
		}
	}
	for _, e := range w.edges {
		ids = append(ids, e.e.GetID())
		if e.alive {
			zz.Assert(e.e.GetLabel() == e.label, "GetLabel")
		}
	}
	for i := range ids {
		for j := i + 1; j < len(ids); j++ {
			zz.Assert(ids[i] != ids[j], "identifiers are unique")
		}
	}
}

// Identifiers stay unique when nodes and edges are copied into a graph that
// has nodes and edges of its own.
//
//sym:quick n=2 m=1
//sym:thorough n=2 m=2
func H_C24_copies() {
	s := newWorld()
	pre := zz.Choose("source.before", 3)
	for i := 0; i < pre; i++ {
		s.addNode(nil, nil)
	}
	for i := 0; i < pre; i++ {
		s.removeNode(i)
	}
	s.labeledGraph2(zz.Param("n"), zz.Param("m"))
	t := newWorld()
	for i := zz.Choose("target.nodes", 3); i > 0; i-- {
		t.addNode(nil, nil)
	}
	if zz.Choose("target.edge", 2) == 1 && len(t.nodes) > 0 {
		t.addEdge(0, 0, "T", nil)
	}
	same := zz.Choose("same", 2) == 1
	tg := t.g
	if same {
		tg = s.g
	}
	keep := func(_ string, v any) any { return v }
	switch zz.Choose("copy", 3) {
	case 0:
		zz.Assume(!same)
		lpg.CopyGraph(s.g, tg, keep)
	case 1:
		m := map[*lpg.Node]*lpg.Node{}
		for _, i := range s.liveNodes() {
			n := s.nodes[i].n
			m[n] = lpg.CopyNode(n, tg, keep)
		}
		for _, e := range s.edges {
			lpg.CopyEdge(e.e, tg, keep, m)
		}
	case 2:
		i := s.pickNode("copy.node")
		lpg.CopySubgraph(s.nodes[i].n, tg, keep, map[*lpg.Node]*lpg.Node{})
	}
	tg.NewNode(nil, nil)
	var ids []int
	for _, n := range itNodes(tg.GetNodes(), 50) {
		ids = append(ids, n.GetID())
	}
	for _, e := range itEdges(tg.GetEdges(), 50) {
		ids = append(ids, e.GetID())
	}
	for i := range ids {
		for j := i + 1; j < len(ids); j++ {
			zz.Assert(ids[i] != ids[j], "identifiers are unique after copying")
		}
	}
}

func (w *world) labeledGraph2(n, m int) {
	l := len(w.nodes)
	someNodes(w, n)
	k := zz.Choose("m", m+1)
	for i := 0; i < k; i++ {
		w.addEdge(l+zz.Choose("from", n), l+zz.Choose("to", n), "E", nil)
	}
}

// A property whose value is nil exists like any other.
//
//sym:quick k=2
//sym:thorough k=3
func H_C24_nil() {
	w := newWorld()
	w.addNode(nil, nil)
	var x writable
	var m assoc
	props := map[string]any{}
	if zz.Choose("initial", 2) == 1 {
		k := symKey("initial.key")
		v, mv := symNilable("initial")
		props[k] = v
		m.set(k, mv)
	}
	if zz.Choose("edge", 2) == 1 {
		x = w.addEdge(0, 0, "E", props).e
	} else {
		x = w.addNode(nil, props).n
	}
	for s := 0; s < zz.Param("k"); s++ {
		k := symKey("op.key")
		if zz.Choose("op", 2) == 0 {
			v, mv := symNilable("op.value")
			x.SetProperty(k, v)
			m.set(k, mv)
		} else {
			x.RemoveProperty(k)
			m.remove(k)
		}
	}
	m.check(x, "properties")
}

// Many properties.
//
//sym:quick n=6
//sym:thorough n=10
func H_C24_big() {
	w := newWorld()
	w.addNode(nil, nil)
	var m assoc
	props := map[string]any{}
	for i := 0; i < zz.Param("n"); i++ {
		k := string(rune('a' + i))
		props[k] = i
		m.set(k, mval{i: i})
	}
	var x writable
	if zz.Bool("edge") {
		x = w.addEdge(0, 0, "E", props).e
	} else {
		x = w.addNode(nil, props).n
	}
	for s := 0; s < 2; s++ {
		k := symKey("op.key")
		if zz.Bool("set") {
			v, mv := symScalar("op.value", false, 0)
			x.SetProperty(k, v)
			m.set(k, mv)
		} else {
			x.RemoveProperty(k)
			m.remove(k)
		}
	}
	m.check(x, "properties")
}

// someShape is a value of any shape, and whether another value is the same,
// and not just one that compares equal.
func someShape(name string) (any, func(any) bool) {
	k := zz.Choose(name+".shape", 12)
	n := 0
	s := ""
	switch k {
	case 0, 2, 3, 6, 7:
		n = zz.AnyInt(name + ".int")
	case 1, 4, 5:
		s = symLabel(name + ".string")
	}
	switch k {
	case 0:
		return n, func(x any) bool { y, ok := x.(int); return zz.And(ok, y == n) }
	case 1:
		return s, func(x any) bool { y, ok := x.(string); return zz.And(ok, y == s) }
	case 2:
		v := []int{n}
		return v, func(x any) bool { y, ok := x.([]int); return ok && len(y) == 1 && y[0] == n }
	case 3:
		v := []any{n}
		return v, func(x any) bool { y, ok := x.([]any); return ok && len(y) == 1 && y[0] == any(n) }
	case 4:
		v := []string{s}
		return v, func(x any) bool { y, ok := x.([]string); return ok && len(y) == 1 && y[0] == s }
	case 5:
		v := []any{s}
		return v, func(x any) bool { y, ok := x.([]any); return ok && len(y) == 1 && y[0] == any(s) }
	case 6:
		v := native{n}
		return v, func(x any) bool {
			y, ok := x.(native)
			if !ok {
				return false
			}
			m, ok := y.v.(int)
			return zz.And(ok, m == n)
		}
	case 7:
		v := &native{n}
		return v, func(x any) bool { y, ok := x.(*native); return ok && y == v }
	case 8:
		return nil, func(x any) bool { return x == nil }
	case 9:
		return true, func(x any) bool { y, ok := x.(bool); return ok && y }
	case 10:
		return 1.0, func(x any) bool { y, ok := x.(float64); return ok && y == 1 }
	}
	v := &struct{ x int }{1}
	return v, func(x any) bool { y, ok := x.(*struct{ x int }); return ok && y == v }
}

// A property takes values of any shapes, also ones that compare equal.
//
//sym:quick k=2
//sym:thorough k=3
func H_C24_shapes() {
	w := newWorld()
	v, same := someShape("initial")
	var x writable
	if zz.Bool("indexed") {
		w.g.AddNodePropertyIndex("p", lpg.HashIndex)
		w.g.AddEdgePropertyIndex("p", lpg.HashIndex)
	}
	n := w.addNode(nil, map[string]any{"p": v, "o": "other"}).n
	if zz.Bool("edge") {
		x = w.addEdge(0, 0, "E", map[string]any{"p": v, "o": "other"}).e
	} else {
		x = n
	}
	has := true
	for s := 1; s < zz.Param("k"); s++ {
		if zz.Bool("op.remove") {
			x.RemoveProperty("p")
			has = false
		} else {
			v, same = someShape("op")
			x.SetProperty("p", v)
			has = true
		}
	}
	got, ok := x.GetProperty("p")
	zz.Assert(ok == has, "exists")
	if has {
		zz.Assert(same(got), "GetProperty")
	}
	c := 0
	x.ForEachProperty(func(k string, v any) bool {
		c++
		zz.Assert(k == "o" && v == "other" || k == "p" && has && same(v), "ForEachProperty")
		return true
	})
	zz.Assert(c == 1+zz.B2i(has), "ForEachProperty.number")
}

// Nodes and edges created with the faster functions, which take the given
// label set and properties, are like the others.
//
//sym:quick n=2 to=1
//sym:thorough n=2 to=2
func H_C24_fast() {
	w := newWorld()
	mode := zz.Choose("fast", 3)
	fast := func(i int) bool { return mode == 2 || mode == i }
	index := zz.Choose("index", 3)
	if index > 0 {
		w.g.AddNodePropertyIndex("p", lpg.IndexType(index-1))
		w.g.AddEdgePropertyIndex("p", lpg.IndexType(index-1))
	}
	for i := 0; i < zz.Param("n"); i++ {
		l := []string{"A"}
		v, mv := map[string]any(nil), map[string]mval(nil)
		if i == 0 {
			l = symLabels("node", 1)
			v, mv = someProp("node")
		}
		if fast(i) {
			m := &mNode{n: w.g.FastNewNode(lpg.NewStringSet(l...), v), labels: l, alive: true, pv: map[string]mval{}}
			for k, x := range v {
				m.props = append(m.props, mProp{k, x, true})
			}
			w.nodes = append(w.nodes, m)
		} else {
			w.addNode(l, v)
		}
		w.nodes[i].pv = mv
		if mv == nil {
			w.nodes[i].pv = map[string]mval{}
		}
	}
	for i := 0; i < zz.Param("n"); i++ {
		f, t, l := i, zz.Choose("to", zz.Param("to")), "E"
		v, mv := map[string]any(nil), map[string]mval(nil)
		if i == 1 {
			l = symLabel("edge")
			v, mv = someProp("edge")
		}
		if fast(i) {
			m := &mEdge{e: w.g.FastNewEdge(w.nodes[f].n, w.nodes[t].n, l, v), f: f, t: t, label: l, alive: true, pv: map[string]mval{}}
			for k, x := range v {
				m.props = append(m.props, mProp{k, x, true})
			}
			w.edges = append(w.edges, m)
		} else {
			w.addEdge(f, t, l, v)
		}
		w.edges[i].pv = mv
		if mv == nil {
			w.edges[i].pv = map[string]mval{}
		}
	}
	w.mutate()
	w.checkStructure("fast")
	w.checkValues("fast")
	w.checkLabel(symLabel("query"))
	q, mq := symScalar("query.p", false, 0)
	w.checkNodeIndex(q, mq)
	w.checkEdgeIndex(q, mq)
}
