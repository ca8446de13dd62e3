package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

// someEnumeration is one of the enumerations of a graph; each call of the
// returned function starts it anew.
func (w *world) someEnumeration(name string, kinds int) func() lpg.Iterator {
	g := w.g
	kind := zz.Choose(name, kinds)
	labels := lpg.NewStringSet("A", "C")
	if kind < 6 {
		labels = lpg.NewStringSet(symLabels(name+".labels", 1)...)
	}
	n := func() *lpg.Node { return w.nodes[1].n }
	switch kind {
	case 4, 5, 9, 10:
		w.bigIndexes()
	}
	dir := func() lpg.EdgeDir { return dirs[zz.Choose(name+".dir", 3)] }
	switch kind {
	case 0:
		return func() lpg.Iterator { return g.GetNodesWithAllLabels(labels) }
	case 1:
		return func() lpg.Iterator { return g.GetEdgesWithAnyLabel(labels) }
	case 2:
		x, d := w.nodes[0].n, dir()
		return func() lpg.Iterator { return x.GetEdgesWithAnyLabel(d, labels) }
	case 3:
		x, d := w.nodes[0].n, dir()
		l := symLabel(name + ".label")
		return func() lpg.Iterator { return x.GetEdgesWithLabel(d, l) }
	case 4:
		v := zz.AnyInt(name + ".value")
		return func() lpg.Iterator { return g.FindNodes(labels, map[string]any{"q": v}) }
	case 5:
		v := zz.AnyInt(name + ".value")
		return func() lpg.Iterator { return g.FindEdges(labels, map[string]any{"q": v}) }
	case 6:
		return func() lpg.Iterator { return g.GetNodes() }
	case 7:
		return func() lpg.Iterator { return g.GetEdges() }
	case 8:
		x, d := n(), dir()
		return func() lpg.Iterator { return x.GetEdges(d) }
	case 9:
		return func() lpg.Iterator { return g.GetNodesWithProperty("q") }
	case 10:
		return func() lpg.Iterator { return g.GetEdgesWithProperty("q") }
	case 11:
		x, d := n(), dir()
		c := (&lpg.Cursor{}).Set(x)
		return func() lpg.Iterator { return c.Nodes(d) }
	case 12:
		x, d := n(), dir()
		c := (&lpg.Cursor{}).Set(x)
		return func() lpg.Iterator { return c.EdgesWith(d, "A") }
	case 13:
		return func() lpg.Iterator { return lpg.SourcesItr(g) }
	case 14:
		return func() lpg.Iterator { return lpg.SinksItr(g) }
	case 15:
		nm := lpg.NewNodeMap()
		for _, x := range w.nodes {
			nm.Add(x.n)
		}
		return func() lpg.Iterator { return nm.Iterator() }
	case 16:
		s := lpg.NewNodeSet()
		for _, x := range w.nodes {
			s.Add(x.n)
		}
		return func() lpg.Iterator { return s.Iterator() }
	case 17:
		s := lpg.NewEdgeSet()
		for _, x := range w.edges {
			s.Add(x.e)
		}
		return func() lpg.Iterator { return s.Iterator() }
	}
	return func() lpg.Iterator { return g.GetNodes() }
}

func (w *world) drain(it lpg.Iterator) []any {
	var r []any
	for it.Next() {
		r = append(r, it.Value())
		if len(r) > 4*w.lim() {
			zz.Assert(false, "terminates")
		}
	}
	return r
}

// sameItems: the same items, each as often, in any order.
func sameItems(a, b []any) bool {
	count := func(l []any, x any) int {
		c := 0
		for _, y := range l {
			if x == y {
				c++
			}
		}
		return c
	}
	for _, x := range a {
		if count(a, x) != count(b, x) {
			return false
		}
	}
	return len(a) == len(b)
}

// current checks that reading the current item changes nothing.
func current(it lpg.Iterator) any {
	v := it.Value()
	switch x := it.(type) {
	case lpg.NodeIterator:
		zz.Assert(v == any(x.Node()), "Node")
	case lpg.EdgeIterator:
		zz.Assert(v == any(x.Edge()), "Edge")
	}
	zz.Assert(it.Value() == v, "Value")
	return v
}

// interleave starts the second after some steps of the first; then the second
// is exhausted at once, or both advance in turns.
func (w *world) interleave(f, g func() lpg.Iterator, after int) (r [2][]any) {
	its := [2]lpg.Iterator{f(), nil}
	turns := zz.Bool("turns")
	var done [2]bool
	step := func(at int) {
		if its[at].Next() {
			r[at] = append(r[at], current(its[at]))
		} else {
			done[at] = true
		}
		zz.Assert(len(r[at]) <= 4*w.lim(), "terminates")
	}
	for i := 0; i < after && !done[0]; i++ {
		step(0)
	}
	its[1] = g()
	for at := 1; !done[0] || !done[1]; {
		if !done[at] {
			step(at)
		}
		if turns || done[at] {
			at = 1 - at
		}
	}
	return r
}

// Two enumerations of the same graph at the same time.
//
//sym:quick n=3 m=4 s=2 d=3
//sym:thorough n=4 m=6 s=4 d=4
func H_C33_pairs() {
	w := newWorld()
	w.bigGraph(zz.Param("n"), zz.Param("m"))
	f := w.someEnumeration("first", 18)
	g := f
	if zz.Bool("different") {
		g = w.someEnumeration("second", zz.Param("d"))
	}
	wantF, wantG := w.drain(f()), w.drain(g())
	r := w.interleave(f, g, zz.Choose("after", zz.Param("s")))
	zz.Assert(sameItems(r[0], wantF), "first")
	zz.Assert(sameItems(r[1], wantG), "second")
	zz.Assert(sameItems(w.drain(f()), wantF), "again")
}

// Queries made between two steps of an enumeration, as in nested loops.
//
//sym:quick n=3 m=4
//sym:thorough n=4 m=6
func H_C33_nested() {
	w := newWorld()
	w.bigGraph(zz.Param("n"), zz.Param("m"))
	f := w.someEnumeration("outer", 18)
	want := w.drain(f())
	it := f()
	at := zz.Choose("at", 2)
	q := zz.Choose("query", 6)
	var l lpg.StringSet
	if q == 0 || q == 2 || q == 3 {
		l = lpg.NewStringSet(symLabel("query.label"))
	}
	var got []any
	for i := 0; it.Next(); i++ {
		zz.Assert(i < 4*w.lim(), "terminates")
		v := it.Value()
		if i == at {
			x := w.nodes[1].n
			switch q {
			case 0:
				p := lpg.Pattern{{}, {Min: 1, Max: 1, Labels: l}, {}}
				p.FindPaths(w.g, map[string]*lpg.PatternSymbol{})
			case 1:
				lpg.CopyGraph(w.g, lpg.NewGraph(), bump)
			case 2:
				w.drain(w.g.FindNodes(l, map[string]any{"p": zz.AnyInt("query.value")}))
				w.drain(w.g.FindEdges(l, map[string]any{"p": zz.AnyInt("query.value")}))
			case 3:
				w.drain(x.GetEdgesWithAnyLabel(lpg.AnyEdge, l))
				w.drain(x.GetEdges(lpg.OutgoingEdge))
			case 4:
				lpg.Sources(w.g)
				lpg.EdgesBetweenNodes(x, x)
				lpg.NextNodesWith(x, "A")
			case 5:
				lpg.JSON{MarshalEdgesSeparately: zz.Bool("separate")}.Encode(w.g, &textSink{})
			}
		}
		zz.Assert(current(it) == v, "Value")
		got = append(got, v)
	}
	zz.Assert(sameItems(got, want), "outer")
}

// The result of a pattern search can be processed with further searches,
// also by the same pattern.
//
//sym:quick n=3 m=4
//sym:thorough n=4 m=6
func H_C33_patterns() {
	w := newWorld()
	w.bigGraph(zz.Param("n"), zz.Param("m"))
	it := lpg.PatternItem{Min: 1, Max: 1 + zz.Choose("max", 2), Undirected: zz.Bool("undirected")}
	if zz.Bool("labeled") {
		it.Labels = lpg.NewStringSet(symLabel("item.label"))
	}
	p := lpg.Pattern{{Name: "a"}, it, {Name: "b"}}
	acc, err := p.FindPaths(w.g, map[string]*lpg.PatternSymbol{})
	zz.Assert(err == nil, "alone.err")
	r := &nestedRun{w: w, p: p, at: zz.Choose("at", 3)}
	zz.Assert(p.Run(w.g, map[string]*lpg.PatternSymbol{}, r) == nil, "nested.err")
	zz.Assert(len(r.paths) == len(acc.Paths) && len(acc.Symbols) == len(acc.Paths), "results")
	used := make([]bool, len(acc.Paths))
	for k, x := range r.paths {
		found := false
		for i, y := range acc.Paths {
			if !used[i] && !found && samePath(x, y) && acc.Symbols[i]["a"] == r.syms[k]["a"] && acc.Symbols[i]["b"] == r.syms[k]["b"] {
				used[i], found = true, true
			}
		}
		zz.Assert(found, "result")
	}
}

func samePath(x, y *lpg.Path) bool {
	if x.NumNodes() != y.NumNodes() || x.NumEdges() != y.NumEdges() {
		return false
	}
	for i := 0; i < x.NumNodes(); i++ {
		if x.GetNode(i) != y.GetNode(i) {
			return false
		}
	}
	for i := 0; i < x.NumEdges(); i++ {
		if x.GetEdge(i) != y.GetEdge(i) {
			return false
		}
	}
	return true
}

// nestedRun searches again while results come in.
type nestedRun struct {
	w     *world
	p     lpg.Pattern
	at    int
	paths []*lpg.Path
	syms  []map[string]any
}

func (r *nestedRun) StoreResult(ctx *lpg.MatchContext, path *lpg.Path, symbols map[string]any) {
	if len(r.paths) == r.at {
		zz.Assert(ctx.Graph == r.w.g, "context")
		_, err := r.p.FindPaths(r.w.g, map[string]*lpg.PatternSymbol{})
		zz.Assert(err == nil, "inner.err")
		for _, n := range r.w.liveNodes() {
			lpg.CollectAllPaths(r.w.g, r.w.nodes[n].n, r.w.nodes[n].n.GetEdges(lpg.OutgoingEdge), func(*lpg.Edge) bool { return true }, lpg.OutgoingEdge, 1, 2, func(*lpg.Path) bool { return true })
		}
	}
	r.paths = append(r.paths, path)
	r.syms = append(r.syms, symbols)
}

// Enumerations of few things, advanced in any order.
//
//sym:quick k=4
//sym:thorough k=6
func H_C33_few() {
	w := newWorld()
	w.bigGraph(2, 1+zz.Choose("edges", 2))
	f := w.someEnumeration("enumeration", 18)
	want := w.drain(f())
	its := []lpg.Iterator{f()}
	got := make([][]any, 3)
	for s := 0; s < zz.Param("k"); s++ {
		i := zz.Choose("step", len(its)+1)
		if i == len(its) {
			zz.Assume(i < len(got))
			its = append(its, f())
		} else if its[i].Next() {
			got[i] = append(got[i], current(its[i]))
		}
	}
	for i, it := range its {
		for it.Next() {
			got[i] = append(got[i], current(it))
			zz.Assert(len(got[i]) <= 4*w.lim(), "terminates")
		}
		zz.Assert(sameItems(got[i], want), "each")
	}
}
