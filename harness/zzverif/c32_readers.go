package zzverif

import (
	"context"
	"encoding/json"

	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

// sink is a writer that drops its input.
type sink struct{ n int }

func (s *sink) Write(b []byte) (int, error) { s.n += len(b); return len(b), nil }

// shared builds a graph with at most one index and possibly one removal.
func shared(removals int) *world {
	w := newWorld()
	switch zz.Choose("index", 3) {
	case 1:
		w.g.AddNodePropertyIndex("p", lpg.BtreeIndex)
		w.g.AddEdgePropertyIndex("p", lpg.BtreeIndex)
	case 2:
		w.g.AddNodePropertyIndex("p", lpg.HashIndex)
		w.g.AddEdgePropertyIndex("p", lpg.HashIndex)
	}
	w.someGraph(zz.Param("n"), zz.Param("m"))
	if zz.Bool("bare") {
		w.addEdge(0, len(w.nodes)-1, "B", nil)
		w.addNode(nil, nil)
	}
	switch zz.Choose("op", removals) {
	case 1:
		w.removeEdge(w.pickEdge("op.edge"))
	case 2:
		w.removeNode(w.pickNode("op.node"))
	case 3:
		w.removeNodeProp(w.pickNode("op.node"), "p")
	case 4:
		w.setLabels(w.pickNode("op.node"), nil)
	}
	return w
}

func drainN(it lpg.NodeIterator) {
	it.MaxSize()
	for it.Next() {
		n := it.Node()
		n.GetID()
		it.Value()
	}
}

func drainE(it lpg.EdgeIterator) {
	it.MaxSize()
	for it.Next() {
		it.Edge().GetID()
		it.Value()
	}
}

// Enumerations and lookups only read.
//
//sym:quick n=2 m=1 race
//sym:thorough n=2 m=2 race
func H_C32_lookups() {
	w := shared(5)
	l := symLabel("query.label")
	labels := lpg.NewStringSet(l)
	v, _ := symScalar("query.value", false, 0)
	q := map[string]any{"p": v}
	i := w.pickNode("query.node")
	n := w.nodes[i].n
	dir := lpg.EdgeDir(zz.Choose("query.dir", 3))
	var f func()
	switch zz.Choose("query", 13) {
	case 0:
		f = func() { drainN(w.g.GetNodes()); w.g.NumNodes() }
	case 1:
		f = func() { drainE(w.g.GetEdges()); w.g.NumEdges() }
	case 2:
		f = func() { drainN(w.g.GetNodesWithAllLabels(labels)) }
	case 3:
		f = func() { drainE(w.g.GetEdgesWithAnyLabel(labels)) }
	case 4:
		f = func() { drainN(w.g.FindNodes(labels, q)); drainN(w.g.FindNodes(lpg.StringSet{}, q)) }
	case 5:
		f = func() { drainE(w.g.FindEdges(labels, q)); drainE(w.g.FindEdges(lpg.StringSet{}, q)) }
	case 6:
		f = func() { drainN(w.g.GetNodesWithProperty("p")); drainE(w.g.GetEdgesWithProperty("p")) }
	case 7:
		f = func() { drainE(n.GetEdges(dir)) }
	case 8:
		f = func() { drainE(n.GetEdgesWithLabel(dir, l)) }
	case 9:
		f = func() { drainE(n.GetEdgesWithAnyLabel(dir, labels)) }
	case 10:
		f = func() {
			x := n.GetLabels()
			x.Has(l)
			x.Slice()
			x.SortedSlice()
			n.HasLabel(l)
			n.GetProperty("p")
			n.ForEachProperty(func(string, any) bool { return true })
			for it := w.g.GetEdges(); it.Next(); {
				e := it.Edge()
				e.GetProperty("p")
				e.ForEachProperty(func(string, any) bool { return true })
				e.GetLabel()
			}
		}
	case 11:
		f = func() {
			lpg.Sources(w.g)
			lpg.Sinks(w.g)
			lpg.EdgesBetweenNodes(n, n)
			lpg.NextNodesWith(n, l)
			lpg.PrevNodesWith(n, l)
			lpg.ForEachNode(w.g, func(*lpg.Node) bool { return true })
		}
	case 12:
		f = func() {
			c := (&lpg.Cursor{}).Set(n)
			drainE(c.Edges(dir))
			drainE(c.EdgesWith(dir, l))
			drainN(c.Nodes(dir))
			drainN(c.NodesWith(dir, l))
		}
	}
	zz.Readers(f, w.g, labels, q)
}

// Pattern queries only read; the pattern and the given symbols can be shared.
//
//sym:quick n=2 m=1 race
//sym:thorough n=2 m=2 race
func H_C32_patterns() {
	w := newWorld()
	for i := 0; i < zz.Param("n"); i++ {
		w.addNode([]string{"A"}, nil)
	}
	w.connect(zz.Param("m"), func() string { return "E" })
	first := symLabels("item", 1)
	node := func() item { return item{min: 1, max: 1} }
	items := someItems(1+2*zz.Choose("hops", 2), node, func() item {
		it := mixed(item{min: 1, max: 1})
		if zz.Bool("labeled") {
			it.labels = []string{"E", "F"}
		}
		if zz.Bool("long") {
			it.max = -1
		}
		return it
	})
	items[0].name = "x"
	items[zz.Choose("labeleditem", 2)*(len(items)-1)].labels = first
	p := pattern(items)
	syms := map[string]*lpg.PatternSymbol{}
	if zz.Bool("given") {
		s := &lpg.PatternSymbol{}
		s.AddNode(w.nodes[0].n)
		syms["x"] = s
	}
	find := zz.Bool("findnodes")
	zz.Readers(func() {
		if find {
			p.FindNodes(w.g, syms)
			return
		}
		if acc, err := p.FindPaths(w.g, syms); err == nil {
			acc.GetHeadNodes()
			acc.GetTailNodes()
		}
		p.GetSymbolNames()
	}, w.g, p, syms)
}

// Path collection, isomorphism checks, copying from a graph, and rendering
// only read.
//
//sym:quick n=2 m=1 race
//sym:thorough n=2 m=2 race
func H_C32_algorithms() {
	w := shared(4)
	n := w.nodes[w.pickNode("query.node")].n
	dir := lpg.EdgeDir(zz.Choose("query.dir", 3))
	var f func()
	switch zz.Choose("query", 5) {
	case 0:
		f = func() {
			lpg.CollectAllPaths(w.g, n, n.GetEdges(dir), func(*lpg.Edge) bool { return true }, dir, 1, -1, func(*lpg.Path) bool { return true })
		}
	case 1:
		f = func() {
			lpg.CheckIsomorphism(context.Background(), w.g, w.g, func(a, b *lpg.Node) bool { return true }, func(a, b *lpg.Edge) bool { return true })
		}
	case 2:
		f = func() {
			lpg.CopyGraph(w.g, lpg.NewGraph(), func(_ string, v any) any { return v })
		}
	case 3:
		f = func() {
			lpg.CopySubgraph(n, lpg.NewGraph(), func(_ string, v any) any { return v }, map[*lpg.Node]*lpg.Node{})
		}
	case 4:
		f = func() { lpg.DOTRenderer{}.Render(w.g, "g", &sink{}) }
	}
	zz.Readers(f, w.g)
}

// Edge lookups with several edges and labels per node.
//
//sym:quick n=2 m=3 race
//sym:thorough n=2 m=4 race
func H_C32_edges() {
	w := newWorld()
	someNodes(w, zz.Param("n"))
	w.connect(zz.Param("m"), func() string { return symLabel("label") })
	if zz.Bool("removed") {
		w.removeEdge(w.pickEdge("op.edge"))
	}
	n := w.nodes[w.pickNode("query.node")].n
	l, l2 := symLabel("query.label"), symLabel("query.label")
	labels := lpg.NewStringSet(l, l2)
	dir := lpg.EdgeDir(zz.Choose("query.dir", 3))
	var f func()
	switch zz.Choose("query", 4) {
	case 0:
		f = func() { drainE(n.GetEdges(dir)) }
	case 1:
		f = func() { drainE(n.GetEdgesWithLabel(dir, l)) }
	case 2:
		f = func() { drainE(n.GetEdgesWithAnyLabel(dir, labels)) }
	case 3:
		f = func() { drainE(w.g.GetEdgesWithAnyLabel(labels)); drainE(w.g.GetEdges()) }
	}
	zz.Readers(f, w.g, labels)
}

// Encoding and text forms only read.
//
//sym:quick n=2 m=2 race
//sym:thorough n=3 m=2 race
func H_C32_encode() {
	w := newWorld()
	for i := 0; i < zz.Param("n"); i++ {
		w.addNode(symLabels("labels", 1), map[string]any{"p": "v", "q": []any{1, nil}})
	}
	w.connect(zz.Param("m"), func() string { return symLabel("label") })
	if zz.Bool("removed") {
		w.removeEdge(w.pickEdge("op.edge"))
	}
	j := lpg.JSON{}
	if zz.Bool("marshaler") {
		j.PropertyMarshaler = func(k string, v any) (string, json.RawMessage, error) { return k, json.RawMessage("1"), nil }
	}
	f := func() { j.Encode(w.g, &sink{}) }
	if zz.Bool("text") {
		f = func() {
			for it := w.g.GetNodes(); it.Next(); {
				_ = it.Node().String()
			}
			for it := w.g.GetEdges(); it.Next(); {
				_ = it.Edge().String()
			}
		}
	}
	zz.Readers(f, w.g)
}

// A larger graph: whatever is built lazily or moved on access only with
// several labels, edges or values.
//
//sym:quick n=4 m=5 race
//sym:thorough n=8 m=14 race
func H_C32_big() {
	w := newWorld()
	w.bigIndexes()
	w.bigGraph(zz.Param("n"), zz.Param("m"))
	if zz.Bool("removed") {
		w.removeNode(w.pickNode("op.node"))
	}
	n := w.nodes[w.pickNode("query.node")].n
	l := symLabel("query.label")
	labels := lpg.NewStringSet(l, "E")
	v, _ := symScalar("query.value", false, 0)
	props := map[string]any{[]string{"p", "q"}[zz.Choose("query.key", 2)]: v}
	dir := lpg.EdgeDir(zz.Choose("query.dir", 3))
	it := lpg.PatternItem{Labels: labels, Min: 1, Max: 1, Undirected: zz.Bool("undirected")}
	p := lpg.Pattern{{}, it, {Properties: props, Name: "x"}, {Min: 1, Max: 2}, {}}
	var f func()
	switch zz.Choose("query", 6) {
	case 0:
		f = func() { drainN(w.g.FindNodes(labels, props)); drainE(w.g.FindEdges(labels, props)) }
	case 1:
		f = func() {
			drainN(w.g.GetNodesWithAllLabels(labels))
			drainE(w.g.GetEdgesWithAnyLabel(labels))
			drainN(w.g.GetNodesWithProperty("p"))
			drainE(w.g.GetEdgesWithProperty("q"))
		}
	case 2:
		f = func() {
			drainE(n.GetEdges(dir))
			drainE(n.GetEdgesWithLabel(dir, l))
			drainE(n.GetEdgesWithAnyLabel(dir, labels))
		}
	case 3:
		f = func() { p.FindPaths(w.g, map[string]*lpg.PatternSymbol{}) }
	case 4:
		f = func() {
			lpg.Sources(w.g)
			lpg.Sinks(w.g)
			lpg.NextNodesWith(n, l)
			lpg.PrevNodesWith(n, l)
			lpg.EdgesBetweenNodes(n, n)
		}
	case 5:
		f = func() {
			_ = n.String()
			lpg.CopySubgraph(n, lpg.NewGraph(), bump, map[*lpg.Node]*lpg.Node{})
			lpg.GetNodeFilterFunc(labels, props)(n)
		}
	}
	zz.Readers(f, w.g, p, labels, props)
}
