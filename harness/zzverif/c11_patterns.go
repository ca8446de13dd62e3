package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

func one(f func(max int) item, max int) func() item { return func() item { return f(max) } }

// One edge, every labeling of the graph and the pattern.
//
//sym:quick n=2 m=3
//sym:thorough n=3 m=3
func H_C11_one() {
	w := newWorld()
	for i := 0; i < zz.Param("n"); i++ {
		w.addNode([]string{symLabel("node")}, nil)
	}
	w.connect(zz.Param("m"), func() string { return symLabel("edge") })
	w.checkPattern(someItems(1, one(labeledItem, 1), func() item { return directed(labeledItem(1)) }))
}

// Two edges.
//
//sym:quick n=2 m=2
//sym:thorough n=2 m=3
func H_C11_two() {
	w := newWorld()
	for i := 0; i < zz.Param("n"); i++ {
		w.addNode([]string{symLabel("node")}, nil)
	}
	w.connect(zz.Param("m"), func() string { return symLabel("edge") })
	w.checkPattern(someItems(2, one(labeledItem, 1), func() item { return directed(labeledItem(1)) }))
}

// Longer patterns, with the search starting at any element.
//
//sym:quick n=2 m=2 k=3
//sym:thorough n=3 m=3 k=3
func H_C11_long() {
	w := newWorld()
	for i := 0; i < zz.Param("n"); i++ {
		w.addNode([]string{symLabel("node")}, nil)
	}
	w.connect(zz.Param("m"), func() string { return symLabel("edge") })
	k := zz.Param("k")
	items := someItems(k, func() item { return item{} }, func() item { return directed(item{min: 1, max: 1}) })
	items[zz.Choose("labeled", 2*k+1)].labels = []string{symLabel("item")}
	w.checkPatternWith(items, w.anchored(items))
}

// The search starts at the first edge, as there are fewer edges than nodes.
//
//sym:quick n=3 m=2
//sym:thorough n=4 m=3
func H_C11_edges() {
	w := newWorld()
	for i := 0; i < zz.Param("n"); i++ {
		w.addNode([]string{symLabel("node")}, nil)
	}
	w.connect(zz.Param("m"), func() string { return "E" })
	items := someItems(2, func() item { return item{} }, func() item { return directed(item{min: 1, max: 1}) })
	items[2*zz.Choose("labeled", 3)].labels = []string{symLabel("item")}
	w.checkPattern(items)
}

// Nodes with several labels, and a pattern item with several labels.
//
//sym:quick n=2 m=2
//sym:thorough n=2 m=3
func H_C11_labels() {
	w := newWorld()
	for i := 0; i < zz.Param("n"); i++ {
		w.addNode(symLabels("node", 2), nil)
	}
	w.connect(zz.Param("m"), func() string { return symLabel("edge") })
	items := someItems(1, func() item { return item{} }, func() item { return directed(item{min: 1, max: 1}) })
	items[zz.Choose("at", len(items))].labels = symLabels("item", 2)
	w.checkPattern(items)
}

// A single node.
//
//sym:quick n=2
//sym:thorough n=3
func H_C11_node() {
	w := newWorld()
	indexConfig("index", w.g.AddNodePropertyIndex)
	for i := 0; i < zz.Param("n"); i++ {
		props, pv := twoProps("node")
		w.addNode(symLabels("node", 1), props).pv = pv
	}
	it := item{labels: symLabels("item", 1)}
	it.props, it.pv = twoProps("item")
	w.checkPattern([]item{it})
}

// Properties of nodes and edges, with every index configuration.
//
//sym:quick n=2 m=2
//sym:thorough n=2 m=3
func H_C11_props() {
	w := newWorld()
	if zz.Choose("node index", 2) == 1 {
		w.g.AddNodePropertyIndex("p", indexType("node index"))
	}
	if zz.Choose("edge index", 2) == 1 {
		w.g.AddEdgePropertyIndex("p", indexType("edge index"))
	}
	for i := 0; i < zz.Param("n"); i++ {
		props, pv := someProp("node")
		w.addNode([]string{"N"}, props).pv = pv
	}
	for i := 0; i < zz.Param("m"); i++ {
		props, pv := someProp("edge")
		w.addEdge(i%2, 1, symLabel("edge"), props).pv = pv
	}
	w.checkPattern(someItems(1, propItem, func() item { return directed(propItem()) }))
}

// The nodes at the start of a match.
//
//sym:quick n=2 m=2
//sym:thorough n=3 m=2
func H_C11_findnodes() {
	w := newWorld()
	for i := 0; i < zz.Param("n"); i++ {
		w.addNode([]string{symLabel("node")}, nil)
	}
	w.connect(zz.Choose("edges", zz.Param("m")+1), func() string { return symLabel("edge") })
	items := someItems(zz.Choose("hops", 2), func() item { return item{} }, func() item { return directed(item{min: 1, max: 1}) })
	items[zz.Choose("labeled", len(items))].labels = []string{symLabel("item")}
	w.checkFindNodesOf(items)
}

// Longer patterns on a larger graph, with two rarer elements anywhere.
//
//sym:quick n=5 m=6 k=3
//sym:thorough n=6 m=9 k=5
func H_C11_big() {
	w := newWorld()
	w.bigGraph(zz.Param("n"), zz.Param("m"))
	if zz.Bool("indexed") {
		w.g.AddNodePropertyIndex("q", lpg.BtreeIndex)
		w.g.AddEdgePropertyIndex("p", lpg.HashIndex)
	}
	k := zz.Param("k")
	it := directed(item{min: 1, max: 1})
	items := someItems(k, func() item { return item{min: 1, max: 1} }, func() item { return it })
	items[1].left = zz.Bool("first.left")
	at := zz.Choose("at", 2*k+1)
	items[at].labels = []string{symLabel("item.label")}
	v, m := symScalar("item.value", false, 0)
	key := []string{"p", "q"}[zz.Choose("item.key", 2)]
	at = zz.Choose("value at", k+1) * 2
	items[at].props, items[at].pv = map[string]any{key: v}, map[string]mval{key: m}
	w.checkPattern(items)
}
