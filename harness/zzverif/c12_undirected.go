package zzverif

import zz "github.com/cloudprivacylabs/lpg/v2/zzsym"

// undirected returns items with at least one edge without direction.
func undirected(items []item) []item {
	any := false
	for i := 1; i < len(items); i += 2 {
		any = any || items[i].undir
	}
	zz.Assume(any)
	return items
}

// One undirected edge, every labeling.
//
//sym:quick n=2 m=3
//sym:thorough n=3 m=3
func H_C12_one() {
	w := newWorld()
	for i := 0; i < zz.Param("n"); i++ {
		w.addNode([]string{symLabel("node")}, nil)
	}
	w.connect(zz.Param("m"), func() string { return symLabel("edge") })
	w.checkPattern(someItems(1, func() item { return labeledItem(1) }, func() item {
		it := labeledItem(1)
		it.undir = true
		return it
	}))
}

// Two edges of any kind.
//
//sym:quick n=2 m=2
//sym:thorough n=2 m=3
func H_C12_two() {
	w := newWorld()
	for i := 0; i < zz.Param("n"); i++ {
		w.addNode([]string{symLabel("node")}, nil)
	}
	w.connect(zz.Param("m"), func() string { return symLabel("edge") })
	items := undirected(someItems(2, func() item { return item{} }, func() item { return mixed(item{min: 1, max: 1}) }))
	items[zz.Choose("at", 3)*2].labels = []string{symLabel("item")}
	items[1].labels = symLabels("item", 1)
	items[3].labels = symLabels("item", 1)
	w.checkPattern(items)
}

// Longer patterns, with the search starting at any element.
//
//sym:quick n=2 m=2 k=3
//sym:thorough n=3 m=3 k=3
func H_C12_long() {
	w := newWorld()
	for i := 0; i < zz.Param("n"); i++ {
		w.addNode([]string{"N"}, nil)
	}
	w.connect(zz.Param("m"), func() string { return symLabel("edge") })
	k := zz.Param("k")
	items := undirected(someItems(k, func() item { return item{} }, func() item { return mixed(item{min: 1, max: 1}) }))
	items[2*zz.Choose("labeled", k)+1].labels = []string{symLabel("item")}
	w.checkPatternWith(items, w.anchored(items))
}

// The search starts at the first edge, as there are fewer edges than nodes.
//
//sym:quick n=3 m=2
//sym:thorough n=4 m=3
func H_C12_edges() {
	w := newWorld()
	for i := 0; i < zz.Param("n"); i++ {
		w.addNode([]string{symLabel("node")}, nil)
	}
	w.connect(zz.Param("m"), func() string { return "E" })
	items := undirected(someItems(2, func() item { return item{} }, func() item { return mixed(item{min: 1, max: 1}) }))
	items[2*zz.Choose("labeled", 3)].labels = []string{symLabel("item")}
	w.checkPattern(items)
}

// Edges with several alternative labels, and edge properties, indexed or not.
//
//sym:quick n=2 m=2
//sym:thorough n=3 m=2
func H_C12_props() {
	w := newWorld()
	if zz.Choose("index", 2) == 1 {
		w.g.AddEdgePropertyIndex("p", indexType("index"))
	}
	someNodes(w, zz.Param("n"))
	for i := 0; i < zz.Param("m"); i++ {
		props, pv := someProp("edge")
		w.addEdge(i%2, zz.Choose("to", zz.Param("n")), symLabel("edge"), props).pv = pv
	}
	w.checkPattern(someItems(1, func() item { return item{} }, func() item {
		it := propItem()
		it.undir = true
		it.labels = symLabels("item", 2)
		return it
	}))
}

// Longer patterns of undirected edges on a larger graph.
//
//sym:quick n=5 m=6 k=2
//sym:thorough n=6 m=7 k=4
func H_C12_big() {
	w := newWorld()
	w.bigGraph(zz.Param("n"), zz.Param("m"))
	k := zz.Param("k")
	items := someItems(k, func() item { return item{min: 1, max: 1} }, func() item { return item{min: 1, max: 1, undir: true} })
	if d := 2*zz.Choose("directed", k) + 1; zz.Bool("mixed") {
		items[d].undir = false
		items[d].left = zz.Bool("left")
	}
	items[zz.Choose("at", 2*k+1)].labels = []string{symLabel("item.label")}
	items[2*zz.Choose("other", k+1)].labels = []string{"E"}
	w.checkPattern(items)
}
