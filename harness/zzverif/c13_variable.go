package zzverif

import zz "github.com/cloudprivacylabs/lpg/v2/zzsym"

// One variable length edge between labeled nodes.
//
//sym:quick n=2 m=3 b=2
//sym:thorough n=3 m=3 b=3
func H_C13_one() {
	w := newWorld()
	for i := 0; i < zz.Param("n"); i++ {
		w.addNode([]string{symLabel("node")}, nil)
	}
	w.connect(zz.Param("m"), func() string { return "E" })
	w.checkPattern(someItems(1, func() item { return labeledItem(1) }, func() item { return mixed(bounds(item{}, zz.Param("b"))) }))
}

// Every hop satisfies the labels.
//
//sym:quick n=2 m=3 b=2
//sym:thorough n=3 m=3 b=3
func H_C13_labels() {
	w := newWorld()
	for i := 0; i < zz.Param("n"); i++ {
		l := "X"
		if i == 0 {
			l = "A"
		}
		w.addNode([]string{l}, nil)
	}
	w.connect(zz.Param("m"), func() string { return symLabel("edge") })
	items := someItems(1, func() item { return item{} }, func() item {
		it := mixed(bounds(item{}, zz.Param("b")))
		it.labels = []string{symLabel("item")}
		return it
	})
	if at := zz.Choose("at", 3); at != 1 {
		items[at].labels = []string{"A"}
	}
	w.checkPattern(items)
}

// Every hop satisfies the properties.
//
//sym:quick n=2 m=2
//sym:thorough n=2 m=3
func H_C13_props() {
	w := newWorld()
	if zz.Choose("index", 2) == 1 {
		w.g.AddEdgePropertyIndex("p", indexType("index"))
	}
	someNodes(w, zz.Param("n"))
	for i := 0; i < zz.Param("m"); i++ {
		props, pv := someProp("edge")
		w.addEdge(zz.Choose("from", zz.Param("n")), zz.Choose("to", zz.Param("n")), symLabel("edge"), props).pv = pv
	}
	w.checkPattern(someItems(1, func() item { return item{} }, func() item { return mixed(bounds(propItem(), 2)) }))
}

// A variable length edge together with a single edge, with the plan starting
// at any element.
//
//sym:quick n=2 m=2 b=2
//sym:thorough n=2 m=3 b=3
func H_C13_two() {
	w := newWorld()
	for i := 0; i < zz.Param("n"); i++ {
		l := "X"
		if i == 0 {
			l = "A"
		}
		w.addNode([]string{l}, nil)
	}
	w.connect(zz.Param("m"), func() string { return symLabel("edge") })
	at := zz.Choose("variable", 2)
	k := 0
	items := someItems(2, func() item { return item{} }, func() item {
		it := item{min: 1, max: 1}
		if k == at {
			it = bounds(item{}, zz.Param("b"))
		}
		k++
		return mixed(it)
	})
	items[3-2*at].labels = []string{symLabel("item")}
	syms := w.anchored(items)
	w.checkPatternWith(items, syms)
}

// Two variable length edges.
//
//sym:quick n=2 m=2
//sym:thorough n=2 m=3
func H_C13_chain() {
	w := newWorld()
	for i := 0; i < zz.Param("n"); i++ {
		l := "X"
		if i == 0 {
			l = "A"
		}
		w.addNode([]string{l}, nil)
	}
	w.connect(zz.Param("m"), func() string { return symLabel("edge") })
	items := someItems(2, func() item { return item{} }, func() item { return mixed(item{min: 1, max: -1}) })
	at := 2*zz.Choose("bounded", 2) + 1
	items[at] = bounds(items[at], 2)
	items[2*zz.Choose("at", 3)].labels = []string{"A"}
	items[at].labels = []string{symLabel("item")}
	w.checkPattern(items)
}

// A row of nodes and a shortcut: long trails.
//
//sym:quick n=5
//sym:thorough n=8
func H_C13_long() {
	w := newWorld()
	n := zz.Param("n")
	w.chain(n, "E")
	w.addEdge(zz.Choose("from", n), zz.Choose("to", n), symLabel("shortcut"), nil)
	it := item{left: zz.Bool("left"), undir: zz.Bool("undirected")}
	zz.Assume(!(it.left && it.undir))
	it.max = []int{-1, n - 2, n - 1, n + 3}[zz.Choose("max", 4)]
	it.min = []int{-1, 1, n - 2, n - 1}[zz.Choose("min", 4)]
	zz.Assume(it.max == -1 || it.min <= it.max)
	if zz.Bool("labeled") {
		it.labels = []string{"E"}
	}
	items := []item{{}, it, {}}
	var syms map[string]symbol
	if zz.Bool("anchored") {
		at := 2 * zz.Choose("at", 2)
		items[at].name = "s"
		syms = map[string]symbol{"s": {nodes: map[int]bool{[]int{0, n / 2}[zz.Choose("symbol", 2)]: true}}}
	}
	w.checkPatternWith(items, syms)
}
