package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

func (w *world) labeledPropNode(maxLabels int) {
	l := symLabels("node.labels", maxLabels)
	props, pv := twoProps("node")
	w.addNode(l, props).pv = pv
}

func (w *world) checkFindNodes(q []string, props map[string]any, pv map[string]mval) {
	got := itNodes(w.g.FindNodes(lpg.NewStringSet(q...), props), w.lim())
	w.sameNodes(got, func(i int, n *mNode) bool { return zz.And(allIn(q, n.labels), allMatch(n.pv, pv)) }, "FindNodes")
}

// Every label set, property set and index configuration.
//
//sym:quick n=2 l=1 q=2
//sym:thorough n=2 l=2 q=2
func H_C08_find() {
	w := newWorld()
	indexConfig("index", w.g.AddNodePropertyIndex)
	for i := 0; i < zz.Param("n"); i++ {
		w.labeledPropNode(zz.Param("l"))
	}
	props, pv := twoProps("query")
	w.checkFindNodes(symLabels("query.labels", zz.Param("q")), props, pv)
}

// More nodes, so that either the label or one of the property indexes is the
// smallest.
//
//sym:quick n=3 q=1
//sym:thorough n=4 q=1
func H_C08_smallest() {
	w := newWorld()
	indexConfig("index", w.g.AddNodePropertyIndex)
	for i := 0; i < zz.Param("n"); i++ {
		p, mp := symScalar("node.p", false, 1)
		l := []string{symLabel("node.label")}
		w.addNode(l, map[string]any{"p": p, "q": "c"}).pv = map[string]mval{"p": mp, "q": {kind: 1, s: "c"}}
	}
	p, mp := symScalar("query.p", false, 1)
	q, mq := symScalar("query.q", true, 1)
	w.checkFindNodes(symLabels("query.labels", zz.Param("q")), map[string]any{"p": p, "q": q}, map[string]mval{"p": mp, "q": mq})
}

// After relabelings, property changes and removals.
//
//sym:quick n=2 k=2
//sym:thorough n=3 k=3
func H_C08_history() {
	w := newWorld()
	w.g.AddNodePropertyIndex("p", indexType("index"))
	for i := 0; i < zz.Param("n"); i++ {
		p, mp := symScalar("node.p", false, 1)
		w.addNode([]string{symLabel("node.label")}, map[string]any{"p": p}).pv["p"] = mp
	}
	for s := 0; s < zz.Param("k"); s++ {
		i := w.pickNode("op.node")
		switch zz.Choose("op", 4) {
		case 0:
			w.setLabels(i, symLabels("op.labels", 2))
		case 1:
			v, m := symScalar("op.p", false, 1)
			w.setNodeProp(i, "p", v, m)
		case 2:
			w.removeNodeProp(i, "p")
		case 3:
			w.removeNode(i)
		}
	}
	props, pv := map[string]any{}, map[string]mval{}
	if zz.Choose("query.byp", 2) == 1 {
		v, m := symScalar("query.p", false, 1)
		props["p"], pv["p"] = v, m
	}
	w.checkFindNodes(symLabels("query.labels", 1), props, pv)
}

// The filter function accepts the nodes FindNodes would return.
//
//sym:quick l=2 q=2
//sym:thorough l=3 q=3
func H_C08_filter() {
	w := newWorld()
	w.labeledPropNode(zz.Param("l"))
	props, pv := twoProps("query")
	q := symLabels("query.labels", zz.Param("q"))
	n := w.nodes[0]
	got := lpg.GetNodeFilterFunc(lpg.NewStringSet(q...), props)(n.n)
	zz.Assert(zz.Iff(got, zz.And(allIn(q, n.labels), allMatch(n.pv, pv))), "GetNodeFilterFunc")
}

// A query that lists a nil value next to other values: whatever nil matches,
// every answer carries the labels, the other values, and no value for the
// key queried with nil. All orders of visiting the queried properties.
//
//sym:quick l=1 q=1
//sym:thorough l=2 q=2
func H_C08_nil() {
	w := newWorld()
	indexConfig("index", w.g.AddNodePropertyIndex)
	w.labeledPropNode(zz.Param("l"))
	n := w.nodes[0]
	q := symLabels("query.labels", zz.Param("q"))
	v, m := symScalar("query.q", true, 1)
	props := map[string]any{"p": nil, "q": v}
	ok := zz.And(allIn(q, n.labels), matches(n.pv, "q", m), !has(n.pv, "p"))
	got := itNodes(w.g.FindNodes(lpg.NewStringSet(q...), props), w.lim())
	zz.Assert(zz.And(len(got) <= 1, zz.Or(len(got) == 0, ok)), "FindNodes with nil")
	zz.Assert(zz.Implies(lpg.GetNodeFilterFunc(lpg.NewStringSet(q...), props)(n.n), ok), "GetNodeFilterFunc with nil")
}

// Values of every kind, lists included, with and without an index, against
// queries of every kind; the query is only read.
//
//sym:quick l=2
//sym:thorough l=3
func H_C08_values() {
	w := newWorld()
	kinds := []int{kInt, kString, kInts, kStrings, kAnys, kNativeInt, kNativeInts, kNested}
	switch zz.Choose("index", 3) {
	case 1:
		w.g.AddNodePropertyIndex("p", lpg.HashIndex)
	case 2:
		w.g.AddNodePropertyIndex("q", lpg.BtreeIndex)
	}
	v, m := symOf("node.p", kinds)
	n := w.addNode([]string{"A"}, map[string]any{"p": v, "q": 1})
	n.pv = map[string]mval{"p": m, "q": {kind: 0, i: 1}}
	v, m = symOf("query.p", kinds)
	props, pv := map[string]any{"p": v}, map[string]mval{"p": m}
	if zz.Bool("query.both") {
		v, m = symScalar("query.q", false, 0)
		props["q"], pv["q"] = v, m
	}
	var q []string
	if zz.Bool("query.labeled") {
		q = []string{symLabel("query.label")}
	}
	w.checkFindNodes(q, props, pv)
	got := lpg.GetNodeFilterFunc(lpg.NewStringSet(q...), props)(n.n)
	zz.Assert(zz.Iff(got, zz.And(allIn(q, n.labels), allMatch(n.pv, pv))), "GetNodeFilterFunc")
	zz.Assert(len(props) == len(pv), "query")
}

// More nodes, labels and values.
//
//sym:quick n=9 q=2
//sym:thorough n=12 q=3
func H_C08_big() {
	w := newWorld()
	w.bigIndexes()
	w.bigGraph(zz.Param("n"), 3)
	props, pv := map[string]any{}, map[string]mval{}
	for _, k := range []string{"p", "q"} {
		if zz.Bool("query.has") {
			props[k], pv[k] = symScalar("query", false, 0)
		}
	}
	w.checkFindNodes(symLabels("query.labels", zz.Param("q")), props, pv)
}
