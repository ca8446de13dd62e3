package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

func (w *world) checkFindEdges(q []string, props map[string]any, pv map[string]mval) {
	got := itEdges(w.g.FindEdges(lpg.NewStringSet(q...), props), w.lim())
	w.sameEdges(got, func(i int, e *mEdge) bool {
		l := len(q) == 0
		return zz.And(zz.Or(l, inList(e.label, q)), allMatch(e.pv, pv))
	}, "FindEdges")
}

// Every label set, property set and index configuration.
//
//sym:quick n=2 q=2
//sym:thorough n=3 q=2
func H_C09_find() {
	w := newWorld()
	someNodes(w, 2)
	indexConfig("index", w.g.AddEdgePropertyIndex)
	m := zz.Choose("m", zz.Param("n")+1)
	for i := 0; i < m; i++ {
		props, pv := twoProps("edge")
		w.addEdge(i%2, 1, symLabel("edge.label"), props).pv = pv
	}
	props, pv := twoProps("query")
	w.checkFindEdges(symLabels("query.labels", zz.Param("q")), props, pv)
}

// More edges, so that either the label or one of the property indexes is the
// smallest.
//
//sym:quick n=3 q=1
//sym:thorough n=4 q=1
func H_C09_smallest() {
	w := newWorld()
	someNodes(w, 2)
	indexConfig("index", w.g.AddEdgePropertyIndex)
	for i := 0; i < zz.Param("n"); i++ {
		p, mp := symScalar("edge.p", false, 1)
		w.addEdge(0, i%2, symLabel("edge.label"), map[string]any{"p": p, "q": "c"}).pv = map[string]mval{"p": mp, "q": {kind: 1, s: "c"}}
	}
	p, mp := symScalar("query.p", false, 1)
	q, mq := symScalar("query.q", true, 1)
	w.checkFindEdges(symLabels("query.labels", zz.Param("q")), map[string]any{"p": p, "q": q}, map[string]mval{"p": mp, "q": mq})
}

// After relabelings, property changes and removals.
//
//sym:quick n=2 k=2
//sym:thorough n=3 k=3
func H_C09_history() {
	w := newWorld()
	someNodes(w, 2)
	w.g.AddEdgePropertyIndex("p", indexType("index"))
	for i := 0; i < zz.Param("n"); i++ {
		p, mp := symScalar("edge.p", false, 1)
		w.addEdge(0, i%2, symLabel("edge.label"), map[string]any{"p": p}).pv["p"] = mp
	}
	for s := 0; s < zz.Param("k"); s++ {
		i := w.pickEdge("op.edge")
		switch zz.Choose("op", 5) {
		case 0:
			w.setEdgeLabel(i, symLabel("op.label"))
		case 1:
			v, m := symScalar("op.p", false, 1)
			w.setEdgeProp(i, "p", v, m)
		case 2:
			w.removeEdgeProp(i, "p")
		case 3:
			w.removeEdge(i)
		case 4:
			w.detach(w.pickNode("op.node"))
		}
	}
	props, pv := map[string]any{}, map[string]mval{}
	if zz.Choose("query.byp", 2) == 1 {
		v, m := symScalar("query.p", false, 1)
		props["p"], pv["p"] = v, m
	}
	w.checkFindEdges(symLabels("query.labels", 2), props, pv)
}

// The filter function accepts the edges FindEdges would return.
//
//sym:quick q=2
//sym:thorough q=3
func H_C09_filter() {
	w := newWorld()
	someNodes(w, 1)
	ep, epv := twoProps("edge")
	w.addEdge(0, 0, symLabel("edge.label"), ep).pv = epv
	props, pv := twoProps("query")
	q := symLabels("query.labels", zz.Param("q"))
	e := w.edges[0]
	got := lpg.GetEdgeFilterFunc(lpg.NewStringSet(q...), props)(e.e)
	zz.Assert(zz.Iff(got, zz.And(zz.Or(len(q) == 0, inList(e.label, q)), allMatch(e.pv, pv))), "GetEdgeFilterFunc")
}

// A query that lists a nil value next to other values: whatever nil matches,
// every answer has a queried label, the other values, and no value for the
// key queried with nil. All orders of visiting the queried properties.
//
//sym:quick q=1
//sym:thorough q=2
func H_C09_nil() {
	w := newWorld()
	someNodes(w, 1)
	indexConfig("index", w.g.AddEdgePropertyIndex)
	ep, epv := twoProps("edge")
	w.addEdge(0, 0, symLabel("edge.label"), ep).pv = epv
	e := w.edges[0]
	q := symLabels("query.labels", zz.Param("q"))
	v, m := symScalar("query.q", true, 1)
	props := map[string]any{"p": nil, "q": v}
	ok := zz.And(zz.Or(len(q) == 0, inList(e.label, q)), matches(e.pv, "q", m), !has(e.pv, "p"))
	got := itEdges(w.g.FindEdges(lpg.NewStringSet(q...), props), w.lim())
	zz.Assert(zz.And(len(got) <= 1, zz.Or(len(got) == 0, ok)), "FindEdges with nil")
	zz.Assert(zz.Implies(lpg.GetEdgeFilterFunc(lpg.NewStringSet(q...), props)(e.e), ok), "GetEdgeFilterFunc with nil")
}

// Values of every kind, lists included, with and without an index, against
// queries of every kind; the query is only read.
//
//sym:quick l=2
//sym:thorough l=3
func H_C09_values() {
	w := newWorld()
	someNodes(w, 1)
	kinds := []int{kInt, kString, kInts, kStrings, kAnys, kNativeInt, kNativeInts, kNested}
	switch zz.Choose("index", 3) {
	case 1:
		w.g.AddEdgePropertyIndex("p", lpg.HashIndex)
	case 2:
		w.g.AddEdgePropertyIndex("q", lpg.BtreeIndex)
	}
	v, m := symOf("edge.p", kinds)
	e := w.addEdge(0, 0, "A", map[string]any{"p": v, "q": 1})
	e.pv = map[string]mval{"p": m, "q": {kind: 0, i: 1}}
	v, m = symOf("query.p", kinds)
	props, pv := map[string]any{"p": v}, map[string]mval{"p": m}
	if zz.Bool("query.both") {
		v, m = symScalar("query.q", false, 0)
		props["q"], pv["q"] = v, m
	}
	var q []string
	if zz.Bool("query.labeled") {
		q = []string{symLabel("query.label")}
	}
	w.checkFindEdges(q, props, pv)
	got := lpg.GetEdgeFilterFunc(lpg.NewStringSet(q...), props)(e.e)
	zz.Assert(zz.Iff(got, zz.And(zz.Or(len(q) == 0, inList(e.label, q)), allMatch(e.pv, pv))), "GetEdgeFilterFunc")
	zz.Assert(len(props) == len(pv), "query")
}

// More edges, labels and values.
//
//sym:quick n=12 q=2
//sym:thorough n=16 q=3
func H_C09_big() {
	w := newWorld()
	w.bigIndexes()
	w.bigGraph(4, zz.Param("n"))
	props, pv := map[string]any{}, map[string]mval{}
	for _, k := range []string{"p", "q"} {
		if zz.Bool("query.has") {
			props[k], pv[k] = symScalar("query", false, 0)
		}
	}
	w.checkFindEdges(symLabels("query.labels", zz.Param("q")), props, pv)
}
