package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

// checkAllOf asserts structure, values and lookups of a graph.
func (w *world) checkAllOf(id string) {
	w.checkStructure(id)
	w.checkValues(id)
	w.checkLabel(symLabel(id + ".query"))
}

func changeMap(m map[string]any) {
	if m == nil {
		return
	}
	switch zz.Choose("change", 3) {
	case 0:
		m["p"] = zz.AnyInt("change.value")
	case 1:
		delete(m, "p")
	case 2:
		m["other"] = 1
	}
}

// Inputs changed after creating nodes and edges.
//
//sym:both
func H_C25_inputs() {
	w := newWorld()
	labels := symLabels("labels", 2)
	v, mv := symScalar("p", false, 0)
	props := map[string]any{"p": v}
	n := w.addNode(append([]string{}, labels...), nil) // model keeps its own copy
	given := append([]string{}, labels...)
	x := w.g.NewNode(given, props)
	w.nodes = append(w.nodes, &mNode{n: x, labels: labels, pv: map[string]mval{"p": mv}, alive: true})
	_ = n
	ve, me := symScalar("edge.p", false, 0)
	eprops := map[string]any{"p": ve}
	w.edges = append(w.edges, &mEdge{e: w.g.NewEdge(w.nodes[0].n, x, "E", eprops), f: 0, t: 1, label: "E", pv: map[string]mval{"p": me}, alive: true})
	switch zz.Choose("which", 3) {
	case 0:
		changeMap(props)
	case 1:
		changeMap(eprops)
	case 2:
		zz.Assume(len(given) > 0)
		given[zz.Choose("given", len(given))] = symLabel("changed")
	}
	w.checkAllOf("after")
}

// changeSet modifies a label set through its methods.
func changeSet(s *lpg.StringSet) {
	l := symLabel("changed")
	switch zz.Choose("change", 4) {
	case 0:
		s.Add(l)
	case 1:
		s.Remove(l)
	case 2:
		s.AddSet(lpg.NewStringSet(l, "K"))
	case 3:
		*s = lpg.NewStringSet(l)
	}
}

// Returned and given label sets changed later.
//
//sym:both
func H_C25_labelsets() {
	w := newWorld()
	labels := symLabels("labels", 2)
	w.addNode(labels, nil)
	w.addNode([]string{"O"}, nil)
	n := w.nodes[0].n
	switch zz.Choose("which", 3) {
	case 0:
		s := n.GetLabels()
		changeSet(&s)
	case 1:
		s := lpg.NewStringSet(symLabels("set", 2)...)
		w.nodes[0].labels = s.Slice()
		n.SetLabels(s)
		changeSet(&s)
	case 2:
		// the labels of one node given to another
		w.nodes[1].n.SetLabels(n.GetLabels())
		w.nodes[1].labels = labels
		l := symLabels("later", 2)
		w.setLabels(0, l)
	}
	w.checkAllOf("after")
}

// Nodes of another graph cannot be connected; both graphs stay as they were.
//
//sym:both m=1
func H_C25_foreign() {
	a, b := newWorld(), newWorld()
	a.someGraph(2, zz.Param("m"))
	b.someGraph(1, zz.Param("m"))
	ix := indexType("index")
	a.g.AddEdgePropertyIndex("p", ix)
	b.g.AddEdgePropertyIndex("p", ix)
	x, y := a.nodes[0].n, a.nodes[1].n
	switch zz.Choose("which", 3) {
	case 0:
		y = b.nodes[0].n
	case 1:
		x = b.nodes[0].n
	case 2:
		x, y = b.nodes[0].n, b.nodes[0].n
	}
	v := zz.AnyInt("new.p")
	fast := zz.Choose("fast", 2) == 1
	zz.Assert(zz.Panics(func() {
		if fast {
			a.g.FastNewEdge(x, y, "N", map[string]any{"p": v})
		} else {
			a.g.NewEdge(x, y, "N", map[string]any{"p": v})
		}
	}), "foreign node panics")
	a.checkAllOf("first")
	b.checkAllOf("second")
	q, mq := symScalar("query", false, 0)
	a.checkEdgeIndex(q, mq)
	b.checkEdgeIndex(q, mq)
}

// Mutations of one graph do not show in another.
//
//sym:quick k=1 m=1
//sym:thorough k=2 m=2
func H_C25_graphs() {
	a, b := newWorld(), newWorld()
	a.someGraph(1, zz.Param("m"))
	b.someGraph(1, zz.Param("m"))
	for s := 0; s < zz.Param("k"); s++ {
		a.mutate()
	}
	a.checkAllOf("first")
	b.checkAllOf("second")
}
