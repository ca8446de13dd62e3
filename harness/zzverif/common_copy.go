package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

// someGraph builds a graph of exactly n nodes and at most m edges with
// symbolic connectivity, labels and values.
func (w *world) someGraph(n, m int) {
	for i := 0; i < n; i++ {
		w.valueNode(symLabel("node.label"))
	}
	k := zz.Choose("m", m+1)
	for i := 0; i < k; i++ {
		w.valueEdge(zz.Choose("from", n), zz.Choose("to", n), symLabel("edge.label"))
	}
}

// bump is a property transformation that shows in the values.
func bump(k string, v any) any {
	if i, ok := v.(int); ok && k == "p" {
		return i + 1
	}
	return v
}

func bumped(pv map[string]mval) map[string]mval {
	r := map[string]mval{}
	for k, m := range pv {
		if k == "p" && m.kind == 0 {
			m.i = m.i + 1
		}
		r[k] = m
	}
	return r
}

// copied extends the model of a target graph by the copy of a node.
func (w *world) copied(n *lpg.Node, src *mNode) *mNode {
	c := &mNode{n: n, labels: src.labels, pv: bumped(src.pv), alive: true}
	w.nodes = append(w.nodes, c)
	return c
}

func (w *world) indexOf(n *lpg.Node) int {
	for i, x := range w.nodes {
		if x.n == n {
			return i
		}
	}
	return -1
}

// copiedEdges asserts that the target graph has, besides the edges already
// in its model, exactly one copy of each of the given source edges (label,
// end points through the node map, transformed properties), and adds those
// copies to the model.
func (t *world) copiedEdges(s *world, want []*mEdge, m map[*lpg.Node]*lpg.Node, id string) {
	var fresh []*lpg.Edge
	for _, e := range itEdges(t.g.GetEdges(), t.lim()+2*len(want)) {
		known := false
		for _, x := range t.edges {
			known = known || x.e == e
		}
		if !known {
			fresh = append(fresh, e)
		}
	}
	zz.Assert(len(fresh) == len(want), id+".number")
	// every way of assigning the new edges to the source edges
	used := make([]bool, len(fresh))
	as := make([]int, len(want))
	ok := false
	var rec func(i int, c bool)
	rec = func(i int, c bool) {
		if i == len(want) {
			ok = zz.Or(ok, c)
			return
		}
		e := want[i]
		for j, f := range fresh {
			if used[j] || f.GetFrom() != m[s.nodes[e.f].n] || f.GetTo() != m[s.nodes[e.t].n] {
				continue
			}
			pv := bumped(e.pv)
			x := f.GetLabel() == e.label
			n := 0
			f.ForEachProperty(func(k string, v any) bool {
				n++
				mv, has := pv[k]
				x = zz.And(x, has, isValue(v, mv))
				return true
			})
			x = zz.And(x, n == len(pv))
			used[j] = true
			as[i] = j
			rec(i+1, zz.And(c, x))
			used[j] = false
		}
	}
	rec(0, true)
	zz.Assert(ok, id)
	// creation order need not be the source order: identify the copies by
	// their contents
	for _, f := range fresh {
		pv := map[string]mval{}
		f.ForEachProperty(func(k string, v any) bool {
			if i, ok := v.(int); ok {
				pv[k] = mval{i: i}
			}
			return true
		})
		t.edges = append(t.edges, &mEdge{e: f, f: t.indexOf(f.GetFrom()), t: t.indexOf(f.GetTo()), label: f.GetLabel(), pv: pv, alive: true})
	}
}

func (w *world) checkBoth(id string) {
	w.checkStructure(id)
	w.checkValues(id)
}

// mutate performs one mutation of the graph.
func (w *world) mutate() {
	switch zz.Choose("op", 7) {
	case 0:
		w.setLabels(w.pickNode("op.node"), symLabels("op.labels", 1))
	case 1:
		v, m := symScalar("op.p", false, 1)
		w.setNodeProp(w.pickNode("op.node"), "p", v, m)
	case 2:
		w.removeNodeProp(w.pickNode("op.node"), "p")
	case 3:
		w.removeNode(w.pickNode("op.node"))
	case 4:
		v, m := symScalar("op.p", false, 1)
		w.setEdgeProp(w.pickEdge("op.edge"), "p", v, m)
	case 5:
		w.removeEdge(w.pickEdge("op.edge"))
	case 6:
		w.setEdgeLabel(w.pickEdge("op.edge"), symLabel("op.label"))
	}
}

func (w *world) checkLabel(l string) {
	got := itNodes(w.g.GetNodesWithAllLabels(lpg.NewStringSet(l)), w.lim())
	w.sameNodes(got, func(i int, n *mNode) bool { return inList(l, n.labels) }, "GetNodesWithAllLabels")
	gote := itEdges(w.g.GetEdgesWithAnyLabel(lpg.NewStringSet(l)), w.lim())
	w.sameEdges(gote, func(i int, e *mEdge) bool { return e.label == l }, "GetEdgesWithAnyLabel")
}
