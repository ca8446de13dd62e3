package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

// A graph with values, labels and indexes, on which one removal is
// performed; everything else must be as before.

func (w *world) checkAll(id string) {
	w.checkStructure(id)
	w.checkValues(id)
	l := symLabel("query")
	got := itNodes(w.g.GetNodesWithAllLabels(lpg.NewStringSet(l)), w.lim())
	w.sameNodes(got, func(i int, n *mNode) bool { return inList(l, n.labels) }, id+".byLabel")
	gote := itEdges(w.g.GetEdgesWithAnyLabel(lpg.NewStringSet(l)), w.lim())
	w.sameEdges(gote, func(i int, e *mEdge) bool { return e.label == l }, id+".byEdgeLabel")
	got = itNodes(w.g.GetNodesWithProperty("p"), w.lim())
	w.sameNodes(got, func(i int, n *mNode) bool { return has(n.pv, "p") }, id+".withNodeProp")
	gote = itEdges(w.g.GetEdgesWithProperty("p"), w.lim())
	w.sameEdges(gote, func(i int, e *mEdge) bool { return has(e.pv, "p") }, id+".withEdgeProp")
}

func (w *world) remove(i int) {
	switch i {
	case 0:
		w.removeEdge(w.pickEdge("op.edge"))
	case 1:
		w.detach(w.pickNode("op.node"))
	case 2:
		w.removeNode(w.pickNode("op.node"))
	}
}

// One removal (or k) from any small graph.
//
//sym:quick n=2 m=3 k=1
//sym:thorough n=3 m=3 k=2
func H_C05_removal() {
	w := newWorld()
	n := zz.Param("n")
	for i := 0; i < n; i++ {
		w.valueNode(symLabel("node.label"))
	}
	m := zz.Choose("m", zz.Param("m")+1)
	for i := 0; i < m; i++ {
		w.valueEdge(w.pickNode("from"), w.pickNode("to"), symLabel("edge.label"))
	}
	k := 1 + zz.Choose("k", zz.Param("k"))
	for s := 0; s < k; s++ {
		w.remove(zz.Choose("op", 3))
		w.checkAll("after")
	}
}

// Indexed values before and after a removal.
//
//sym:quick n=2 m=2
//sym:thorough n=2 m=3
func H_C05_indexes() {
	w := newWorld()
	ix := indexType("index")
	w.g.AddNodePropertyIndex("p", ix)
	w.g.AddEdgePropertyIndex("p", ix)
	w.valueNode("A")
	w.valueNode("B")
	m := 1 + zz.Choose("m", zz.Param("m"))
	for i := 0; i < m; i++ {
		w.valueEdge(w.pickNode("from"), w.pickNode("to"), "X")
	}
	w.remove(zz.Choose("op", 3))
	w.checkAll("after")
	q, mq := symScalar("query", false, 0)
	w.checkNodeIndex(q, mq)
	w.checkEdgeIndex(q, mq)
}

// Removals from a larger graph.
//
//sym:quick n=5 m=6 k=1
//sym:thorough n=6 m=12 k=2
func H_C05_big() {
	w := newWorld()
	w.bigIndexes()
	w.bigGraph(zz.Param("n"), zz.Param("m"))
	for s := 0; s < zz.Param("k"); s++ {
		w.remove(zz.Choose("op", 3))
	}
	w.checkAll("after")
	q, mq := symScalar("query", false, 0)
	k := []string{"p", "q"}[zz.Choose("query.key", 2)]
	w.checkNodeKey(k, q, mq)
	w.checkEdgeKey(k, q, mq)
}
