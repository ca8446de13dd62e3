package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

func (w *world) checkAdjacency(q []string) {
	for i, n := range w.nodes {
		if !n.alive {
			continue
		}
		for _, d := range dirs {
			w.sameAdj(itEdges(n.n.GetEdges(d), w.lim()), i, d, anyEdge, "GetEdges")
			if len(q) == 1 {
				w.sameAdj(itEdges(n.n.GetEdgesWithLabel(d, q[0]), w.lim()), i, d, func(e *mEdge) bool { return e.label == q[0] }, "GetEdgesWithLabel")
			}
			if len(q) > 0 {
				w.sameAdj(itEdges(n.n.GetEdgesWithAnyLabel(d, lpg.NewStringSet(q...)), w.lim()), i, d, func(e *mEdge) bool { return inList(e.label, q) }, "GetEdgesWithAnyLabel")
			}
		}
	}
}

// Adjacency after histories of edge mutations.
//
//sym:quick n=2 m=2 k=1 q=2
//sym:thorough n=2 m=2 k=2 q=2
func H_C04_history() {
	w := newWorld()
	someNodes(w, zz.Param("n"))
	m := zz.Choose("m", zz.Param("m")+1)
	for i := 0; i < m; i++ {
		w.newEdge("e", nil)
	}
	k := zz.Choose("k", zz.Param("k")+1)
	for s := 0; s < k; s++ {
		w.edgeStep()
	}
	w.checkAdjacency(symLabels("query", zz.Param("q")))
}

// Longer histories on the edges of one node pair.
//
//sym:quick m=3 k=2
//sym:thorough m=3 k=3
func H_C04_parallel() {
	w := newWorld()
	someNodes(w, 2)
	m := zz.Param("m")
	for i := 0; i < m; i++ {
		w.addEdge(0, zz.Choose("to", 2), symLabel("label"), nil)
	}
	k := zz.Param("k")
	for s := 0; s < k; s++ {
		switch zz.Choose("op", 3) {
		case 0:
			w.addEdge(0, 1, symLabel("op.new"), nil)
		case 1:
			w.removeEdge(w.pickEdge("op.edge"))
		case 2:
			w.setEdgeLabel(w.pickEdge("op.edge"), symLabel("op.elabel"))
		}
	}
	w.checkAdjacency([]string{symLabel("query")})
}

// More edges and labels.
//
//sym:quick n=4 m=10 k=1 q=1
//sym:thorough n=5 m=12 k=2 q=2
func H_C04_big() {
	w := newWorld()
	w.bigGraph(zz.Param("n"), zz.Param("m"))
	for s := 0; s < zz.Param("k"); s++ {
		w.edgeStep()
	}
	w.checkAdjacency(symLabels("query", zz.Param("q")))
}
