package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

func (w *world) checkEdges(q []string) {
	w.sameEdges(itEdges(w.g.GetEdges(), w.lim()), anyEdgeI, "GetEdges")
	zz.Assert(w.g.NumEdges() == len(w.liveEdges()), "NumEdges")
	got := itEdges(w.g.GetEdgesWithAnyLabel(lpg.NewStringSet(q...)), w.lim())
	w.sameEdges(got, func(i int, e *mEdge) bool { return inList(e.label, q) }, "GetEdgesWithAnyLabel")
	for _, e := range w.edges {
		if e.alive {
			zz.Assert(e.e.GetLabel() == e.label, "GetLabel")
		}
	}
}

// Edge enumeration after histories of edge mutations.
//
//sym:quick n=2 m=2 k=2 q=2
//sym:thorough n=2 m=3 k=2 q=2
func H_C03_history() {
	w := newWorld()
	someNodes(w, zz.Param("n"))
	m := zz.Choose("m", zz.Param("m")+1)
	for i := 0; i < m; i++ {
		w.newEdge("e", nil)
	}
	k := zz.Choose("k", zz.Param("k")+1)
	for s := 0; s < k; s++ {
		w.edgeStep()
	}
	w.checkEdges(symLabels("query", zz.Param("q")))
}

// Longer histories between fixed end points.
//
//sym:quick k=5
//sym:thorough k=6
func H_C03_single() {
	w := newWorld()
	someNodes(w, 1)
	k := zz.Param("k")
	for s := 0; s < k; s++ {
		switch zz.Choose("op", 3) {
		case 0:
			w.newEdge("op.new", nil)
		case 1:
			w.removeEdge(w.pickEdge("op.edge"))
		case 2:
			w.setEdgeLabel(w.pickEdge("op.edge"), symLabel("op.elabel"))
		}
	}
	w.checkEdges(symLabels("query", 1))
}

// More edges and labels.
//
//sym:quick n=5 m=10 k=1 q=2
//sym:thorough n=5 m=12 k=2 q=3
func H_C03_big() {
	w := newWorld()
	w.bigGraph(zz.Param("n"), zz.Param("m"))
	for s := 0; s < zz.Param("k"); s++ {
		w.edgeStep()
	}
	w.checkEdges(symLabels("query", zz.Param("q")))
}
