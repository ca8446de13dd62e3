package zzverif

import (
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

// Node enumeration after every history of creations, removals, detaches
// and relabelings.
//
//sym:quick n=3 k=3
//sym:thorough n=4 k=4
func H_C01_history() {
	w := newWorld()
	n := zz.Choose("n", zz.Param("n")+1)
	for i := 0; i < n; i++ {
		w.addNode(nil, nil)
	}
	k := zz.Param("k")
	for s := 0; s < k; s++ {
		switch zz.Choose("op", 5) {
		case 0:
			w.removeNode(w.pickNode("op.node"))
		case 1:
			w.addNode(symLabels("op.labels", 1), nil)
		case 2:
			i := w.pickNode("op.from")
			j := w.pickNode("op.to")
			w.addEdge(i, j, symLabel("op.elabel"), nil)
		case 3:
			w.detach(w.pickNode("op.node"))
		case 4:
			i := w.pickNode("op.node")
			w.setLabels(i, symLabels("op.labels", 1))
		}
		got := itNodes(w.g.GetNodes(), w.lim())
		w.sameNodes(got, func(int, *mNode) bool { return true }, "GetNodes")
		zz.Assert(w.g.NumNodes() == len(w.liveNodes()), "NumNodes")
		zz.Assert(w.g.GetNodes().MaxSize() >= len(got) || w.g.GetNodes().MaxSize() == -1, "MaxSize")
	}
	zz.Observe("n", w.g.NumNodes())
}

// More nodes: removals anywhere, followed by creations.
//
//sym:quick n=10 k=2
//sym:thorough n=12 k=3
func H_C01_big() {
	w := newWorld()
	someNodes(w, zz.Param("n"))
	for s := 0; s < zz.Param("k"); s++ {
		if zz.Bool("op.add") {
			w.addNode(nil, nil)
		} else {
			w.removeNode(w.pickNode("op.node"))
		}
	}
	w.addNode(nil, nil)
	w.sameNodes(itNodes(w.g.GetNodes(), w.lim()), anyNodeI, "GetNodes")
	zz.Assert(w.g.NumNodes() == len(w.liveNodes()), "NumNodes")
}
