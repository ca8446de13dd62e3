package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

func (w *world) checkLabelQuery(q []string, id string) {
	got := itNodes(w.g.GetNodesWithAllLabels(lpg.NewStringSet(q...)), w.lim())
	w.sameNodes(got, func(i int, n *mNode) bool { return allIn(q, n.labels) }, id)
}

func (w *world) checkNodeLabels() {
	for _, n := range w.nodes {
		if n.alive {
			sameLabelSet(n.n.GetLabels(), n.labels, "GetLabels")
			for _, l := range n.labels {
				zz.Assert(n.n.HasLabel(l), "HasLabel")
			}
		}
	}
}

// Label lookup after histories of creation, relabeling and removal.
//
//sym:quick n=2 l=2 k=1 q=2
//sym:thorough n=2 l=2 k=2 q=2
func H_C02_history() {
	w := newWorld()
	n := 1 + zz.Choose("n", zz.Param("n"))
	l := zz.Param("l")
	for i := 0; i < n; i++ {
		w.addNode(symLabels("labels", l), nil)
	}
	k := zz.Choose("k", zz.Param("k")+1)
	for s := 0; s < k; s++ {
		switch zz.Choose("op", 3) {
		case 0:
			w.setLabels(w.pickNode("op.node"), symLabels("op.labels", l))
		case 1:
			w.removeNode(w.pickNode("op.node"))
		case 2:
			w.addNode(symLabels("op.labels", 1), nil)
		}
	}
	w.checkLabelQuery(symLabels("query", zz.Param("q")), "GetNodesWithAllLabels")
	w.checkNodeLabels()
	w.checkLabelQuery(nil, "GetNodesWithAllLabels.empty")
}

// More relabelings of fewer labels.
//
//sym:quick n=2 k=3
//sym:thorough n=3 k=4
func H_C02_relabel() {
	w := newWorld()
	for i := 0; i < zz.Param("n"); i++ {
		w.addNode(symLabels("labels", 1), nil)
	}
	k := zz.Param("k")
	for s := 0; s < k; s++ {
		if zz.Choose("op", 4) == 0 {
			w.removeNode(w.pickNode("op.node"))
		} else {
			w.setLabels(w.pickNode("op.node"), symLabels("op.labels", 1))
		}
	}
	w.checkLabelQuery([]string{symLabel("query")}, "GetNodesWithAllLabels")
	w.checkLabelQuery(nil, "GetNodesWithAllLabels.empty")
	w.checkNodeLabels()
}

// More nodes and labels.
//
//sym:quick n=8 k=1 q=2
//sym:thorough n=8 k=2 q=3
func H_C02_big() {
	w := newWorld()
	w.bigGraph(zz.Param("n"), 4)
	for s := 0; s < zz.Param("k"); s++ {
		i := w.pickNode("op.node")
		switch zz.Choose("op", 3) {
		case 0:
			w.removeNode(i)
		case 1:
			w.setLabels(i, append([]string{symLabel("op.label")}, w.nodes[i].labels[1:]...))
		case 2:
			w.setLabels(i, append([]string{symLabel("op.label")}, w.nodes[i].labels...))
		}
	}
	w.checkLabelQuery(symLabels("query", zz.Param("q")), "GetNodesWithAllLabels")
	w.checkNodeLabels()
}
