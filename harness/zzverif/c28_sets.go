package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

// Any sequence of additions and removals.
//
//sym:quick n=3 k=5
//sym:thorough n=3 k=7
func H_C28_nodes() {
	w := newWorld()
	someNodes(w, zz.Param("n"))
	set := lpg.NewNodeSet()
	in := map[int]bool{}
	for s := 0; s < zz.Param("k"); s++ {
		i := zz.Choose("op.node", len(w.nodes))
		add := zz.Bool("op.add")
		if add {
			set.Add(w.nodes[i].n)
		} else {
			set.Remove(w.nodes[i].n)
		}
		in[i] = add
	}
	c := 0
	for i, n := range w.nodes {
		zz.Assert(zz.Iff(set.Has(n.n), in[i]), "NodeSet.Has")
		c += zz.B2i(in[i])
	}
	zz.Assert(set.Len() == c, "NodeSet.Len")
	w.sameNodes(itNodes(set.Iterator(), w.lim()), func(i int, _ *mNode) bool { return in[i] }, "NodeSet.Iterator")
	w.sameNodes(set.Slice(), func(i int, _ *mNode) bool { return in[i] }, "NodeSet.Slice")
	zz.Assert(set.Iterator().MaxSize() == c || set.Iterator().MaxSize() == -1, "NodeSet.Iterator.MaxSize")
}

// Any sequence of additions and removals of edges.
//
//sym:quick n=3 k=5
//sym:thorough n=3 k=7
func H_C28_edges() {
	w := newWorld()
	someNodes(w, 2)
	for i := 0; i < zz.Param("n"); i++ {
		w.addEdge(0, 1, "E", nil)
	}
	set := lpg.NewEdgeSet()
	in := map[int]bool{}
	for s := 0; s < zz.Param("k"); s++ {
		i := zz.Choose("op.edge", len(w.edges))
		add := zz.Bool("op.add")
		if add {
			set.Add(w.edges[i].e)
		} else {
			set.Remove(w.edges[i].e)
		}
		in[i] = add
	}
	c := 0
	for i := range w.edges {
		c += zz.B2i(in[i])
	}
	zz.Assert(set.Len() == c, "EdgeSet.Len")
	w.sameEdges(itEdges(set.Iterator(), w.lim()), func(i int, _ *mEdge) bool { return in[i] }, "EdgeSet.Iterator")
	w.sameEdges(set.Slice(), func(i int, _ *mEdge) bool { return in[i] }, "EdgeSet.Slice")
}

// Larger sets: two members removed, and one added.
//
//sym:quick n=8
//sym:thorough n=12
func H_C28_big() {
	w := newWorld()
	w.bigGraph(zz.Param("n"), zz.Param("n"))
	ns, es := lpg.NewNodeSet(), lpg.NewEdgeSet()
	in := map[int]bool{}
	for i := range w.nodes {
		ns.Add(w.nodes[i].n)
		es.Add(w.edges[i].e)
		in[i] = true
	}
	op := func(i int, add bool) {
		if add {
			ns.Add(w.nodes[i].n)
			es.Add(w.edges[i].e)
		} else {
			ns.Remove(w.nodes[i].n)
			es.Remove(w.edges[i].e)
		}
		in[i] = add
	}
	op(zz.Choose("first", len(w.nodes)), false)
	op(zz.Choose("second", len(w.nodes)), false)
	op(zz.Choose("third", len(w.nodes)), zz.Bool("add"))
	c := 0
	for i, n := range w.nodes {
		zz.Assert(ns.Has(n.n) == in[i], "NodeSet.Has")
		c += zz.B2i(in[i])
	}
	zz.Assert(ns.Len() == c && es.Len() == c, "Len")
	w.sameNodes(itNodes(ns.Iterator(), w.lim()), func(i int, _ *mNode) bool { return in[i] }, "NodeSet.Iterator")
	w.sameNodes(ns.Slice(), func(i int, _ *mNode) bool { return in[i] }, "NodeSet.Slice")
	w.sameEdges(itEdges(es.Iterator(), w.lim()), func(i int, _ *mEdge) bool { return in[i] }, "EdgeSet.Iterator")
	w.sameEdges(es.Slice(), func(i int, _ *mEdge) bool { return in[i] }, "EdgeSet.Slice")
}

// Members of two graphs, so that there are several with the same id.
//
//sym:quick k=4
//sym:thorough k=6
func H_C28_graphs() {
	a, b := newWorld(), newWorld()
	var ns []*lpg.Node
	var es []*lpg.Edge
	for _, w := range []*world{a, b} {
		someNodes(w, 2)
		w.addEdge(0, 1, "E", nil)
		w.addEdge(1, 1, "E", nil)
		ns = append(ns, w.nodes[0].n, w.nodes[1].n)
		es = append(es, w.edges[0].e, w.edges[1].e)
	}
	nset, eset := lpg.NewNodeSet(), lpg.NewEdgeSet()
	in := make([]bool, len(ns))
	for s := 0; s < zz.Param("k"); s++ {
		i := zz.Choose("op.member", len(ns))
		add := zz.Bool("op.add")
		if add {
			nset.Add(ns[i])
			eset.Add(es[i])
		} else {
			nset.Remove(ns[i])
			eset.Remove(es[i])
		}
		in[i] = add
	}
	c := 0
	for i := range ns {
		zz.Assert(nset.Has(ns[i]) == in[i], "NodeSet.Has")
		want, nn, ne := zz.B2i(in[i]), 0, 0
		c += want
		for _, x := range itNodes(nset.Iterator(), 8) {
			nn += zz.B2i(x == ns[i])
		}
		for _, x := range itEdges(eset.Iterator(), 8) {
			ne += zz.B2i(x == es[i])
		}
		zz.Assert(nn == want, "NodeSet.Iterator")
		zz.Assert(ne == want, "EdgeSet.Iterator")
	}
	zz.Assert(nset.Len() == c && eset.Len() == c, "Len")
	zz.Assert(len(nset.Slice()) == c && len(eset.Slice()) == c, "Slice")
}
