package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

func checkSize(it lpg.Iterator, lim int, id string) {
	m := it.MaxSize()
	c := 0
	for it.Next() {
		c++
		if c > lim {
			break
		}
	}
	zz.Assert(c <= lim, id+" terminates")
	zz.Assert(zz.Or(m == -1, m >= c), id+" size")
	zz.Assert(!it.Next() && !it.Next(), id+" stays exhausted")
}

func (w *world) nodeIterators(n *lpg.Node) {
	lim := w.lim()
	l := symLabels("query", 2)
	s := lpg.NewStringSet(l...)
	for _, d := range dirs {
		checkSize(n.GetEdges(d), lim, "Node.GetEdges")
		checkSize(n.GetEdgesWithAnyLabel(d, s), lim, "Node.GetEdgesWithAnyLabel")
		var c lpg.Cursor
		c.Set(n)
		checkSize(c.Edges(d), lim, "Cursor.Edges")
		checkSize(c.Nodes(d), lim, "Cursor.Nodes")
		if len(l) == 1 {
			checkSize(n.GetEdgesWithLabel(d, l[0]), lim, "Node.GetEdgesWithLabel")
			checkSize(c.EdgesWith(d, l[0]), lim, "Cursor.EdgesWith")
			checkSize(c.NodesWith(d, l[0]), lim, "Cursor.NodesWith")
		}
	}
}

// Adjacency, cursor and edge iterators after edge mutations.
//
//sym:quick n=2 m=3 k=1
//sym:thorough n=2 m=3 k=2
func H_C27_edges() {
	w := newWorld()
	n := zz.Param("n")
	w.labeledGraph(n, zz.Param("m"))
	for s := zz.Choose("k", zz.Param("k")+1); s > 0; s-- {
		if zz.Choose("op", 2) == 0 {
			w.removeEdge(w.pickEdge("op.edge"))
		} else {
			w.setEdgeLabel(w.pickEdge("op.edge"), symLabel("op.label"))
		}
	}
	if zz.Choose("of", 2) == 0 {
		w.nodeIterators(w.nodes[zz.Choose("node", n)].n)
		return
	}
	lim := w.lim()
	checkSize(w.g.GetEdges(), lim, "GetEdges")
	checkSize(w.g.GetEdgesWithAnyLabel(lpg.NewStringSet(symLabels("query", 2)...)), lim, "GetEdgesWithAnyLabel")
	checkSize(lpg.SourcesItr(w.g), lim, "SourcesItr")
	checkSize(lpg.SinksItr(w.g), lim, "SinksItr")
	es := lpg.NewEdgeSet()
	for _, e := range w.edges {
		if e.alive {
			es.Add(e.e)
		}
	}
	checkSize(es.Iterator(), lim, "EdgeSet.Iterator")
	checkSize(lpg.MultiIterator(w.g.GetEdges(), es.Iterator()), lim, "MultiIterator")
}

// Node iterators and searches with every index configuration.
//
//sym:quick n=2 k=1
//sym:thorough n=3 k=1
func H_C27_nodes() {
	w := newWorld()
	ix := zz.Choose("index", 3)
	if ix > 0 {
		w.g.AddNodePropertyIndex("p", lpg.IndexType(ix-1))
	}
	nm := lpg.NewNodeMap()
	ns := lpg.NewNodeSet()
	n := zz.Choose("n", zz.Param("n")+1)
	for i := 0; i < n; i++ {
		l := symLabels("node.labels", 2)
		var props map[string]any
		if zz.Choose("node.has", 2) == 1 {
			props = map[string]any{"p": zz.AnyInt("node.p")}
		}
		x := w.addNode(l, props)
		nm.Add(x.n)
		ns.Add(x.n)
	}
	for s := zz.Choose("k", zz.Param("k")+1); s > 0; s-- {
		i := w.pickNode("op.node")
		if zz.Choose("op", 2) == 0 {
			nm.Remove(w.nodes[i].n)
			ns.Remove(w.nodes[i].n)
			w.removeNode(i)
		} else {
			s := lpg.NewStringSet(symLabels("op.labels", 1)...)
			nm.Replace(w.nodes[i].n, w.nodes[i].n.GetLabels(), s)
			w.nodes[i].n.SetLabels(s)
		}
	}
	lim := w.lim()
	checkSize(w.g.GetNodes(), lim, "GetNodes")
	checkSize(ns.Iterator(), lim, "NodeSet.Iterator")
	checkSize(nm.Iterator(), lim, "NodeMap.Iterator")
	s := lpg.NewStringSet(symLabels("query", 1)...)
	checkSize(nm.IteratorAllLabels(s), lim, "NodeMap.IteratorAllLabels")
	checkSize(w.g.GetNodesWithAllLabels(s), lim, "GetNodesWithAllLabels")
	checkSize(w.g.GetNodesWithProperty("p"), lim, "GetNodesWithProperty")
	checkSize(w.g.FindNodes(s, map[string]any{"p": zz.AnyInt("query.p")}), lim, "FindNodes")
	checkSize(w.g.FindNodes(s, nil), lim, "FindNodes.labels")
}

// Edge searches with every index configuration.
//
//sym:quick m=2
//sym:thorough m=3
func H_C27_findedges() {
	w := newWorld()
	ix := zz.Choose("index", 3)
	if ix > 0 {
		w.g.AddEdgePropertyIndex("p", lpg.IndexType(ix-1))
	}
	someNodes(w, 2)
	m := zz.Choose("m", zz.Param("m")+1)
	for i := 0; i < m; i++ {
		var props map[string]any
		if zz.Choose("edge.has", 2) == 1 {
			props = map[string]any{"p": zz.AnyInt("edge.p")}
		}
		w.addEdge(0, i%2, symLabel("edge.label"), props)
	}
	lim := w.lim()
	s := lpg.NewStringSet(symLabels("query", 2)...)
	checkSize(w.g.GetEdgesWithProperty("p"), lim, "GetEdgesWithProperty")
	checkSize(w.g.FindEdges(s, map[string]any{"p": zz.AnyInt("query.p")}), lim, "FindEdges")
	checkSize(w.g.FindEdges(s, nil), lim, "FindEdges.labels")
}

// A larger graph.
//
//sym:quick n=7 m=10
//sym:thorough n=9 m=16
func H_C27_big() {
	w := newWorld()
	w.bigIndexes()
	w.bigGraph(zz.Param("n"), zz.Param("m"))
	nm := lpg.NewNodeMap()
	ns := lpg.NewNodeSet()
	for _, n := range w.nodes {
		nm.Add(n.n)
		ns.Add(n.n)
	}
	switch zz.Choose("op", 3) {
	case 1:
		i := w.pickNode("op.node")
		nm.Remove(w.nodes[i].n)
		ns.Remove(w.nodes[i].n)
		w.removeNode(i)
	case 2:
		w.removeEdge(w.pickEdge("op.edge"))
	}
	lim := w.lim()
	switch zz.Choose("of", 3) {
	case 0:
		w.nodeIterators(w.nodes[w.pickNode("node")].n)
	case 1:
		s := lpg.NewStringSet(symLabels("query", 2)...)
		checkSize(w.g.GetNodes(), lim, "GetNodes")
		checkSize(ns.Iterator(), lim, "NodeSet.Iterator")
		checkSize(nm.Iterator(), lim, "NodeMap.Iterator")
		checkSize(nm.IteratorAllLabels(s), lim, "NodeMap.IteratorAllLabels")
		checkSize(w.g.GetNodesWithAllLabels(s), lim, "GetNodesWithAllLabels")
		checkSize(w.g.GetEdges(), lim, "GetEdges")
		checkSize(w.g.GetEdgesWithAnyLabel(s), lim, "GetEdgesWithAnyLabel")
		checkSize(lpg.SourcesItr(w.g), lim, "SourcesItr")
		checkSize(lpg.SinksItr(w.g), lim, "SinksItr")
	case 2:
		k := []string{"p", "q"}[zz.Choose("key", 2)]
		s := lpg.NewStringSet(symLabels("query", 1)...)
		v := zz.AnyInt("query.value")
		checkSize(w.g.GetNodesWithProperty(k), lim, "GetNodesWithProperty")
		checkSize(w.g.GetEdgesWithProperty(k), lim, "GetEdgesWithProperty")
		checkSize(w.g.FindNodes(s, map[string]any{k: v}), lim, "FindNodes")
		checkSize(w.g.FindEdges(s, map[string]any{k: v}), lim, "FindEdges")
	}
}
