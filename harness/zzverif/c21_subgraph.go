package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

// reachable marks what is reachable along outgoing edges.
func (w *world) reachable(start int) []bool {
	r := make([]bool, len(w.nodes))
	r[start] = true
	for range w.nodes {
		for _, e := range w.edges {
			if e.alive && r[e.f] {
				r[e.t] = true
			}
		}
	}
	return r
}

// Every small graph and start node.
//
//sym:quick n=3 m=3 l=1
//sym:thorough n=4 m=4 l=2
func H_C21_subgraph() {
	s := newWorld()
	n := zz.Choose("n", zz.Param("n")) + 1
	for i := 0; i < n; i++ {
		s.valueNode(symLabel("node.label"))
	}
	k := zz.Choose("m", zz.Param("m")+1)
	for i := 0; i < k; i++ {
		l := "K"
		if i < zz.Param("l") {
			l = symLabel("edge.label")
		}
		s.valueEdge(zz.Choose("from", n), zz.Choose("to", n), l)
	}
	t := newWorld()
	t.valueNode("T")
	t.valueEdge(0, 0, "T")
	start := zz.Choose("start", n)
	m := map[*lpg.Node]*lpg.Node{}
	lpg.CopySubgraph(s.nodes[start].n, t.g, bump, m)
	r := s.reachable(start)
	c := 0
	for i, x := range s.nodes {
		y, ok := m[x.n]
		zz.Assert(ok == r[i], "node map")
		if ok {
			zz.Assert(t.indexOf(y) < 0, "one copy per node")
			t.copied(y, x)
			c++
		}
	}
	zz.Assert(len(m) == c, "node map size")
	var want []*mEdge
	for _, e := range s.edges {
		if r[e.f] {
			want = append(want, e)
		}
	}
	t.copiedEdges(s, want, m, "edges")
	s.checkBoth("source")
	t.checkBoth("target")
}

// The copy is made in the graph of the node itself.
//
//sym:quick n=3 m=2
//sym:thorough n=3 m=3
func H_C21_same() {
	w := newWorld()
	n := zz.Param("n")
	w.someGraph(n, zz.Param("m"))
	start := zz.Choose("start", n)
	r := w.reachable(start)
	var want []*mEdge
	for _, e := range w.edges {
		if r[e.f] {
			want = append(want, e)
		}
	}
	m := map[*lpg.Node]*lpg.Node{}
	lpg.CopySubgraph(w.nodes[start].n, w.g, bump, m)
	c := 0
	for i, x := range w.nodes[:n] {
		y, ok := m[x.n]
		zz.Assert(ok == r[i], "node map")
		if ok {
			zz.Assert(w.indexOf(y) < 0, "one copy per node")
			w.copied(y, x)
			c++
		}
	}
	zz.Assert(len(m) == c, "node map size")
	w.copiedEdges(w, want, m, "edges")
	w.checkBoth("graph")
}

// A larger graph, from every node.
//
//sym:quick n=8 m=11
//sym:thorough n=12 m=16
func H_C21_big() {
	s := newWorld()
	s.bigGraph(zz.Param("n"), zz.Param("m"))
	for i := range s.edges {
		s.setEdgeProp(i, "id", i, mval{i: i})
	}
	if zz.Bool("removed") {
		s.removeEdge(s.pickEdge("op.edge"))
	}
	t := newWorld()
	start := zz.Choose("start", zz.Param("n"))
	m := map[*lpg.Node]*lpg.Node{}
	lpg.CopySubgraph(s.nodes[start].n, t.g, bump, m)
	r := s.reachable(start)
	t.bigCopies(s, m, func(i int) bool { return r[i] }, func(e *mEdge) bool { return r[e.f] })
	s.checkBoth("source")
}
