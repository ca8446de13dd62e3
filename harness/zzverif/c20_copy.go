package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

func (w *world) liveModelEdges() []*mEdge {
	var r []*mEdge
	for _, e := range w.edges {
		if e.alive {
			r = append(r, e)
		}
	}
	return r
}

// checkCopied checks a node map of the copied nodes and extends the model of
// the target.
func checkNodeMap(s, t *world, m map[*lpg.Node]*lpg.Node, keep func(i int) bool, id string) {
	c := 0
	for i, n := range s.nodes {
		x, ok := m[n.n]
		if !n.alive || !keep(i) {
			zz.Assert(!ok, id+".map")
			continue
		}
		zz.Assert(ok && x != nil, id+".map")
		zz.Assert(t.indexOf(x) < 0, id+".fresh")
		t.copied(x, n)
		c++
	}
	zz.Assert(len(m) == c, id+".map.size")
}

func targetWorld() *world {
	t := newWorld()
	if zz.Choose("target.content", 2) == 1 {
		t.valueNode("T")
		t.valueEdge(0, 0, "T")
	}
	return t
}

// CopyGraph gives an equal graph; one later change to either side does not
// show on the other.
//
//sym:quick n=2 m=2
//sym:thorough n=3 m=2
func H_C20_copy() {
	s := newWorld()
	s.someGraph(zz.Choose("n", zz.Param("n"))+1, zz.Param("m"))
	t := targetWorld()
	m := lpg.CopyGraph(s.g, t.g, bump)
	checkNodeMap(s, t, m, func(int) bool { return true }, "CopyGraph")
	t.copiedEdges(s, s.liveModelEdges(), m, "CopyGraph.edges")
	s.checkBoth("source")
	t.checkBoth("target")
	if zz.Choose("side", 2) == 0 {
		s.mutate()
	} else {
		t.mutate()
	}
	s.checkBoth("source.later")
	t.checkBoth("target.later")
}

// The copies are found through the labels and indexes of the target.
//
//sym:quick n=1 m=1
//sym:thorough n=2 m=1
func H_C20_indexed() {
	s := newWorld()
	s.someGraph(zz.Param("n"), zz.Param("m"))
	t := newWorld()
	ix := indexType("index")
	t.g.AddNodePropertyIndex("p", ix)
	t.g.AddEdgePropertyIndex("p", ix)
	t.valueNode("T")
	t.valueEdge(0, 0, "T")
	m := lpg.CopyGraph(s.g, t.g, bump)
	checkNodeMap(s, t, m, func(int) bool { return true }, "CopyGraph")
	t.copiedEdges(s, s.liveModelEdges(), m, "CopyGraph.edges")
	q, mq := symScalar("query", false, 1)
	t.checkNodeIndex(q, mq)
	t.checkEdgeIndex(q, mq)
	t.checkLabel(symLabel("query.label"))
}

// CopyGraphf with a copier that declines some nodes.
//
//sym:quick n=3 m=2
//sym:thorough n=3 m=3
func H_C20_decline() {
	s := newWorld()
	n := zz.Param("n")
	s.someGraph(n, zz.Param("m"))
	t := targetWorld()
	declined := zz.Choose("declined", 1<<n)
	keep := func(i int) bool { return declined&(1<<i) == 0 }
	m := lpg.CopyGraphf(s.g, func(node *lpg.Node, _ map[*lpg.Node]*lpg.Node) *lpg.Node {
		if !keep(s.indexOf(node)) {
			return nil
		}
		return lpg.CopyNode(node, t.g, bump)
	}, func(edge *lpg.Edge, m map[*lpg.Node]*lpg.Node) *lpg.Edge {
		return lpg.CopyEdge(edge, t.g, bump, m)
	})
	checkNodeMap(s, t, m, keep, "CopyGraphf")
	var want []*mEdge
	for _, e := range s.edges {
		if keep(e.f) && keep(e.t) {
			want = append(want, e)
		}
	}
	t.copiedEdges(s, want, m, "CopyGraphf.edges")
	s.checkBoth("source")
	t.checkBoth("target")
}

// CopyNode, CopyEdge and CloneEdge one at a time; nodes and edges with and
// without properties.
//
//sym:both
func H_C20_single() {
	s := newWorld()
	s.labeledValueNode()
	s.valueNode("B")
	f, to := zz.Choose("from", 2), zz.Choose("to", 2)
	if zz.Choose("edge.props", 2) == 0 {
		s.addEdge(f, to, symLabel("edge.label"), nil)
	} else {
		s.valueEdge(f, to, symLabel("edge.label"))
	}
	t := targetWorld()
	m := map[*lpg.Node]*lpg.Node{}
	for _, n := range s.nodes {
		c := lpg.CopyNode(n.n, t.g, bump)
		m[n.n] = c
		t.copied(c, n)
	}
	t.checkBoth("CopyNode")
	e := s.edges[0]
	var c *lpg.Edge
	if zz.Choose("clone", 2) == 0 {
		c = lpg.CopyEdge(e.e, t.g, bump, m)
	} else {
		c = lpg.CloneEdge(m[s.nodes[f].n], m[s.nodes[to].n], e.e, t.g, bump)
	}
	zz.Assert(c.GetFrom() == m[s.nodes[f].n] && c.GetTo() == m[s.nodes[to].n], "copy end points")
	zz.Assert(c.GetLabel() == e.label, "copy label")
	sameProps(c, bumped(e.pv), "copy properties")
	t.copiedEdges(s, s.edges, m, "CopyEdge")
	s.checkBoth("source")
	t.checkBoth("target")
}

func (w *world) labeledValueNode() {
	l := symLabels("node.labels", 2)
	if zz.Choose("node.props", 2) == 0 {
		w.addNode(l, nil)
		return
	}
	v, m := symScalar("node.p", false, 0)
	q, mq := symScalar("node.q", true, 1)
	w.addNode(l, map[string]any{"p": v, "q": q}).pv = map[string]mval{"p": m, "q": mq}
}

// Copies within one graph: the copies are nodes and edges of that graph in
// every respect, found through its labels and indexes, and independent of
// their originals.
//
//sym:both
func H_C20_within() {
	w := newWorld()
	if zz.Choose("indexed", 2) == 1 {
		ix := indexType("index")
		w.g.AddNodePropertyIndex("p", ix)
		w.g.AddEdgePropertyIndex("p", ix)
	}
	w.valueNode("A")
	w.addNode(nil, nil)
	w.valueEdge(0, zz.Choose("to", 2), symLabel("edge.label"))
	src := &world{g: w.g, nodes: append([]*mNode{}, w.nodes...), edges: append([]*mEdge{}, w.edges...)}
	m := map[*lpg.Node]*lpg.Node{}
	switch zz.Choose("nodes", 2) {
	case 0: // an edge between the originals
		for _, n := range src.nodes {
			m[n.n] = n.n
		}
	case 1:
		for _, n := range src.nodes {
			c := lpg.CopyNode(n.n, w.g, bump)
			zz.Assert(w.indexOf(c) < 0, "copy is new")
			m[n.n] = c
			w.copied(c, n)
		}
	}
	e := src.edges[0]
	if zz.Choose("clone", 2) == 0 {
		lpg.CopyEdge(e.e, w.g, bump, m)
	} else {
		lpg.CloneEdge(m[e.e.GetFrom()], m[e.e.GetTo()], e.e, w.g, bump)
	}
	w.copiedEdges(src, src.edges, m, "copy within the graph")
	w.checkBoth("within")
	if zz.Choose("later", 2) == 0 {
		w.checkLabel(symLabel("query.label"))
	} else {
		w.mutate()
		w.checkBoth("within.later")
	}
	q, mq := symScalar("query", false, 1)
	w.checkNodeIndex(q, mq)
	w.checkEdgeIndex(q, mq)
}

// Nil values, in the source or given by the copying function, are values
// like any other.
//
//sym:both
func H_C20_nil() {
	s := newWorld()
	v, mv := symNilable("p")
	n := s.addNode([]string{"A"}, map[string]any{"p": v, "q": 1})
	n.pv = map[string]mval{"p": mv, "q": {kind: 0, i: 1}}
	v, mv = symNilable("p")
	e := s.addEdge(0, 0, "E", map[string]any{"p": v, "q": 1})
	e.pv = map[string]mval{"p": mv, "q": {kind: 0, i: 1}}
	cleared := zz.Bool("cleared")
	clone := func(k string, v any) any {
		if k == "q" && cleared {
			return nil
		}
		return v
	}
	want := func(pv map[string]mval) map[string]mval {
		if !cleared {
			return pv
		}
		return map[string]mval{"p": pv["p"], "q": {kind: kindNil}}
	}
	g := lpg.NewGraph()
	m := map[*lpg.Node]*lpg.Node{}
	switch zz.Choose("copy", 3) {
	case 0:
		m = lpg.CopyGraph(s.g, g, clone)
	case 1:
		lpg.CopySubgraph(n.n, g, clone, m)
	case 2:
		m[n.n] = lpg.CopyNode(n.n, g, clone)
		lpg.CopyEdge(e.e, g, clone, m)
	}
	zz.Assert(m[n.n] != nil && g.NumNodes() == 1 && g.NumEdges() == 1, "copies")
	sameProps(m[n.n], want(n.pv), "node")
	for it := g.GetEdges(); it.Next(); {
		sameProps(it.Edge(), want(e.pv), "edge")
	}
	sameProps(n.n, n.pv, "source.node")
	sameProps(e.e, e.pv, "source.edge")
}

// A larger graph.
//
//sym:quick n=6 m=7
//sym:thorough n=12 m=20
func H_C20_big() {
	s := newWorld()
	s.bigGraph(zz.Param("n"), zz.Param("m"))
	for i := range s.edges {
		s.setEdgeProp(i, "id", i, mval{i: i})
	}
	switch zz.Choose("op", 3) {
	case 1:
		s.removeNode(s.pickNode("op.node"))
	case 2:
		s.removeEdge(s.pickEdge("op.edge"))
	}
	t := newWorld()
	t.bigIndexes()
	m := lpg.CopyGraph(s.g, t.g, bump)
	t.bigCopies(s, m, func(int) bool { return true }, func(*mEdge) bool { return true })
	s.checkBoth("source")
	q, mq := symScalar("query", false, 0)
	t.checkNodeIndex(q, mq)
	t.checkEdgeIndex(q, mq)
	t.checkLabel(symLabel("query.label"))
}
