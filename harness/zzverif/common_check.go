package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

var dirs = []lpg.EdgeDir{lpg.IncomingEdge, lpg.AnyEdge, lpg.OutgoingEdge}

// incidences is the number of times an edge appears among the edges of a
// node in a direction: once per direction in which it is incident.
func incidences(e *mEdge, node int, dir lpg.EdgeDir) int {
	c := 0
	if dir != lpg.OutgoingEdge && e.t == node {
		c++
	}
	if dir != lpg.IncomingEdge && e.f == node {
		c++
	}
	return c
}

// sameAdj asserts that got is exactly the live edges of a node in a
// direction for which want holds.
func (w *world) sameAdj(got []*lpg.Edge, node int, dir lpg.EdgeDir, want func(*mEdge) bool, id string) {
	ok := true
	found := 0
	for _, e := range w.edges {
		c := countEdge(got, e.e)
		found += c
		n := incidences(e, node, dir)
		if !e.alive {
			n = 0
		}
		if n == 0 {
			ok = zz.And(ok, c == 0)
			continue
		}
		ok = zz.And(ok, zz.IteB(want(e), c == n, c == 0))
	}
	zz.Assert(zz.And(ok, found == len(got)), id)
}

func anyEdge(*mEdge) bool       { return true }
func anyNodeI(int, *mNode) bool { return true }
func anyEdgeI(int, *mEdge) bool { return true }

// sameLabels asserts that the labels of a node are the given ones.
func sameLabelSet(s lpg.StringSet, want []string, id string) {
	got := s.Slice()
	ok := true
	for _, x := range got {
		ok = zz.And(ok, inList(x, want))
	}
	for _, x := range want {
		ok = zz.And(ok, inList(x, got), s.Has(x))
	}
	for i := range got {
		for j := i + 1; j < len(got); j++ {
			ok = zz.And(ok, got[i] != got[j])
		}
	}
	zz.Assert(zz.And(ok, s.Len() == len(got)), id)
}

// checkStructure asserts enumeration, counts, adjacency, endpoints and
// labels of the whole graph.
func (w *world) checkStructure(id string) {
	w.sameNodes(itNodes(w.g.GetNodes(), w.lim()), anyNodeI, id+".nodes")
	w.sameEdges(itEdges(w.g.GetEdges(), w.lim()), anyEdgeI, id+".edges")
	zz.Assert(w.g.NumNodes() == len(w.liveNodes()), id+".numNodes")
	zz.Assert(w.g.NumEdges() == len(w.liveEdges()), id+".numEdges")
	for i, n := range w.nodes {
		if !n.alive {
			continue
		}
		for _, d := range dirs {
			w.sameAdj(itEdges(n.n.GetEdges(d), w.lim()), i, d, anyEdge, id+".adjacency")
		}
		sameLabelSet(n.n.GetLabels(), n.labels, id+".labels")
		zz.Assert(n.n.GetGraph() == w.g, id+".graph")
	}
	for _, e := range w.edges {
		if !e.alive {
			continue
		}
		zz.Assert(e.e.GetFrom() == w.nodes[e.f].n, id+".from")
		zz.Assert(e.e.GetTo() == w.nodes[e.t].n, id+".to")
		zz.Assert(e.e.GetLabel() == e.label, id+".elabel")
		zz.Assert(e.e.GetGraph() == w.g, id+".egraph")
	}
}

// edgeAmong adds an edge between two of the live nodes, symbolically chosen.
func (w *world) newEdge(name string, props map[string]any) *mEdge {
	i := w.pickNode(name + ".from")
	j := w.pickNode(name + ".to")
	return w.addEdge(i, j, symLabel(name+".label"), props)
}

func someNodes(w *world, n int) {
	for i := 0; i < n; i++ {
		w.addNode(nil, nil)
	}
}

func (w *world) valueNode(label string) *mNode {
	v, m := symScalar("node.p", false, 0)
	n := w.addNode([]string{label}, map[string]any{"p": v})
	n.pv["p"] = m
	return n
}

func (w *world) valueEdge(f, t int, label string) *mEdge {
	v, m := symScalar("edge.p", false, 0)
	e := w.addEdge(f, t, label, map[string]any{"p": v})
	e.pv["p"] = m
	return e
}

// checkValues asserts that every live node and edge has exactly the
// modelled properties.
func (w *world) checkValues(id string) {
	for _, n := range w.nodes {
		if n.alive {
			sameProps(n.n, n.pv, id+".nodeProps")
		}
	}
	for _, e := range w.edges {
		if e.alive {
			sameProps(e.e, e.pv, id+".edgeProps")
		}
	}
}

type withProps interface {
	GetProperty(string) (any, bool)
	ForEachProperty(func(string, any) bool) bool
}

func sameProps(x withProps, pv map[string]mval, id string) {
	c := 0
	ok := true
	x.ForEachProperty(func(k string, v any) bool {
		c++
		m, has := pv[k]
		ok = zz.And(ok, has, isValue(v, m))
		return true
	})
	for k, m := range pv {
		v, has := x.GetProperty(k)
		ok = zz.And(ok, has, isValue(v, m))
	}
	zz.Assert(zz.And(ok, c == len(pv)), id)
}

// isValue: v is the integer or string modelled by m.
func isValue(v any, m mval) bool {
	switch x := v.(type) {
	case nil:
		return m.kind == kindNil
	case int:
		return m.kind == 0 && zz.And(x == m.i)
	case string:
		return m.kind == 1 && zz.And(x == m.s)
	case native:
		return isValue(x.v, m)
	}
	return false
}

// edgeStep performs one symbolic edge mutation.
func (w *world) edgeStep() {
	switch zz.Choose("op", 5) {
	case 0:
		w.newEdge("op.new", nil)
	case 1:
		w.removeEdge(w.pickEdge("op.edge"))
	case 2:
		w.setEdgeLabel(w.pickEdge("op.edge"), symLabel("op.elabel"))
	case 3:
		w.detach(w.pickNode("op.node"))
	case 4:
		w.removeNode(w.pickNode("op.node"))
	}
}

// labeledGraph builds n nodes and at most m edges with symbolic ends and
// labels.
func (w *world) labeledGraph(n, m int) {
	someNodes(w, n)
	k := zz.Choose("m", m+1)
	for i := 0; i < k; i++ {
		w.addEdge(zz.Choose("from", n), zz.Choose("to", n), symLabel("label"), nil)
	}
}
