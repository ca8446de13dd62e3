package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

// sameEnds asserts that got is exactly the set of nodes for which some live
// edge satisfies want(edge, node), each once.
func (w *world) sameEnds(got []*lpg.Node, want func(e *mEdge, i int) bool, id string) {
	w.sameNodes(got, func(i int, n *mNode) bool {
		r := false
		for _, e := range w.edges {
			if e.alive {
				r = zz.Or(r, want(e, i))
			}
		}
		return r
	}, id)
}

// opposite: i is the other end of the edge seen from node c in direction d.
func opposite(e *mEdge, c, i int, d lpg.EdgeDir) bool {
	in := e.t == c && e.f == i
	out := e.f == c && e.t == i
	switch d {
	case lpg.IncomingEdge:
		return in
	case lpg.OutgoingEdge:
		return out
	}
	return in || out
}

func (w *world) checkCursor(c *lpg.Cursor, i int, l string) {
	lim := w.lim()
	for _, d := range dirs {
		w.sameAdj(itEdges(c.Edges(d), lim), i, d, anyEdge, "Cursor.Edges")
		w.sameAdj(itEdges(c.EdgesWith(d, l), lim), i, d, func(e *mEdge) bool { return e.label == l }, "Cursor.EdgesWith")
		w.sameEnds(itNodes(c.Nodes(d), lim), func(e *mEdge, j int) bool { return opposite(e, i, j, d) }, "Cursor.Nodes")
		w.sameEnds(itNodes(c.NodesWith(d, l), lim), func(e *mEdge, j int) bool { return opposite(e, i, j, d) && zz.And(e.label == l) }, "Cursor.NodesWith")
	}
	w.sameAdj(itEdges(c.Forward(), lim), i, lpg.OutgoingEdge, anyEdge, "Cursor.Forward")
	w.sameAdj(itEdges(c.Backward(), lim), i, lpg.IncomingEdge, anyEdge, "Cursor.Backward")
	w.sameAdj(itEdges(c.ForwardWith(l), lim), i, lpg.OutgoingEdge, func(e *mEdge) bool { return e.label == l }, "Cursor.ForwardWith")
	w.sameAdj(itEdges(c.BackwardWith(l), lim), i, lpg.IncomingEdge, func(e *mEdge) bool { return e.label == l }, "Cursor.BackwardWith")
	w.sameEnds(itNodes(c.NextNodes(), lim), func(e *mEdge, j int) bool { return opposite(e, i, j, lpg.OutgoingEdge) }, "Cursor.NextNodes")
	w.sameEnds(itNodes(c.PrevNodes(), lim), func(e *mEdge, j int) bool { return opposite(e, i, j, lpg.IncomingEdge) }, "Cursor.PrevNodes")
	w.sameEnds(itNodes(c.NextNodesWith(l), lim), func(e *mEdge, j int) bool { return opposite(e, i, j, lpg.OutgoingEdge) && zz.And(e.label == l) }, "Cursor.NextNodesWith")
	w.sameEnds(itNodes(c.PrevNodesWith(l), lim), func(e *mEdge, j int) bool { return opposite(e, i, j, lpg.IncomingEdge) && zz.And(e.label == l) }, "Cursor.PrevNodesWith")
}

// Sources, sinks, edges between nodes, next and previous nodes.
//
//sym:quick n=3 m=3 k=0
//sym:thorough n=3 m=3 k=1
func H_C26_helpers() {
	w := newWorld()
	w.labeledGraph(zz.Param("n"), zz.Param("m"))
	for s := 0; s < zz.Param("k"); s++ {
		w.edgeStep()
	}
	w.checkHelpers(symLabel("query"))
}

func (w *world) checkHelpers(l string) {
	isSource := func(i int, _ *mNode) bool {
		for _, e := range w.edges {
			if e.alive && e.t == i {
				return false
			}
		}
		return true
	}
	isSink := func(i int, _ *mNode) bool {
		for _, e := range w.edges {
			if e.alive && e.f == i {
				return false
			}
		}
		return true
	}
	w.sameNodes(lpg.Sources(w.g), isSource, "Sources")
	w.sameNodes(lpg.Sinks(w.g), isSink, "Sinks")
	w.sameNodes(itNodes(lpg.SourcesItr(w.g), w.lim()), isSource, "SourcesItr")
	w.sameNodes(itNodes(lpg.SinksItr(w.g), w.lim()), isSink, "SinksItr")
	for i, n := range w.nodes {
		if !n.alive {
			continue
		}
		for j, x := range w.nodes {
			if x.alive {
				w.sameEdges(lpg.EdgesBetweenNodes(n.n, x.n), func(_ int, e *mEdge) bool { return e.f == i && e.t == j }, "EdgesBetweenNodes")
			}
		}
		w.sameEnds(lpg.NextNodesWith(n.n, l), func(e *mEdge, j int) bool { return opposite(e, i, j, lpg.OutgoingEdge) && zz.And(e.label == l) }, "NextNodesWith")
		w.sameEnds(lpg.PrevNodesWith(n.n, l), func(e *mEdge, j int) bool { return opposite(e, i, j, lpg.IncomingEdge) && zz.And(e.label == l) }, "PrevNodesWith")
		w.sameEnds(lpg.TargetNodes(n.n.GetEdges(lpg.OutgoingEdge)), func(e *mEdge, j int) bool { return opposite(e, i, j, lpg.OutgoingEdge) }, "TargetNodes")
		w.sameEnds(lpg.SourceNodes(n.n.GetEdges(lpg.IncomingEdge)), func(e *mEdge, j int) bool { return opposite(e, i, j, lpg.IncomingEdge) }, "SourceNodes")
	}
	seen := 0
	all := lpg.ForEachNode(w.g, func(n *lpg.Node) bool { seen++; return true })
	zz.Assert(all && seen == len(w.liveNodes()), "ForEachNode")
	if seen > 0 {
		k := 0
		zz.Assert(!lpg.ForEachNode(w.g, func(*lpg.Node) bool { k++; return false }) && k == 1, "ForEachNode.stop")
	}
}

// Cursor navigation.
//
//sym:quick n=2 m=3
//sym:thorough n=3 m=3
func H_C26_cursor() {
	w := newWorld()
	w.labeledGraph(zz.Param("n"), zz.Param("m"))
	i := zz.Choose("at", zz.Param("n"))
	var c lpg.Cursor
	w.checkCursor(c.Set(w.nodes[i].n), i, symLabel("query"))
}

// A cursor without a node gives nothing.
//
//sym:both
func H_C26_nowhere() {
	w := newWorld()
	w.labeledGraph(1, 1)
	var c lpg.Cursor
	if zz.Choose("reset", 2) == 1 {
		c.Set(w.nodes[0].n)
		c.Set(nil)
	}
	l := symLabel("query")
	for _, d := range dirs {
		zz.Assert(!c.Edges(d).Next(), "Cursor.Edges")
		zz.Assert(!c.EdgesWith(d, l).Next(), "Cursor.EdgesWith")
		zz.Assert(!c.Nodes(d).Next(), "Cursor.Nodes")
		zz.Assert(!c.NodesWith(d, l).Next(), "Cursor.NodesWith")
	}
	zz.Assert(!c.Forward().Next() && !c.Backward().Next() && !c.NextNodes().Next() && !c.PrevNodes().Next(), "Cursor steps")
	zz.Assert(!c.ForwardWith(l).Next() && !c.BackwardWith(l).Next() && !c.NextNodesWith(l).Next() && !c.PrevNodesWith(l).Next(), "Cursor labeled steps")
}

// A larger graph.
//
//sym:quick n=6 m=10
//sym:thorough n=8 m=16
func H_C26_big() {
	w := newWorld()
	w.bigGraph(zz.Param("n"), zz.Param("m"))
	for i := 0; i < 5; i++ {
		w.addEdge(0, i, letter(i%2), nil)
	}
	if zz.Bool("removed") {
		w.removeEdge(w.pickEdge("op.edge"))
	}
	l := symLabel("query")
	if zz.Bool("helpers") {
		w.checkHelpers(l)
		return
	}
	i := zz.Choose("at", zz.Param("n"))
	var c lpg.Cursor
	w.checkCursor(c.Set(w.nodes[i].n), i, l)
}
