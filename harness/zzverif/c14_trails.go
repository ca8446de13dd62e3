package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

func dirItem(d lpg.EdgeDir) item {
	return item{left: d == lpg.IncomingEdge, undir: d == lpg.AnyEdge}
}

// wantTrails are the trails from node whose first edge is first(edge) in
// direction d1, and whose other edges are further(edge) in direction d.
func (w *world) wantTrails(node int, d1, d lpg.EdgeDir, min, max int, first, further func(*mEdge) bool) []match {
	var r []match
	var rec func(t walk, ok bool)
	rec = func(t walk, ok bool) {
		k := len(t.edges)
		if k > 0 && (min == -1 || k >= min) && (max == -1 || k <= max) {
			r = append(r, match{path: t, ok: ok})
		}
		if max != -1 && k >= max {
			return
		}
		it, f := dirItem(d), further
		if k == 0 {
			it, f = dirItem(d1), first
		}
		w.hops(t.last(), it, func(e, to int) {
			if !t.uses(e) {
				rec(t.then(e, to), zz.And(ok, f(w.edges[e])))
			}
		})
	}
	rec(walk{nodes: []int{node}}, true)
	return r
}

func (w *world) checkTrails(b int, label bool) {
	node := zz.Choose("from", len(w.nodes))
	d := dirs[zz.Choose("dir", len(dirs))]
	bounded := bounds(item{}, b)
	from := w.nodes[node].n
	l := symLabel("filter")
	filter := func(e *mEdge) bool { return e.label == l }
	first := anyEdge
	itr := from.GetEdges(d)
	if label {
		fl := symLabel("first")
		first = func(e *mEdge) bool { return e.label == fl }
		itr = from.GetEdgesWithLabel(d, fl)
	}
	var paths []*lpg.Path
	var early []walk
	lpg.CollectAllPaths(w.g, from, itr, func(e *lpg.Edge) bool { return e.GetLabel() == l }, d, bounded.min, bounded.max, func(p *lpg.Path) bool {
		paths = append(paths, p)
		early = append(early, w.walkOf(p))
		return true
	})
	want := w.wantTrails(node, d, d, bounded.min, bounded.max, first, filter)
	var got []walk
	for i, p := range paths {
		got = append(got, w.walkOf(p))
		zz.Assert(got[i].same(early[i]), "CollectAllPaths.retained")
		zz.Assert(p.First() == from, "CollectAllPaths.first")
	}
	sameWalks(got, want, "CollectAllPaths")
}

// Every graph, direction and bound.
//
//sym:quick n=3 m=3 b=3
//sym:thorough n=3 m=4 b=3
func H_C14_trails() {
	w := newWorld()
	someNodes(w, zz.Param("n"))
	w.connect(zz.Param("m"), func() string { return symLabel("edge") })
	w.checkTrails(zz.Param("b"), false)
}

// First edges selected by a label other than the filter's.
//
//sym:quick n=2 m=3 b=2
//sym:thorough n=2 m=4 b=3
func H_C14_firstleg() {
	w := newWorld()
	someNodes(w, zz.Param("n"))
	w.connect(zz.Param("m"), func() string { return symLabel("edge") })
	w.checkTrails(zz.Param("b"), true)
}

// More edges, all with the same label.
//
//sym:quick n=2 m=4
//sym:thorough n=3 m=4
func H_C14_dense() {
	w := newWorld()
	someNodes(w, zz.Param("n"))
	w.connect(zz.Param("m"), func() string { return "E" })
	w.checkTrails(1, false)
}

// Collection stops at the path the receiver declines.
//
//sym:quick n=2 m=3
//sym:thorough n=2 m=4
func H_C14_stop() {
	w := newWorld()
	someNodes(w, zz.Param("n"))
	w.connect(zz.Param("m"), func() string { return symLabel("edge") })
	from := w.nodes[0].n
	l := symLabel("filter")
	d := dirs[zz.Choose("dir", len(dirs))]
	collect := func(stop int) []walk {
		var r []walk
		lpg.CollectAllPaths(w.g, from, from.GetEdges(d), func(e *lpg.Edge) bool { return e.GetLabel() == l }, d, 1, -1, func(p *lpg.Path) bool {
			r = append(r, w.walkOf(p))
			return len(r) != stop
		})
		return r
	}
	all := collect(-1)
	for i := 1; i <= len(all); i++ {
		got := collect(i)
		zz.Assert(len(got) == i, "CollectAllPaths.stop")
		for j, x := range got {
			known, again := false, false
			for _, y := range all {
				known = known || x.same(y)
			}
			for _, y := range got[:j] {
				again = again || x.same(y)
			}
			zz.Assert(known && !again, "CollectAllPaths.stop.paths")
		}
	}
}

// A row of nodes and two more edges: long trails.
//
//sym:quick n=5 b=6
//sym:thorough n=7 b=8
func H_C14_long() {
	w := newWorld()
	n := zz.Param("n")
	w.chain(n, "E")
	w.addEdge(zz.Choose("from", n), zz.Choose("to", n), symLabel("shortcut"), nil)
	w.addEdge(n-1, 0, "E", nil)
	w.checkTrails(zz.Param("b"), false)
}

// The receiver may change the paths it is given.
//
//sym:quick n=3 m=3
//sym:thorough n=3 m=4
func H_C14_changed() {
	w := newWorld()
	someNodes(w, zz.Param("n"))
	w.connect(zz.Param("m"), func() string { return "E" })
	node := zz.Choose("from", len(w.nodes))
	d := dirs[zz.Choose("dir", len(dirs))]
	op := zz.Choose("change", 4)
	from := w.nodes[node].n
	var got []walk
	var kept []*lpg.Path
	lpg.CollectAllPaths(w.g, from, from.GetEdges(d), func(*lpg.Edge) bool { return true }, d, 1, -1, func(p *lpg.Path) bool {
		got = append(got, w.walkOf(p))
		for it := p.Last().GetEdges(lpg.OutgoingEdge); op == 3 && it.Next(); {
			p.Append(lpg.PathElement{Edge: it.Edge()})
			break
		}
		switch op {
		case 0:
			p.RemoveLast()
		case 1:
			p.RemoveFirst()
		case 2:
			p.SetOnlyNode(from)
		}
		kept = append(kept, p)
		return true
	})
	sameWalks(got, w.wantTrails(node, d, d, 1, -1, anyEdge, anyEdge), "CollectAllPaths")
	for i, p := range kept {
		x := w.walkOf(p)
		n, k := len(x.nodes), len(got[i].nodes)
		zz.Assert(zz.Implies(op < 2, n == k-1), "shortened")
		zz.Assert(zz.Implies(op == 2, n == 1), "only node")
		zz.Assert(zz.Implies(op == 3, n >= k), "extended")
	}
}
