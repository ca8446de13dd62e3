package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

// Removing from both ends of a path.
//
//sym:quick n=2 m=2 l=2
//sym:thorough n=3 m=3 l=3
func H_C17_remove() {
	w := newWorld()
	someNodes(w, zz.Param("n"))
	w.connect(zz.Param("m"), func() string { return symLabel("edge") })
	p, m := w.somePath("p", zz.Param("l"))
	q := p.Clone()
	mq := m
	for len(m.nodes) > 0 {
		if zz.Bool("last") {
			zz.Assert(p.RemoveLast() == p, "RemoveLast")
			m = m.slice(0, len(m.nodes)-1)
		} else {
			zz.Assert(p.RemoveFirst() == p, "RemoveFirst")
			m = m.slice(1, len(m.nodes))
		}
		w.checkPath(p, m, "removed")
	}
	p.RemoveLast()
	p.RemoveFirst()
	w.checkPath(p, m, "empty")
	w.checkPath(q, mq, "clone")
	w.checkStructure("graph")
	w.checkLabel("")
}

// Pushing to and popping from the path of a cursor.
//
//sym:quick n=2 m=3 k=3
//sym:thorough n=3 m=4 k=4
func H_C17_cursor() {
	w := newWorld()
	someNodes(w, zz.Param("n"))
	w.connect(zz.Param("m"), func() string { return symLabel("edge") })
	at := zz.Choose("start", len(w.nodes))
	var c lpg.Cursor
	c.Set(w.nodes[at].n).StartPath()
	m := mpath{nodes: []int{at}}
	for s := 0; s < zz.Param("k"); s++ {
		if zz.Bool("push") {
			st := mstep{e: zz.Choose("op.edge", len(w.edges))}
			x, ok := w.then(m, st)
			if !ok {
				e := w.edges[st.e]
				if e.t != m.last() {
					zz.Assert(zz.Panics(func() { c.PushToPath(e.e) }), "PushToPath.disconnected")
				}
				break
			}
			c.PushToPath(w.edges[st.e].e)
			m = x
		} else {
			if len(m.steps) == 0 {
				break
			}
			c.PopFromPath()
			m = m.slice(0, len(m.nodes)-1)
		}
		w.checkPath(c.GetPath(), m, "path")
		w.sameAdj(itEdges(c.Edges(lpg.AnyEdge), w.lim()), m.last(), lpg.AnyEdge, anyEdge, "cursor")
	}
	w.checkStructure("graph")
}

// Popping the last node leaves an empty path.
//
//sym:both
func H_C17_empty() {
	w := newWorld()
	someNodes(w, 2)
	w.connect(1, func() string { return symLabel("edge") })
	var c lpg.Cursor
	i := zz.Choose("start", 2)
	c.Set(w.nodes[i].n).StartPath()
	w.checkPath(c.GetPath(), mpath{nodes: []int{i}}, "path")
	c.PopFromPath()
	w.checkPath(c.GetPath(), mpath{}, "path")
	w.checkStructure("graph")
}

// Longer walks of a cursor.
//
//sym:quick n=6
//sym:thorough n=9
func H_C17_long() {
	w := newWorld()
	n := zz.Param("n")
	w.chain(n, "E")
	var c lpg.Cursor
	c.Set(w.nodes[0].n).StartPath()
	m := mpath{nodes: []int{0}}
	to := zz.Choose("to", n)
	for i := 0; i < to; i++ {
		c.PushToPath(w.edges[i].e)
		m, _ = w.then(m, mstep{e: i})
	}
	kept := c.GetPath().Clone()
	mk := m
	for i := zz.Choose("back", to+1); i > 0; i-- {
		c.PopFromPath()
		m = m.slice(0, len(m.nodes)-1)
	}
	w.checkPath(c.GetPath(), m, "path")
	w.checkPath(kept, mk, "clone")
	w.sameAdj(itEdges(c.Edges(lpg.AnyEdge), w.lim()), m.last(), lpg.AnyEdge, anyEdge, "cursor")
	w.checkStructure("graph")
}
