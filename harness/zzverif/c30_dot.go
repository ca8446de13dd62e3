package zzverif

import (
	"io"

	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

// dotGraph is an arbitrary graph with arbitrary edge labels.
func dotGraph() *world {
	w := newWorld()
	someNodes(w, zz.Choose("nodes", zz.Param("n"))+1)
	w.connect(zz.Choose("edges", zz.Param("m")+1), func() string { return zz.StringIn("label", zz.Param("l"), 0x01, 0x7f) })
	return w
}

// describes asserts that the document declares exactly the ids of the
// included nodes and exactly the edges between them. ids maps nodes to
// identifiers.
func (w *world) describes(doc string, ids map[int]string, id string) {
	_, stmts, ok := readDOT(doc)
	zz.Assert(ok, id+".wellformed")
	decl := 0
	var edges []dotStmt
	for _, s := range stmts {
		switch len(s.ids) {
		case 1:
			n := 0
			for _, x := range ids {
				if x == s.ids[0] {
					n++
				}
			}
			zz.Assert(n == 1, id+".declaration")
			decl++
		case 2:
			edges = append(edges, s)
		}
	}
	zz.Assert(decl == len(ids), id+".declarations")
	zz.Assert(w.edgesDescribed(edges, ids), id+".edges")
}

// edgesDescribed: the statements are, in some order, exactly the edges
// between nodes with an identifier.
func (w *world) edgesDescribed(stmts []dotStmt, ids map[int]string) bool {
	var want []*mEdge
	for _, e := range w.edges {
		if ids[e.f] != "" && ids[e.t] != "" {
			want = append(want, e)
		}
	}
	if len(want) != len(stmts) {
		return false
	}
	used := make([]bool, len(stmts))
	r := false
	var rec func(i int, c bool)
	rec = func(i int, c bool) {
		if i == len(want) {
			r = zz.Or(r, c)
			return
		}
		for j, s := range stmts {
			if used[j] || s.ids[0] != ids[want[i].f] || s.ids[1] != ids[want[i].t] {
				continue
			}
			label := ""
			for _, a := range s.attrs {
				if a.k == "label" {
					label = a.v
				}
			}
			used[j] = true
			rec(i+1, zz.And(c, label == want[i].label))
			used[j] = false
		}
	}
	rec(0, true)
	return r
}

// The default renderers; identifiers are found by trying every assignment.
//
//sym:quick n=3 m=2 l=1
//sym:quick n=2 m=1 l=4
//sym:thorough n=3 m=2 l=1
//sym:thorough n=2 m=1 l=5
func H_C30_default() {
	w := dotGraph()
	out := &textSink{}
	err := lpg.DOTRenderer{}.Render(w.g, "g", out)
	zz.Assert(err == nil, "Render.err")
	name, stmts, ok := readDOT(string(out.b))
	zz.Assert(ok, "Render.wellformed")
	zz.Assert(name == "g", "Render.name")
	var ids []string
	var edges []dotStmt
	for _, s := range stmts {
		if len(s.ids) == 1 {
			for _, x := range ids {
				zz.Assert(x != s.ids[0], "Render.distinct")
			}
			ids = append(ids, s.ids[0])
		}
		if len(s.ids) == 2 {
			edges = append(edges, s)
		}
	}
	zz.Assert(len(ids) == len(w.nodes), "Render.declarations")
	found := false
	used := make([]bool, len(ids))
	var rec func(m map[int]string, i int)
	rec = func(m map[int]string, i int) {
		if i == len(ids) {
			found = zz.Or(found, w.edgesDescribed(edges, m))
			return
		}
		for j, x := range ids {
			if !used[j] {
				used[j] = true
				m[i] = x
				rec(m, i+1)
				used[j] = false
			}
		}
	}
	rec(map[int]string{}, 0)
	zz.Assert(found, "Render.edges")
}

// A node renderer that excludes nodes, and an edge renderer of either kind.
//
//sym:quick n=3 m=2 l=1
//sym:thorough n=3 m=3 l=1
func H_C30_excluding() {
	w := dotGraph()
	ids := map[int]string{}
	calls := map[int]int{}
	excluded := map[int]bool{}
	for i := range w.nodes {
		excluded[i] = zz.Bool("excluded")
	}
	r := lpg.DOTRenderer{NodeRenderer: func(id string, n *lpg.Node, out io.Writer) (bool, error) {
		i := w.indexOf(n)
		calls[i]++
		if excluded[i] {
			return false, nil
		}
		ids[i] = id
		return true, lpg.DefaultDOTNodeRender(id, n, out)
	}}
	if zz.Bool("edgerenderer") {
		r.EdgeRenderer = func(from, to string, e *lpg.Edge, out io.Writer) (bool, error) {
			x := w.edges[w.edgeIndex(e)]
			zz.Assert(!excluded[x.f] && !excluded[x.t], "EdgeRenderer.included")
			zz.Assert(from == ids[x.f] && to == ids[x.t], "EdgeRenderer.ids")
			return true, lpg.DefaultDOTEdgeRender(from, to, e, out)
		}
	}
	out := &textSink{}
	zz.Assert(r.Render(w.g, "g", out) == nil, "Render.err")
	for i := range w.nodes {
		zz.Assert(calls[i] == 1, "NodeRenderer.once")
	}
	w.describes(string(out.b), ids, "Render")
}

// A write that fails, or a renderer that fails, makes rendering fail.
//
//sym:quick n=3 m=2 l=1
//sym:thorough n=3 m=3 l=1
func H_C30_failing() {
	w := dotGraph()
	out := &textSink{failAt: zz.Choose("fail", 9)}
	r := lpg.DOTRenderer{}
	rendererFailed := false
	switch zz.Choose("renderer", 3) {
	case 1:
		r.NodeRenderer = func(id string, n *lpg.Node, o io.Writer) (bool, error) {
			if zz.Bool("nodefails") {
				rendererFailed = true
				return zz.Bool("rendered"), errSink
			}
			return true, lpg.DefaultDOTNodeRender(id, n, o)
		}
	case 2:
		r.EdgeRenderer = func(from, to string, e *lpg.Edge, o io.Writer) (bool, error) {
			if zz.Bool("edgefails") {
				rendererFailed = true
				return zz.Bool("rendered"), errSink
			}
			return true, lpg.DefaultDOTEdgeRender(from, to, e, o)
		}
	}
	err := r.Render(w.g, "g", out)
	zz.Assert(zz.Iff(err == nil, !(out.failed || rendererFailed)), "Render.noerror")
}

// A larger graph, whose identifiers a node renderer tells; one node may be
// excluded.
//
//sym:quick n=12 m=14
//sym:thorough n=24 m=30
func H_C30_big() {
	w := newWorld()
	w.bigGraph(zz.Param("n"), zz.Param("m"))
	for i, e := range w.edges {
		w.setEdgeLabel(i, e.label+letter(i%26)+"é日"+letter(i/26))
	}
	excluded := zz.Choose("excluded", len(w.nodes)+1)
	ids := map[int]string{}
	r := lpg.DOTRenderer{NodeRenderer: func(id string, n *lpg.Node, out io.Writer) (bool, error) {
		i := w.indexOf(n)
		if i == excluded {
			return false, nil
		}
		ids[i] = id
		return true, lpg.DefaultDOTNodeRender(id, n, out)
	}}
	out := &textSink{}
	zz.Assert(r.Render(w.g, "g", out) == nil, "Render.err")
	_, stmts, ok := readDOT(string(out.b))
	zz.Assert(ok, "Render.wellformed")
	decl := map[string]bool{}
	arrows := map[string]int{}
	n := 0
	for _, s := range stmts {
		if len(s.ids) == 1 {
			zz.Assert(!decl[s.ids[0]], "Render.distinct")
			decl[s.ids[0]] = true
		}
		if len(s.ids) == 2 {
			n++
			for _, a := range s.attrs {
				if a.k == "label" {
					arrows[s.ids[0]+" "+s.ids[1]+" "+a.v]++
				}
			}
		}
	}
	zz.Assert(len(decl) == len(ids), "Render.declarations")
	for _, id := range ids {
		zz.Assert(decl[id], "Render.declaration")
	}
	for _, e := range w.edges {
		if e.f == excluded || e.t == excluded {
			continue
		}
		zz.Assert(arrows[ids[e.f]+" "+ids[e.t]+" "+e.label] == 1, "Render.edge")
		n--
	}
	zz.Assert(n == 0, "Render.edges")
}

// The parts of a document, written by hand: single nodes and edges, and the
// nodes and edges of graphs.
//
//sym:quick n=2 m=2 l=1
//sym:thorough n=3 m=2 l=2
func H_C30_parts() {
	w := dotGraph()
	ids := map[int]string{}
	r := lpg.DOTRenderer{}
	out := &textSink{}
	io.WriteString(out, "digraph g {\n")
	if zz.Bool("single") {
		for i, n := range w.nodes {
			ids[i] = "x" + letter(i)
			ok, err := r.RenderNode(ids[i], n.n, out)
			zz.Assert(ok && err == nil, "RenderNode")
		}
		for _, e := range w.edges {
			ok, err := r.RenderEdge(ids[e.f], ids[e.t], e.e, out)
			zz.Assert(ok && err == nil, "RenderEdge")
		}
	} else {
		r.NodeRenderer = func(id string, n *lpg.Node, out io.Writer) (bool, error) {
			ids[w.indexOf(n)] = id
			return true, lpg.DefaultDOTNodeRender(id, n, out)
		}
		zz.Assert(r.RenderNodesEdges(w.g, out) == nil, "RenderNodesEdges")
	}
	io.WriteString(out, "}\n")
	w.describes(string(out.b), ids, "parts")
}
