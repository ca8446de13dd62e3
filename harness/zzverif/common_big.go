package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

// Larger graphs of a fixed shape, for what depends on size rather than on
// shape; the operations on them and the queries are symbolic.

func letter(i int) string { return string(rune('A' + i)) }

func intProps(p, q int) (map[string]any, map[string]mval) {
	return map[string]any{"p": p, "q": q}, map[string]mval{"p": {i: p}, "q": {i: q}}
}

// bigGraph has n nodes with one to three of the labels A to E, and m edges
// labeled A to D, self-loops and parallel edges included. Some nodes and
// edges share property values.
func (w *world) bigGraph(n, m int) {
	for i := 0; i < n; i++ {
		l := []string{letter(i % 4)}
		if i%3 == 0 {
			l = append(l, letter((i+1)%4))
		}
		if i%2 == 0 {
			l = append(l, "E")
		}
		props, pv := intProps(3*i, i/2)
		w.addNode(l, props).pv = pv
	}
	w.bigEdges(n, m)
}

func (w *world) bigEdges(n, m int) {
	for i := 0; i < m; i++ {
		props, pv := intProps(3*i, i/2)
		w.addEdge(i*5%n, (i*3+i/4)%n, letter(i%4), props).pv = pv
	}
}

// chain connects n nodes in a row by edges with the given label.
func (w *world) chain(n int, label string) {
	someNodes(w, n)
	for i := 0; i+1 < n; i++ {
		w.addEdge(i, i+1, label, nil)
	}
}

func (w *world) bigIndexes() {
	switch zz.Choose("index", 3) {
	case 1:
		w.g.AddNodePropertyIndex("p", lpg.BtreeIndex)
		w.g.AddEdgePropertyIndex("q", lpg.HashIndex)
	case 2:
		w.g.AddNodePropertyIndex("q", lpg.BtreeIndex)
		w.g.AddNodePropertyIndex("p", lpg.HashIndex)
		w.g.AddEdgePropertyIndex("p", lpg.BtreeIndex)
	}
}

// bigCopies checks the copies of the nodes and edges of a graph whose edges
// have a property "id".
func (t *world) bigCopies(s *world, m map[*lpg.Node]*lpg.Node, node func(int) bool, edge func(*mEdge) bool) {
	c := 0
	for i, x := range s.nodes {
		y, ok := m[x.n]
		zz.Assert(ok == (x.alive && node(i)), "node map")
		if ok {
			zz.Assert(t.indexOf(y) < 0, "one copy per node")
			t.copied(y, x)
			c++
		}
	}
	zz.Assert(len(m) == c, "node map size")
	fresh := itEdges(t.g.GetEdges(), t.lim()+2*len(s.edges))
	for i, e := range s.edges {
		n := 0
		for _, f := range fresh {
			if v, _ := f.GetProperty("id"); v == i {
				n++
				a, b := t.indexOf(f.GetFrom()), t.indexOf(f.GetTo())
				zz.Assert(a >= 0 && b >= 0 && m[s.nodes[e.f].n] == t.nodes[a].n && m[s.nodes[e.t].n] == t.nodes[b].n, "end points")
				t.edges = append(t.edges, &mEdge{e: f, f: a, t: b, label: e.label, pv: bumped(e.pv), alive: true})
			}
		}
		zz.Assert(n == zz.B2i(e.alive && edge(e)), "one copy per edge")
	}
	zz.Assert(len(fresh) == len(t.edges), "edges")
	t.checkBoth("target")
}
