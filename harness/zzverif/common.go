package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

// The reference model ("world"): what the graph should contain after a
// history of calls, kept as plain lists.

type mProp struct {
	k   string
	v   any
	has bool
}

type mNode struct {
	n      *lpg.Node
	labels []string
	props  []mProp
	pv     map[string]mval // modelled property values
	alive  bool
}

type mEdge struct {
	e     *lpg.Edge
	f, t  int // node indices
	label string
	props []mProp
	pv    map[string]mval
	alive bool
}

type world struct {
	g     *lpg.Graph
	nodes []*mNode
	edges []*mEdge
}

func newWorld() *world { return &world{g: lpg.NewGraph()} }

func (w *world) addNode(labels []string, props map[string]any) *mNode {
	m := &mNode{n: w.g.NewNode(labels, props), labels: labels, alive: true, pv: map[string]mval{}}
	for k, v := range props {
		m.props = append(m.props, mProp{k, v, true})
	}
	w.nodes = append(w.nodes, m)
	return m
}

func (w *world) addEdge(f, t int, label string, props map[string]any) *mEdge {
	m := &mEdge{e: w.g.NewEdge(w.nodes[f].n, w.nodes[t].n, label, props), f: f, t: t, label: label, alive: true, pv: map[string]mval{}}
	for k, v := range props {
		m.props = append(m.props, mProp{k, v, true})
	}
	w.edges = append(w.edges, m)
	return m
}

func (w *world) removeEdge(i int) {
	w.edges[i].e.Remove()
	w.edges[i].alive = false
}

func (w *world) dropEdgesOf(i int) {
	for _, e := range w.edges {
		if e.f == i || e.t == i {
			e.alive = false
		}
	}
}

func (w *world) detach(i int) {
	w.nodes[i].n.Detach()
	w.dropEdgesOf(i)
}

func (w *world) removeNode(i int) {
	w.nodes[i].n.DetachAndRemove()
	w.dropEdgesOf(i)
	w.nodes[i].alive = false
}

func (w *world) liveNodes() []int {
	var r []int
	for i, n := range w.nodes {
		if n.alive {
			r = append(r, i)
		}
	}
	return r
}

func (w *world) liveEdges() []int {
	var r []int
	for i, e := range w.edges {
		if e.alive {
			r = append(r, i)
		}
	}
	return r
}

func (w *world) pickNode(name string) int {
	l := w.liveNodes()
	zz.Assume(len(l) > 0)
	return l[zz.Choose(name, len(l))]
}

func (w *world) pickEdge(name string) int {
	l := w.liveEdges()
	zz.Assume(len(l) > 0)
	return l[zz.Choose(name, len(l))]
}

// label is a symbolic label.
func symLabel(name string) string { return zz.StringIn(name, 1, 'A', 'Z') }

// symLabels is a symbolic label set given as a list of at most max labels
// (possibly with repetitions).
func symLabels(name string, max int) []string {
	n := zz.Choose(name+".n", max+1)
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, symLabel(name))
	}
	return r
}

func inList(s string, l []string) bool {
	r := false
	for _, x := range l {
		r = zz.Or(r, x == s)
	}
	return r
}

func allIn(a, b []string) bool {
	r := true
	for _, x := range a {
		r = zz.And(r, inList(x, b))
	}
	return r
}

func countNode(l []*lpg.Node, n *lpg.Node) int {
	c := 0
	for _, x := range l {
		if x == n {
			c++
		}
	}
	return c
}

func countEdge(l []*lpg.Edge, e *lpg.Edge) int {
	c := 0
	for _, x := range l {
		if x == e {
			c++
		}
	}
	return c
}

// itNodes drains a node iterator, at most lim items.
func itNodes(it lpg.NodeIterator, lim int) []*lpg.Node {
	var r []*lpg.Node
	for it.Next() {
		r = append(r, it.Node())
		if len(r) > lim {
			break
		}
	}
	return r
}

func itEdges(it lpg.EdgeIterator, lim int) []*lpg.Edge {
	var r []*lpg.Edge
	for it.Next() {
		r = append(r, it.Edge())
		if len(r) > lim {
			break
		}
	}
	return r
}

// sameNodes asserts that got is exactly the model nodes for which want
// holds, each once.
func (w *world) sameNodes(got []*lpg.Node, want func(i int, n *mNode) bool, id string) {
	ok := true
	found := 0
	for i, n := range w.nodes {
		c := countNode(got, n.n)
		found += c
		if !n.alive {
			ok = zz.And(ok, c == 0)
			continue
		}
		x := want(i, n)
		ok = zz.And(ok, zz.Iff(x, c == 1), c <= 1)
	}
	zz.Assert(zz.And(ok, found == len(got)), id)
}

func (w *world) sameEdges(got []*lpg.Edge, want func(i int, e *mEdge) bool, id string) {
	ok := true
	found := 0
	for i, e := range w.edges {
		c := countEdge(got, e.e)
		found += c
		if !e.alive {
			ok = zz.And(ok, c == 0)
			continue
		}
		x := want(i, e)
		ok = zz.And(ok, zz.Iff(x, c == 1), c <= 1)
	}
	zz.Assert(zz.And(ok, found == len(got)), id)
}

func (w *world) lim() int { return 2*(len(w.nodes)+len(w.edges)) + 4 }

// step performs one symbolic mutation.
func (w *world) step(ops int, maxLabels int) {
	switch zz.Choose("op", ops) {
	case 0:
		w.removeNode(w.pickNode("op.node"))
	case 1:
		i := w.pickNode("op.from")
		j := w.pickNode("op.to")
		w.addEdge(i, j, symLabel("op.elabel"), nil)
	case 2:
		w.removeEdge(w.pickEdge("op.edge"))
	case 3:
		i := w.pickNode("op.node")
		l := symLabels("op.labels", maxLabels)
		w.setLabels(i, l)
	case 4:
		i := w.pickEdge("op.edge")
		l := symLabel("op.elabel")
		w.edges[i].e.SetLabel(l)
		w.edges[i].label = l
	case 5:
		w.detach(w.pickNode("op.node"))
	case 6:
		w.addNode(symLabels("op.labels", maxLabels), nil)
	}
}

func (w *world) setLabels(i int, l []string) {
	w.nodes[i].n.SetLabels(lpg.NewStringSet(l...))
	w.nodes[i].labels = l
}

func (w *world) setEdgeLabel(i int, l string) {
	w.edges[i].e.SetLabel(l)
	w.edges[i].label = l
}
