package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

// mstep is a path element of the reference model.
type mstep struct {
	e   int
	rev bool
}

// mpath is the reference model of a path: an alternating sequence of nodes
// and edges. The empty path has no nodes.
type mpath struct {
	nodes []int
	steps []mstep
}

func (m mpath) last() int { return m.nodes[len(m.nodes)-1] }

func (w *world) ends(s mstep) (int, int) {
	e := w.edges[s.e]
	if s.rev {
		return e.t, e.f
	}
	return e.f, e.t
}

// then is the path followed by the steps; ok is false if they are not
// connected.
func (w *world) then(m mpath, steps ...mstep) (mpath, bool) {
	r := mpath{append([]int{}, m.nodes...), append([]mstep{}, m.steps...)}
	for _, s := range steps {
		a, b := w.ends(s)
		if len(r.nodes) == 0 {
			r.nodes = []int{a}
		}
		if r.last() != a {
			return m, false
		}
		r.nodes = append(r.nodes, b)
		r.steps = append(r.steps, s)
	}
	return r, true
}

func (m mpath) slice(from, to int) mpath {
	if from >= to {
		return mpath{}
	}
	return mpath{append([]int{}, m.nodes[from:to]...), append([]mstep{}, m.steps[from:to-1]...)}
}

func (m mpath) hasPrefix(p mpath) bool {
	if len(p.nodes) > len(m.nodes) {
		return false
	}
	for i, n := range p.nodes {
		if m.nodes[i] != n {
			return false
		}
	}
	for i, s := range p.steps {
		if m.steps[i] != s {
			return false
		}
	}
	return true
}

func (w *world) elements(steps []mstep) []lpg.PathElement {
	r := make([]lpg.PathElement, 0, len(steps)+2)
	for _, s := range steps {
		r = append(r, lpg.PathElement{Edge: w.edges[s.e].e, Reverse: s.rev})
	}
	return r
}

func (w *world) someStep(name string) mstep {
	s := mstep{e: zz.Choose(name, len(w.edges)), rev: zz.Bool(name + ".reverse")}
	e := w.edges[s.e]
	zz.Assume(zz.Implies(e.f == e.t, zz.Not(s.rev)))
	return s
}

// somePath builds a path of at most max steps: empty, a node, or connected
// steps.
func (w *world) somePath(name string, max int) (*lpg.Path, mpath) {
	k := zz.Choose(name+".len", max+2)
	switch k {
	case 0:
		return new(lpg.Path), mpath{}
	case 1:
		i := zz.Choose(name+".node", len(w.nodes))
		return lpg.PathFromNode(w.nodes[i].n), mpath{nodes: []int{i}}
	}
	var m mpath
	ok := true
	for i := 1; i < k; i++ {
		m, ok = w.then(m, w.someStep(name+".step"))
		zz.Assume(ok)
	}
	return lpg.NewPathFromElements(w.elements(m.steps)...), m
}

// checkPath compares everything a path tells with the model.
func (w *world) checkPath(p *lpg.Path, m mpath, id string) {
	zz.Assert(p.NumNodes() == len(m.nodes), id+".NumNodes")
	zz.Assert(p.NumEdges() == len(m.steps), id+".NumEdges")
	zz.Assert(p.IsEmpty() == (len(m.nodes) == 0), id+".IsEmpty")
	if len(m.nodes) == 0 {
		zz.Assert(p.First() == nil && p.Last() == nil, id+".ends of empty")
	} else {
		zz.Assert(p.First() == w.nodes[m.nodes[0]].n, id+".First")
		zz.Assert(p.Last() == w.nodes[m.last()].n, id+".Last")
		for i, x := range m.nodes {
			zz.Assert(p.GetNode(i) == w.nodes[x].n, id+".GetNode")
		}
	}
	for i, s := range m.steps {
		zz.Assert(p.GetEdge(i) == w.edges[s.e].e, id+".GetEdge")
	}
	zz.Assert(p.GetEdge(len(m.steps)) == nil, id+".GetEdge beyond")
}
