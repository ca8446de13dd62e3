package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

// Construction, counts, ends and prefixes of two paths.
//
//sym:quick n=2 m=3 l=2
//sym:thorough n=3 m=3 l=3
func H_C16_prefix() {
	w := newWorld()
	someNodes(w, zz.Param("n"))
	w.connect(zz.Param("m"), func() string { return "E" })
	p, mp := w.somePath("p", zz.Param("l"))
	q, mq := w.somePath("q", zz.Param("l"))
	w.checkPath(p, mp, "p")
	if len(mp.nodes) > 0 {
		i := zz.Int("n", 0, len(mp.nodes)-1)
		n := p.GetNode(i)
		for j, x := range mp.nodes {
			zz.Assert(zz.Implies(i == j, n == w.nodes[x].n), "GetNode")
		}
	}
	zz.Assert(p.HasPrefixPath(q) == mp.hasPrefix(mq), "HasPrefixPath")
	if len(mq.steps) > 0 || len(mq.nodes) == 0 {
		zz.Assert(p.HasPrefix(w.elements(mq.steps)) == mp.hasPrefix(mq), "HasPrefix")
	}
	w.checkPath(q, mq, "q")
}

// Slices of two or more nodes, and of one node.
//
//sym:quick n=2 m=2 l=3
//sym:thorough n=2 m=3 l=4
func H_C16_slice() {
	w := newWorld()
	someNodes(w, zz.Param("n"))
	w.connect(zz.Param("m"), func() string { return "E" })
	p, m := w.somePath("p", zz.Param("l"))
	n := len(m.nodes)
	zz.Assume(n > 0)
	from := zz.Int("from", 0, n-1)
	to := zz.Int("to", -1, n+1)
	end := zz.Ite(zz.Or(to == -1, to > n), n, to)
	// a slice from a node to just before the next one is not specified
	zz.Assume(zz.Or(end == from, end >= from+2, from == n-1 && end == n))
	s := p.Slice(from, to)
	for i := 0; i < n; i++ {
		for j := i; j <= n; j++ {
			if from == i && end == j {
				e := j
				if e == i {
					e++
				}
				w.checkPath(s, m.slice(i, e), "slice")
				// the slice is a copy
				s.RemoveLast()
				if st, ok := w.then(m.slice(i, e-1), w.someStep("after")); ok && len(st.steps) > 0 {
					s.Append(w.elements(st.steps[len(st.steps)-1:])...)
					w.checkPath(s, st, "slice.changed")
				}
				w.checkPath(p, m, "sliced")
			}
		}
	}
}

// pathStep applies an operation to one of two paths.
func (w *world) pathStep(p []*lpg.Path, m []mpath) {
	i := zz.Choose("op.path", 2)
	j := 1 - i
	switch zz.Choose("op", 7) {
	case 0:
		w.appendSteps(p, m, i, w.someStep("op.step"))
	case 1:
		if len(m[j].nodes) == 0 {
			p[i].AppendPath(p[j])
		} else if len(m[i].nodes) == 0 || m[i].last() == m[j].nodes[0] {
			p[i].AppendPath(p[j])
			if len(m[i].nodes) == 0 {
				m[i] = m[j]
			} else {
				m[i], _ = w.then(m[i], m[j].steps...)
			}
		} else if len(m[j].steps) > 0 {
			zz.Assert(zz.Panics(func() { p[i].AppendPath(p[j]) }), "AppendPath.disconnected")
		}
	case 2:
		p[j], m[j] = p[i].Clone(), m[i]
	case 3:
		p[i].Clear()
		m[i] = mpath{}
	case 4:
		n := zz.Choose("op.node", len(w.nodes))
		p[i].SetOnlyNode(w.nodes[n].n)
		m[i] = mpath{nodes: []int{n}}
	case 5:
		p[i].RemoveLast()
		m[i] = m[i].slice(0, len(m[i].nodes)-1)
	case 6:
		p[i].RemoveFirst()
		if len(m[i].nodes) > 0 {
			m[i] = m[i].slice(1, len(m[i].nodes))
		}
	}
}

func (w *world) appendSteps(p []*lpg.Path, m []mpath, i int, steps ...mstep) {
	el := w.elements(steps)
	if x, ok := w.then(m[i], steps...); ok {
		p[i].Append(el...)
		m[i] = x
	} else {
		zz.Assert(zz.Panics(func() { p[i].Append(el...) }), "Append.disconnected")
	}
	for k, s := range steps {
		zz.Assert(el[k].Edge == w.edges[s.e].e && el[k].Reverse == s.rev, "Append.argument")
	}
}

// Appending several elements at once, connected or not.
//
//sym:quick n=2 m=3 l=1
//sym:thorough n=3 m=3 l=2
func H_C16_append() {
	w := newWorld()
	someNodes(w, zz.Param("n"))
	w.connect(zz.Param("m"), func() string { return "E" })
	p, m := make([]*lpg.Path, 1), make([]mpath, 1)
	p[0], m[0] = w.somePath("p", zz.Param("l"))
	w.appendSteps(p, m, 0, w.someStep("step"), w.someStep("step"))
	w.checkPath(p[0], m[0], "p")
	q := new(lpg.Path)
	q.AppendPath(p[0])
	w.checkPath(q, m[0], "q")
}

// Every short sequence of operations on two paths; no operation on one of
// them affects the other.
//
//sym:quick n=2 m=2 k=2 l=1
//sym:thorough n=2 m=2 k=3 l=2
func H_C16_history() {
	w := newWorld()
	someNodes(w, zz.Param("n"))
	w.connect(zz.Param("m"), func() string { return "E" })
	p, m := make([]*lpg.Path, 2), make([]mpath, 2)
	p[0], m[0] = w.somePath("p", zz.Param("l"))
	p[1], m[1] = w.somePath("q", 0)
	for s := 0; s < zz.Param("k"); s++ {
		w.pathStep(p, m)
	}
	w.checkPath(p[0], m[0], "p")
	w.checkPath(p[1], m[1], "q")
	zz.Assert(p[0].HasPrefixPath(p[1]) == m[0].hasPrefix(m[1]), "HasPrefixPath")
}

// Paths built from the same elements, and elements built from edges.
//
//sym:both n=2 m=3
func H_C16_elements() {
	w := newWorld()
	someNodes(w, zz.Param("n"))
	w.connect(zz.Param("m"), func() string { return "E" })
	var m mpath
	var edges []*lpg.Edge
	ok := true
	for i := 0; i < 2; i++ {
		s := mstep{e: zz.Choose("edge", len(w.edges))}
		edges = append(edges, w.edges[s.e].e)
		m, ok = w.then(m, s)
		zz.Assume(ok)
	}
	el := lpg.NewPathElementsFromEdges(edges)
	zz.Assert(len(el) == 2 && el[0].GetSourceNode() == w.nodes[m.nodes[0]].n && el[1].GetTargetNode() == w.nodes[m.nodes[2]].n, "NewPathElementsFromEdges")
	p, q := lpg.NewPathFromElements(el...), lpg.NewPathFromElements(el...)
	w.checkPath(p, m, "p")
	x, ok := w.then(m.slice(0, 2), w.someStep("other"))
	zz.Assume(ok)
	p.RemoveLast()
	p.Append(w.elements(x.steps[1:])...)
	w.checkPath(p, x, "p.changed")
	w.checkPath(q, m, "q")
}

// A path made from another one shares nothing with it: after an element of
// either is replaced, the other is what it was.
//
//sym:quick n=2 m=2 l=2
//sym:thorough n=2 m=3 l=3
func H_C16_derived() {
	w := newWorld()
	someNodes(w, zz.Param("n"))
	w.connect(zz.Param("m"), func() string { return "E" })
	var p, m = make([]*lpg.Path, 2), make([]mpath, 2)
	p[0], m[0] = w.somePath("p", zz.Param("l"))
	zz.Assume(len(m[0].steps) > 0)
	m[1] = m[0]
	switch zz.Choose("derived", 5) {
	case 0:
		p[1] = new(lpg.Path).AppendPath(p[0])
	case 1:
		p[1] = p[0].Clone()
	case 2:
		p[1] = p[0].Slice(0, -1)
	case 3:
		p[1] = lpg.PathFromNode(p[0].First()).AppendPath(p[0])
	case 4:
		p[1] = lpg.NewPathFromElements(w.elements(m[0].steps)...).Clear().AppendPath(p[0])
	}
	i := zz.Choose("changed", 2)
	if zz.Bool("first removed") {
		p[i].RemoveFirst()
		m[i] = m[i].slice(1, len(m[i].nodes))
	}
	p[i].RemoveLast()
	m[i] = m[i].slice(0, len(m[i].nodes)-1)
	x, ok := w.then(m[i], w.someStep("step"))
	zz.Assume(ok)
	p[i].Append(w.elements(x.steps[len(x.steps)-1:])...)
	m[i] = x
	w.checkPath(p[0], m[0], "p")
	w.checkPath(p[1], m[1], "q")
}

// Longer paths on a row of nodes.
//
//sym:quick n=7
//sym:thorough n=9
func H_C16_long() {
	w := newWorld()
	n := zz.Param("n")
	w.chain(n, "E")
	w.addEdge(n-1, 0, "E", nil)
	step := func(i int) mstep { return mstep{e: i} }
	if zz.Bool("backwards") {
		step = func(i int) mstep { return mstep{e: n - 2 - i, rev: true} }
	}
	var st []mstep
	for i := 0; i < n-1; i++ {
		st = append(st, step(i))
	}
	m, ok := w.then(mpath{}, st...)
	zz.Assert(ok, "row")
	p := lpg.NewPathFromElements(w.elements(st)...)
	q := new(lpg.Path)
	k := zz.Choose("split", n-1)
	q.Append(w.elements(st[:k])...)
	zz.Assert(p.HasPrefixPath(q) && p.HasPrefix(w.elements(st[:k])), "HasPrefix")
	zz.Assert(q.HasPrefixPath(p) == (k == n-1), "HasPrefixPath")
	q.AppendPath(lpg.NewPathFromElements(w.elements(st[k:])...))
	w.checkPath(q, m, "joined")
	from := zz.Choose("from", n)
	to := from + zz.Choose("to", n-from+1)
	zz.Assume(to == from || to >= from+2 || from == n-1)
	e := to
	if e == from {
		e++
	}
	s := p.Slice(from, to)
	w.checkPath(s, m.slice(from, e), "slice")
	for i := zz.Choose("shortened", 3); i > 0 && len(m.nodes) > 0; i-- {
		p.RemoveFirst().RemoveLast()
		m = m.slice(1, len(m.nodes)-1)
	}
	w.checkPath(p, m, "shortened")
}
