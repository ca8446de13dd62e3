package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

type nmWorld struct {
	*world
	nm *lpg.NodeMap
	in []bool
}

func (w *nmWorld) step(l int) {
	i := zz.Choose("op.node", len(w.nodes))
	n := w.nodes[i]
	switch zz.Choose("op", 3) {
	case 0:
		w.nm.Add(n.n)
		w.in[i] = true
	case 1:
		w.nm.Remove(n.n)
		w.in[i] = false
	case 2:
		zz.Assume(w.in[i])
		labels := symLabels("op.labels", l)
		s := lpg.NewStringSet(labels...)
		w.nm.Replace(n.n, n.n.GetLabels(), s)
		n.n.SetLabels(s)
		n.labels = labels
	}
}

func (w *nmWorld) check(q []string) {
	c := 0
	for _, x := range w.in {
		if x {
			c++
		}
	}
	zz.Assert(w.nm.IsEmpty() == (c == 0), "IsEmpty")
	w.sameNodes(itNodes(w.nm.Iterator(), w.lim()), func(i int, _ *mNode) bool { return w.in[i] }, "Iterator")
	w.sameNodes(itNodes(w.nm.IteratorAllLabels(lpg.NewStringSet(q...)), w.lim()), func(i int, n *mNode) bool {
		return zz.And(w.in[i], allIn(q, n.labels))
	}, "IteratorAllLabels")
}

// Nodes with several labels.
//
//sym:quick n=2 l=2 k=1 q=2
//sym:thorough n=2 l=2 k=2 q=2
func H_C29_labels() {
	w := &nmWorld{newWorld(), lpg.NewNodeMap(), nil}
	for i := 0; i < zz.Param("n"); i++ {
		n := w.addNode(symLabels("labels", zz.Param("l")), nil)
		w.nm.Add(n.n)
		w.in = append(w.in, true)
	}
	for s := zz.Choose("k", zz.Param("k")+1); s > 0; s-- {
		w.step(zz.Param("l"))
	}
	w.check(symLabels("query", zz.Param("q")))
}

// Longer histories with at most one label, from an empty map.
//
//sym:quick n=3 k=4
//sym:thorough n=3 k=5
func H_C29_history() {
	w := &nmWorld{newWorld(), lpg.NewNodeMap(), nil}
	for i := 0; i < zz.Param("n"); i++ {
		w.addNode(symLabels("labels", 1), nil)
		w.in = append(w.in, false)
	}
	for s := 0; s < zz.Param("k"); s++ {
		w.step(1)
	}
	w.check(symLabels("query", 1))
}

// More nodes and labels.
//
//sym:quick n=7 k=1 q=2
//sym:thorough n=9 k=2 q=2
func H_C29_big() {
	w := &nmWorld{newWorld(), lpg.NewNodeMap(), nil}
	w.bigGraph(zz.Param("n"), 0)
	for _, n := range w.nodes {
		w.nm.Add(n.n)
		w.in = append(w.in, true)
	}
	for s := 0; s < zz.Param("k"); s++ {
		w.step(1)
	}
	w.check(symLabels("query", zz.Param("q")))
}

// Nodes of two graphs, so that there are several with the same id.
//
//sym:quick k=3
//sym:thorough k=5
func H_C29_graphs() {
	a, b := newWorld(), newWorld()
	nm := lpg.NewNodeMap()
	var ns []*mNode
	for _, w := range []*world{a, b} {
		for i := 0; i < 2; i++ {
			ns = append(ns, w.addNode(symLabels("labels", 1), nil))
		}
	}
	in := []bool{true, true, true, true}
	for _, n := range ns {
		nm.Add(n.n)
	}
	for s := 0; s < zz.Param("k"); s++ {
		i := zz.Choose("op.node", len(ns))
		if in[i] {
			nm.Remove(ns[i].n)
		} else {
			nm.Add(ns[i].n)
		}
		in[i] = !in[i]
	}
	q := symLabels("query", 1)
	all := itNodes(nm.Iterator(), 8)
	found := itNodes(nm.IteratorAllLabels(lpg.NewStringSet(q...)), 8)
	c := 0
	for i, n := range ns {
		na, nf := 0, 0
		for _, x := range all {
			na += zz.B2i(x == n.n)
		}
		for _, x := range found {
			nf += zz.B2i(x == n.n)
		}
		c += zz.B2i(in[i])
		zz.Assert(na == zz.B2i(in[i]), "Iterator")
		zz.Assert(nf == zz.B2i(zz.And(in[i], allIn(q, n.labels))), "IteratorAllLabels")
	}
	zz.Assert(len(all) == c, "Iterator.all")
	zz.Assert(nm.IsEmpty() == (c == 0), "IsEmpty")
}
