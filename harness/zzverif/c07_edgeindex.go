package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

func (w *world) propEdge(kinds []int) {
	t := (len(w.edges) + 1) % 2
	l := "L"
	if zz.Choose("edge.has", 2) == 0 {
		w.addEdge(0, t, l, nil)
		return
	}
	v, m := symOf("edge.p", kinds)
	w.addEdge(0, t, l, map[string]any{"p": v}).pv["p"] = m
}

func (w *world) edgeIndexHistory(kinds []int) {
	w.someIndexHistory(func() {
		w.propEdge(kinds)
	}, func() {
		switch zz.Choose("op", 6) {
		case 0:
			v, m := symOf("op.p", kinds)
			w.setEdgeProp(w.pickEdge("op.edge"), "p", v, m)
		case 1:
			w.removeEdgeProp(w.pickEdge("op.edge"), "p")
		case 2:
			w.removeEdge(w.pickEdge("op.edge"))
		case 3:
			zz.Assume(w.nodes[0].alive && w.nodes[1].alive)
			w.propEdge(kinds)
		case 4:
			w.setEdgeLabel(w.pickEdge("op.edge"), symLabel("op.label"))
		case 5:
			i := zz.Choose("op.node", 2)
			zz.Assume(w.nodes[i].alive)
			if zz.Choose("op.detach", 2) == 0 {
				w.detach(i)
			} else {
				w.removeNode(i)
			}
		}
	}, func() { w.g.AddEdgePropertyIndex("p", indexType("index")) })
}

// Values of one comparable family.
//
//sym:quick n=2 k=1 l=1
//sym:thorough n=2 k=2 l=1
func H_C07_history() {
	w := newWorld()
	someNodes(w, 2)
	f := families[zz.Choose("family", len(families))]
	w.edgeIndexHistory(f)
	q, mq := symOf("query", f)
	w.checkEdgeIndex(q, mq)
}

// Longer histories of plain integers.
//
//sym:quick n=2 k=2 l=0
//sym:thorough n=2 k=3 l=0
func H_C07_ints() {
	w := newWorld()
	someNodes(w, 2)
	w.edgeIndexHistory([]int{kInt})
	q, mq := symOf("query", []int{kInt})
	w.checkEdgeIndex(q, mq)
}

// A hash index holds values of any mixture of kinds.
//
//sym:quick n=2 k=0 l=1
//sym:thorough n=2 k=1 l=1
func H_C07_mixed() {
	w := newWorld()
	someNodes(w, 2)
	kinds := []int{kInt, kString, kInts, kStrings, kAnys}
	n := zz.Param("n")
	w.g.AddEdgePropertyIndex("p", lpg.HashIndex)
	for i := 0; i < n; i++ {
		w.propEdge(kinds)
	}
	for i := 0; i < zz.Param("k"); i++ {
		v, m := symOf("op.p", kinds)
		w.setEdgeProp(w.pickEdge("op.edge"), "p", v, m)
	}
	q, mq := symOf("query", append([]int{kNativeInt, kNativeInts, kNested}, kinds...))
	w.checkEdgeIndex(q, mq)
}

// Looking up a value of another kind finds nothing.
//
//sym:both n=2 l=1
func H_C07_otherkind() {
	w := newWorld()
	someNodes(w, 2)
	f := families[zz.Choose("family", len(families))]
	if zz.Choose("indexed", 2) == 1 {
		w.g.AddEdgePropertyIndex("p", indexType("index"))
	}
	for i := 0; i < zz.Param("n"); i++ {
		w.propEdge(f)
	}
	q, mq := symOf("query", []int{kInt, kString, kInts, kStrings, kAnys, kNativeInt})
	w.checkEdgeIndex(q, mq)
}

// Edges with several properties of which any can be indexed.
//
//sym:quick n=1 k=2
//sym:thorough n=2 k=2
func H_C07_several() {
	w := newWorld()
	someNodes(w, 2)
	indexConfig("index", w.g.AddEdgePropertyIndex)
	add := func() {
		zz.Assume(w.nodes[0].alive && w.nodes[1].alive)
		props, pv := twoProps("edge")
		w.addEdge(0, len(w.edges)%2, "L", props).pv = pv
	}
	for i := 0; i < zz.Param("n"); i++ {
		add()
	}
	for i := 0; i < zz.Param("k"); i++ {
		switch zz.Choose("op", 5) {
		case 0:
			k, v, m := oneOf("op.key")
			w.setEdgeProp(w.pickEdge("op.edge"), k, v, m)
		case 1:
			w.removeEdgeProp(w.pickEdge("op.edge"), []string{"p", "q"}[zz.Choose("op.key", 2)])
		case 2:
			w.removeEdge(w.pickEdge("op.edge"))
		case 3:
			add()
		case 4:
			w.removeNode(w.pickNode("op.node"))
		}
	}
	w.checkEdgeKey(oneOf("query"))
}

// Many values in an index.
//
//sym:quick n=9 k=1
//sym:thorough n=24 k=2
func H_C07_big() {
	w := newWorld()
	someNodes(w, 3)
	early := zz.Bool("early")
	if early {
		w.bigIndexes()
	}
	for i := 0; i < zz.Param("n"); i++ {
		props, pv := intProps(7*i%zz.Param("n"), i/4)
		w.addEdge(i%3, i/2%3, letter(i%4), props).pv = pv
	}
	if !early {
		w.bigIndexes()
	}
	key := []string{"p", "q"}[zz.Choose("query.key", 2)]
	q, mq := symScalar("query", false, 0)
	for s := 0; s < zz.Param("k"); s++ {
		i := w.pickEdge("op.edge")
		k := []string{"p", "q"}[zz.Choose("op.key", 2)]
		switch zz.Choose("op", 5) {
		case 0:
			old := w.edges[i].pv[k]
			v, m := symScalar("op.value", false, 0)
			w.setEdgeProp(i, k, v, m)
			if zz.Bool("old") {
				m = old
			}
			key, q, mq = k, m.i, m
		case 1:
			w.removeEdgeProp(i, k)
		case 2:
			w.removeEdge(i)
		case 3:
			w.setEdgeLabel(i, symLabel("op.label"))
		case 4:
			w.removeNode(w.pickNode("op.node"))
		}
	}
	w.checkEdgeKey(key, q, mq)
}
