package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

func (w *world) propNode(kinds []int) {
	if zz.Choose("node.has", 2) == 0 {
		w.addNode(nil, nil)
		return
	}
	v, m := symOf("node.p", kinds)
	w.addNode(nil, map[string]any{"p": v}).pv["p"] = m
}

func (w *world) nodeIndexHistory(kinds []int) {
	w.someIndexHistory(func() {
		w.propNode(kinds)
	}, func() {
		switch zz.Choose("op", 4) {
		case 0:
			v, m := symOf("op.p", kinds)
			w.setNodeProp(w.pickNode("op.node"), "p", v, m)
		case 1:
			w.removeNodeProp(w.pickNode("op.node"), "p")
		case 2:
			w.removeNode(w.pickNode("op.node"))
		case 3:
			w.propNode(kinds)
		}
	}, func() { w.g.AddNodePropertyIndex("p", indexType("index")) })
}

// Values of one comparable family.
//
//sym:quick n=1 k=2 l=1
//sym:thorough n=2 k=2 l=1
func H_C06_history() {
	w := newWorld()
	f := families[zz.Choose("family", len(families))]
	w.nodeIndexHistory(f)
	q, mq := symOf("query", f)
	w.checkNodeIndex(q, mq)
}

// Longer histories of plain integers.
//
//sym:quick n=1 k=3 l=0
//sym:thorough n=2 k=3 l=0
func H_C06_ints() {
	w := newWorld()
	w.nodeIndexHistory([]int{kInt})
	q, mq := symOf("query", []int{kInt})
	w.checkNodeIndex(q, mq)
}

// A hash index holds values of any mixture of kinds; a lookup may use a
// value of a kind that no node has.
//
//sym:quick n=2 k=1 l=1
//sym:thorough n=2 k=2 l=1
func H_C06_mixed() {
	w := newWorld()
	kinds := []int{kInt, kString, kInts, kStrings, kAnys}
	n := zz.Param("n")
	w.g.AddNodePropertyIndex("p", lpg.HashIndex)
	for i := 0; i < n; i++ {
		w.propNode(kinds)
	}
	for i := 0; i < zz.Param("k"); i++ {
		v, m := symOf("op.p", kinds)
		w.setNodeProp(w.pickNode("op.node"), "p", v, m)
	}
	q, mq := symOf("query", append([]int{kNativeInt, kNativeInts, kNested}, kinds...))
	w.checkNodeIndex(q, mq)
}

// Looking up a value of another kind in a B-tree index finds nothing.
//
//sym:both n=2 l=1
func H_C06_otherkind() {
	w := newWorld()
	f := families[zz.Choose("family", len(families))]
	if zz.Choose("indexed", 2) == 1 {
		w.g.AddNodePropertyIndex("p", indexType("index"))
	}
	for i := 0; i < zz.Param("n"); i++ {
		w.propNode(f)
	}
	q, mq := symOf("query", []int{kInt, kString, kInts, kStrings, kAnys, kNativeInt})
	w.checkNodeIndex(q, mq)
}

// Nodes with several properties of which any can be indexed.
//
//sym:quick n=1 k=2
//sym:thorough n=2 k=2
func H_C06_several() {
	w := newWorld()
	indexConfig("index", w.g.AddNodePropertyIndex)
	add := func() {
		props, pv := twoProps("node")
		w.addNode(nil, props).pv = pv
	}
	for i := 0; i < zz.Param("n"); i++ {
		add()
	}
	for i := 0; i < zz.Param("k"); i++ {
		switch zz.Choose("op", 4) {
		case 0:
			k, v, m := oneOf("op.key")
			w.setNodeProp(w.pickNode("op.node"), k, v, m)
		case 1:
			w.removeNodeProp(w.pickNode("op.node"), []string{"p", "q"}[zz.Choose("op.key", 2)])
		case 2:
			w.removeNode(w.pickNode("op.node"))
		case 3:
			add()
		}
	}
	w.checkNodeKey(oneOf("query"))
}

// Many values in an index.
//
//sym:quick n=9 k=1
//sym:thorough n=24 k=2
func H_C06_big() {
	w := newWorld()
	early := zz.Bool("early")
	if early {
		w.bigIndexes()
	}
	for i := 0; i < zz.Param("n"); i++ {
		props, pv := intProps(7*i%zz.Param("n"), i/4)
		w.addNode(nil, props).pv = pv
	}
	if !early {
		w.bigIndexes()
	}
	key := []string{"p", "q"}[zz.Choose("query.key", 2)]
	q, mq := symScalar("query", false, 0)
	for s := 0; s < zz.Param("k"); s++ {
		i := w.pickNode("op.node")
		k := []string{"p", "q"}[zz.Choose("op.key", 2)]
		switch zz.Choose("op", 3) {
		case 0:
			old := w.nodes[i].pv[k]
			v, m := symScalar("op.value", false, 0)
			w.setNodeProp(i, k, v, m)
			if zz.Bool("old") {
				m = old
			}
			key, q, mq = k, m.i, m
		case 1:
			w.removeNodeProp(i, k)
		case 2:
			w.removeNode(i)
		}
	}
	w.checkNodeKey(key, q, mq)
}
