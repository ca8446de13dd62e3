package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

// Families of values that are comparable with each other.
var families = [][]int{
	{kInt, kNativeInt},
	{kString, kNativeString},
	{kInts, kNativeInts},
	{kStrings},
}

// symOf is a symbolic value of one of the kinds.
func symOf(name string, kinds []int) (any, mval) {
	return symValue(name, kinds[zz.Choose(name+".kind", len(kinds))], zz.Param("l"), 1)
}

func indexType(name string) lpg.IndexType {
	if zz.Choose(name, 2) == 0 {
		return lpg.BtreeIndex
	}
	return lpg.HashIndex
}

func (w *world) setNodeProp(i int, k string, v any, m mval) {
	w.nodes[i].n.SetProperty(k, v)
	w.nodes[i].pv[k] = m
}

func (w *world) removeNodeProp(i int, k string) {
	w.nodes[i].n.RemoveProperty(k)
	delete(w.nodes[i].pv, k)
}

func (w *world) setEdgeProp(i int, k string, v any, m mval) {
	w.edges[i].e.SetProperty(k, v)
	w.edges[i].pv[k] = m
}

func (w *world) removeEdgeProp(i int, k string) {
	w.edges[i].e.RemoveProperty(k)
	delete(w.edges[i].pv, k)
}

func matches(pv map[string]mval, k string, q mval) bool {
	m, ok := pv[k]
	if !ok {
		return false
	}
	return meq(m, q)
}

func has(pv map[string]mval, k string) bool {
	_, ok := pv[k]
	return ok
}

func (w *world) checkNodeIndex(q any, mq mval) { w.checkNodeKey("p", q, mq) }

func (w *world) checkEdgeIndex(q any, mq mval) { w.checkEdgeKey("p", q, mq) }

func (w *world) checkNodeKey(k string, q any, mq mval) {
	got := itNodes(w.g.FindNodes(lpg.StringSet{}, map[string]any{k: q}), w.lim())
	w.sameNodes(got, func(i int, n *mNode) bool { return matches(n.pv, k, mq) }, "FindNodes")
	got = itNodes(w.g.GetNodesWithProperty(k), w.lim())
	w.sameNodes(got, func(i int, n *mNode) bool { return has(n.pv, k) }, "GetNodesWithProperty")
}

func (w *world) checkEdgeKey(k string, q any, mq mval) {
	got := itEdges(w.g.FindEdges(lpg.StringSet{}, map[string]any{k: q}), w.lim())
	w.sameEdges(got, func(i int, e *mEdge) bool { return matches(e.pv, k, mq) }, "FindEdges")
	got = itEdges(w.g.GetEdgesWithProperty(k), w.lim())
	w.sameEdges(got, func(i int, e *mEdge) bool { return has(e.pv, k) }, "GetEdgesWithProperty")
}

// oneOf is one of the properties of twoProps.
func oneOf(name string) (string, any, mval) {
	if zz.Choose(name, 2) == 0 {
		v, m := symScalar(name+".p", false, 1)
		return "p", v, m
	}
	v, m := symScalar(name+".q", true, 1)
	return "q", v, m
}

// someIndexHistory creates n items, performs k steps, and adds the index at
// an arbitrary moment (or never).
func (w *world) someIndexHistory(create, step, index func()) {
	n, k := zz.Param("n"), zz.Param("k")
	at := zz.Choose("indexAt", n+k+2)
	for i := 0; i < n; i++ {
		if at == i {
			index()
		}
		create()
	}
	for i := 0; i < k; i++ {
		if at == n+i {
			index()
		}
		step()
	}
	if at == n+k {
		index()
	}
}

// twoProps is a symbolic property map over p (integers) and q (strings).
func twoProps(name string) (map[string]any, map[string]mval) {
	pv := map[string]mval{}
	props := map[string]any{}
	c := zz.Choose(name+".props", 4)
	if c&1 != 0 {
		v, m := symScalar(name+".p", false, 1)
		props["p"] = v
		pv["p"] = m
	}
	if c&2 != 0 {
		v, m := symScalar(name+".q", true, 1)
		props["q"] = v
		pv["q"] = m
	}
	return props, pv
}

func allMatch(pv, q map[string]mval) bool {
	ok := true
	for k, m := range q {
		ok = zz.And(ok, matches(pv, k, m))
	}
	return ok
}

// indexConfig adds a symbolic choice of indexes.
func indexConfig(name string, add func(string, lpg.IndexType)) {
	for _, k := range []string{"p", "q"} {
		switch zz.Choose(name+"."+k, 3) {
		case 1:
			add(k, lpg.BtreeIndex)
		case 2:
			add(k, lpg.HashIndex)
		}
	}
}
