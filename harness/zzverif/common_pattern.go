package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

// item is a pattern item of the reference model.
type item struct {
	labels      []string
	pv          map[string]mval
	props       map[string]any
	min, max    int
	left, undir bool
	name        string
}

func (it item) pattern() lpg.PatternItem {
	p := lpg.PatternItem{Properties: it.props, Min: it.min, Max: it.max, ToLeft: it.left, Undirected: it.undir, Name: it.name}
	if len(it.labels) > 0 {
		p.Labels = lpg.NewStringSet(it.labels...)
	}
	return p
}

func pattern(items []item) lpg.Pattern {
	var p lpg.Pattern
	for _, it := range items {
		p = append(p, it.pattern())
	}
	return p
}

// walk is a sequence of steps through the graph; edges[k] connects nodes[k]
// and nodes[k+1].
type walk struct {
	nodes, edges []int
}

func (a walk) same(b walk) bool {
	if len(a.nodes) != len(b.nodes) || len(a.edges) != len(b.edges) {
		return false
	}
	for i := range a.nodes {
		if a.nodes[i] != b.nodes[i] {
			return false
		}
	}
	for i := range a.edges {
		if a.edges[i] != b.edges[i] {
			return false
		}
	}
	return true
}

func (a walk) uses(e int) bool {
	for _, x := range a.edges {
		if x == e {
			return true
		}
	}
	return false
}

func (a walk) then(e, n int) walk {
	return walk{append(append([]int{}, a.nodes...), n), append(append([]int{}, a.edges...), e)}
}

func (a walk) last() int { return a.nodes[len(a.nodes)-1] }

// match is a possible way to match a pattern: the structure fits, and it is a
// match if ok.
type match struct {
	path  walk
	ok    bool
	parts []walk // per pattern item
}

func (w *world) edgeOK(e *mEdge, it item) bool {
	r := len(it.labels) == 0
	return zz.And(zz.Or(r, inList(e.label, it.labels)), allMatch(e.pv, it.pv))
}

func (w *world) nodeOK(n *mNode, it item) bool {
	return zz.And(allIn(it.labels, n.labels), allMatch(n.pv, it.pv))
}

// hops calls f for every way to go from node n over edge e as the direction of
// the item allows.
func (w *world) hops(n int, it item, f func(e, to int)) {
	for i, e := range w.edges {
		if !e.alive {
			continue
		}
		fwd, back := e.f == n, e.t == n
		if it.undir {
			if fwd {
				f(i, e.t)
			}
			if back && e.f != e.t {
				f(i, e.f)
			}
		} else if it.left && back {
			f(i, e.f)
		} else if !it.left && fwd {
			f(i, e.t)
		}
	}
}

// trails calls f for every trail that starts at n and matches the item,
// together with the condition under which its edges satisfy the item.
func (w *world) trails(n int, it item, f func(t walk, ok bool)) {
	var rec func(t walk, ok bool)
	rec = func(t walk, ok bool) {
		k := len(t.edges)
		if k > 0 && k >= it.min && (it.max == -1 || k <= it.max) {
			f(t, ok)
		}
		if it.max != -1 && k >= it.max {
			return
		}
		w.hops(t.last(), it, func(e, to int) {
			if !t.uses(e) {
				rec(t.then(e, to), zz.And(ok, w.edgeOK(w.edges[e], it)))
			}
		})
	}
	rec(walk{nodes: []int{n}}, true)
}

// matchesOf enumerates the possible matches of the pattern.
func (w *world) matchesOf(items []item) []match {
	var r []match
	var rec func(m match, i int)
	rec = func(m match, i int) {
		if i == len(items) {
			r = append(r, m)
			return
		}
		w.trails(m.path.last(), items[i], func(t walk, ok bool) {
			x := match{ok: zz.And(m.ok, ok), path: m.path}
			for k, e := range t.edges {
				x.path = x.path.then(e, t.nodes[k+1])
			}
			x.ok = zz.And(x.ok, w.nodeOK(w.nodes[t.last()], items[i+1]))
			x.parts = append(append([]walk{}, m.parts...), t, walk{nodes: []int{t.last()}})
			rec(x, i+2)
		})
	}
	for i, n := range w.nodes {
		if n.alive {
			s := walk{nodes: []int{i}}
			rec(match{path: s, ok: w.nodeOK(n, items[0]), parts: []walk{s}}, 1)
		}
	}
	return r
}

func (w *world) edgeIndex(e *lpg.Edge) int {
	for i, x := range w.edges {
		if x.e == e {
			return i
		}
	}
	zz.Assert(false, "edge of the graph")
	return -1
}

// walkOf reads a path through its interface.
func (w *world) walkOf(p *lpg.Path) walk {
	zz.Assert(p.NumNodes() == p.NumEdges()+1, "Path.NumNodes")
	var r walk
	for i := 0; i < p.NumNodes(); i++ {
		r.nodes = append(r.nodes, w.indexOf(p.GetNode(i)))
	}
	for i := 0; i < p.NumEdges(); i++ {
		k := w.edgeIndex(p.GetEdge(i))
		r.edges = append(r.edges, k)
		e := w.edges[k]
		a, b := r.nodes[i], r.nodes[i+1]
		zz.Assert(e.f == a && e.t == b || e.f == b && e.t == a, "Path.connected")
	}
	zz.Assert(p.First() == w.nodes[r.nodes[0]].n, "Path.First")
	zz.Assert(p.Last() == w.nodes[r.last()].n, "Path.Last")
	return r
}

// sameWalks asserts that got lists exactly the walks of the matches, each as
// often as there are matches with that walk.
func sameWalks(got []walk, want []match, id string) {
	for i, m := range want {
		first := true
		for _, x := range want[:i] {
			first = first && !x.path.same(m.path)
		}
		if !first {
			continue
		}
		n, k := 0, 0
		for _, x := range want[i:] {
			if x.path.same(m.path) {
				n += zz.B2i(x.ok)
			}
		}
		for _, g := range got {
			if g.same(m.path) {
				k++
			}
		}
		zz.Assert(k == n, id+".complete")
	}
	for _, g := range got {
		known := false
		for _, m := range want {
			known = known || g.same(m.path)
		}
		zz.Assert(known, id+".sound")
	}
}

// checkPattern runs the pattern and compares its results with the reference.
func (w *world) checkPattern(items []item) { w.checkPatternWith(items, nil) }

func (w *world) checkPatternWith(items []item, syms map[string]symbol) {
	var want []match
	for _, m := range w.matchesOf(items) {
		if fits(m, items, syms) {
			want = append(want, m)
		}
	}
	in := map[string]*lpg.PatternSymbol{}
	for name, s := range syms {
		in[name] = w.patternSymbol(s)
	}
	acc, err := pattern(items).FindPaths(w.g, in)
	zz.Assert(err == nil, "FindPaths.err")
	var got []walk
	for _, p := range acc.Paths {
		got = append(got, w.walkOf(p))
	}
	sameWalks(got, want, "FindPaths")
	w.sameNodes(acc.GetHeadNodes(), func(i int, _ *mNode) bool { return anyMatch(want, func(x walk) bool { return x.nodes[0] == i }) }, "GetHeadNodes")
	w.sameNodes(acc.GetTailNodes(), func(i int, _ *mNode) bool { return anyMatch(want, func(x walk) bool { return x.last() == i }) }, "GetTailNodes")
}

func anyMatch(l []match, f func(walk) bool) bool {
	r := false
	for _, m := range l {
		if f(m.path) {
			r = zz.Or(r, m.ok)
		}
	}
	return r
}

func (w *world) checkFindNodesOf(items []item) {
	want := w.matchesOf(items)
	got, err := pattern(items).FindNodes(w.g, nil)
	zz.Assert(err == nil, "Pattern.FindNodes.err")
	w.sameNodes(got, func(i int, _ *mNode) bool { return anyMatch(want, func(x walk) bool { return x.nodes[0] == i }) }, "Pattern.FindNodes")
}

// connect adds m edges with chosen end points. The end points are in
// ascending order, as the edges are otherwise interchangeable.
func (w *world) connect(m int, label func() string) {
	n, last := len(w.nodes), 0
	for i := 0; i < m; i++ {
		c := last + zz.Choose("edge", n*n-last)
		last = c
		w.addEdge(c/n, c%n, label(), nil)
	}
}

// someItems is a pattern with k edges; edge picks the kind of each edge.
func someItems(k int, node func() item, edge func() item) []item {
	r := []item{node()}
	for i := 0; i < k; i++ {
		r = append(r, edge(), node())
	}
	return r
}

func labeledItem(max int) item { return item{labels: symLabels("item", max), min: 1, max: 1} }

func directed(it item) item {
	it.left = zz.Choose("item.left", 2) == 1
	return it
}

func mixed(it item) item {
	switch zz.Choose("item.dir", 3) {
	case 0:
		it.left = true
	case 1:
		it.undir = true
	}
	return it
}

// someProp is a property "p" that may be absent.
func someProp(name string) (map[string]any, map[string]mval) {
	if zz.Choose(name+".p", 2) == 0 {
		return nil, nil
	}
	v, m := symScalar(name+".p", false, 1)
	return map[string]any{"p": v}, map[string]mval{"p": m}
}

func propItem() item {
	it := item{min: 1, max: 1}
	it.props, it.pv = someProp("item")
	return it
}

// bounds gives an item length bounds; at least one walk of length one or more
// has to be within the bounds.
func bounds(it item, lim int) item {
	it.max = zz.Choose("item.max", lim+1)
	if it.max == 0 {
		it.max = -1
	}
	it.min = zz.Choose("item.min", lim+2) - 1
	zz.Assume(it.max == -1 || it.min <= it.max)
	return it
}

// symbol is an input symbol of the reference model.
type symbol struct {
	nodes, edges map[int]bool // nil if the symbol has none of the kind
}

func (w *world) patternSymbol(s symbol) *lpg.PatternSymbol {
	ret := &lpg.PatternSymbol{}
	for i, n := range w.nodes {
		if s.nodes[i] {
			ret.AddNode(n.n)
		}
	}
	for i, e := range w.edges {
		if s.edges[i] {
			ret.Add(e.e)
		}
	}
	return ret
}

func subset(name string, n int) map[int]bool {
	r := map[int]bool{}
	for i := 0; i < n; i++ {
		if zz.Choose(name, 2) == 1 {
			r[i] = true
		}
	}
	return r
}

// fits tells if the match respects variables and input symbols.
func fits(m match, items []item, syms map[string]symbol) bool {
	for i, it := range items {
		if it.name == "" {
			continue
		}
		s, given := syms[it.name]
		if i%2 == 0 {
			if given && (len(s.edges) > 0 || !s.nodes[m.parts[i].nodes[0]]) {
				return false
			}
		} else if given {
			if len(s.nodes) > 0 {
				return false
			}
			for _, e := range m.parts[i].edges {
				if !s.edges[e] {
					return false
				}
			}
		}
		for j, other := range items[:i] {
			if other.name == it.name && (j%2 != i%2 || !m.parts[i].same(m.parts[j])) {
				return false
			}
		}
	}
	return true
}

// anchored gives one item a symbol with a single node or edge, so that the
// search starts there.
func (w *world) anchored(items []item) map[string]symbol {
	at := zz.Choose("at", len(items))
	items[at].name = "s"
	if at%2 == 0 {
		return map[string]symbol{"s": {nodes: map[int]bool{zz.Choose("symbol", len(w.nodes)): true}}}
	}
	return map[string]symbol{"s": {edges: map[int]bool{zz.Choose("symbol", len(w.edges)): true}}}
}
