package zzverif

import (
	"github.com/cloudprivacylabs/lpg/v2"
	zz "github.com/cloudprivacylabs/lpg/v2/zzsym"
)

// binding reads what a result reports for the named items.
func (w *world) binding(vals map[string]any, items []item) []walk {
	r := make([]walk, len(items))
	named := map[string]bool{}
	for i, it := range items {
		if it.name == "" {
			continue
		}
		named[it.name] = true
		v, ok := vals[it.name]
		zz.Assert(ok, "Symbols.named")
		if i%2 == 0 {
			n, isNode := v.(*lpg.Node)
			zz.Assert(isNode, "Symbols.node")
			r[i] = walk{nodes: []int{w.indexOf(n)}}
		} else {
			p, isPath := v.(*lpg.Path)
			zz.Assert(isPath, "Symbols.path")
			r[i] = w.walkOf(p)
		}
	}
	zz.Assert(len(vals) == len(named), "Symbols.len")
	return r
}

func sameBinding(a, b []walk, items []item) bool {
	for i, it := range items {
		if it.name != "" && !a[i].same(b[i]) {
			return false
		}
	}
	return true
}

func (w *world) checkVariables(items []item, syms map[string]symbol) {
	var want []match
	for _, m := range w.matchesOf(items) {
		if fits(m, items, syms) {
			want = append(want, m)
		}
	}
	in := map[string]*lpg.PatternSymbol{}
	wrong := false
	for name, s := range syms {
		in[name] = w.patternSymbol(s)
		for i, it := range items {
			wrong = wrong || it.name == name && (i%2 == 0 && len(s.edges) > 0 || i%2 == 1 && len(s.nodes) > 0)
		}
	}
	for i, it := range items {
		for j := range items {
			wrong = wrong || it.name != "" && items[j].name == it.name && i%2 != j%2
		}
	}
	acc, err := pattern(items).FindPaths(w.g, in)
	zz.Assert(len(in) == len(syms), "symbols.len")
	for name, s := range syms {
		w.sameSymbol(in[name], s)
	}
	names := pattern(items).GetSymbolNames()
	for _, it := range items {
		zz.Assert(it.name == "" || names.Has(it.name), "GetSymbolNames")
	}
	for _, x := range names.Slice() {
		zz.Assert(nameIn(x, items), "GetSymbolNames.known")
	}
	if wrong {
		zz.Assert(len(acc.Paths) == 0 && len(acc.Symbols) == 0, "FindPaths.wrong kind")
		return
	}
	zz.Assert(err == nil, "FindPaths.err")
	zz.Assert(len(acc.Paths) == len(acc.Symbols), "FindPaths.len")
	type result struct {
		path walk
		b    []walk
	}
	var got []result
	for i, p := range acc.Paths {
		got = append(got, result{w.walkOf(p), w.binding(acc.Symbols[i], items)})
	}
	for i, m := range want {
		n, k, first := 0, 0, true
		for j, x := range want {
			if x.path.same(m.path) && sameBinding(x.parts, m.parts, items) {
				first = first && j >= i
				n += zz.B2i(x.ok)
			}
		}
		if !first {
			continue
		}
		for _, g := range got {
			if g.path.same(m.path) && sameBinding(g.b, m.parts, items) {
				k++
			}
		}
		zz.Assert(k == n, "FindPaths.complete")
	}
	for _, g := range got {
		known := false
		for _, m := range want {
			known = known || g.path.same(m.path) && sameBinding(g.b, m.parts, items)
		}
		zz.Assert(known, "FindPaths.sound")
	}
}

func nameIn(name string, items []item) bool {
	for _, it := range items {
		if name != "" && it.name == name {
			return true
		}
	}
	return false
}

// sameSymbol checks that the symbol still has what it was given.
func (w *world) sameSymbol(p *lpg.PatternSymbol, s symbol) {
	var nodes []*lpg.Node
	if p.Nodes != nil {
		nodes = itNodes(p.Nodes.Iterator(), w.lim())
	}
	w.sameNodes(nodes, func(i int, _ *mNode) bool { return s.nodes[i] }, "symbols.nodes")
	var edges []*lpg.Edge
	if p.Edges != nil {
		edges = itEdges(p.Edges.Iterator(), w.lim())
	}
	w.sameEdges(edges, func(i int, _ *mEdge) bool { return s.edges[i] }, "symbols.edges")
}

func nameOf(label string, names ...string) string { return names[zz.Choose(label, len(names))] }

// Names shared by nodes.
//
//sym:quick n=2 m=2 k=2
//sym:thorough n=2 m=3 k=2
func H_C15_shared() {
	w := newWorld()
	for i := 0; i < zz.Param("n"); i++ {
		l := "X"
		if i == 0 {
			l = "A"
		}
		w.addNode([]string{l}, nil)
	}
	w.connect(zz.Param("m"), func() string { return symLabel("edge") })
	k := zz.Param("k")
	items := someItems(k, func() item { return item{name: nameOf("item.name", "", "a", "b")} }, func() item { return mixed(item{min: 1, max: 1}) })
	at := zz.Choose("at", 2*k+1)
	if at%2 == 0 {
		items[at].labels = []string{"A"}
	} else {
		items[at].labels = []string{symLabel("item")}
		items[at].name = "e"
	}
	w.checkVariables(items, nil)
}

// Names given as input symbols, also of the wrong kind, used once or twice.
//
//sym:quick n=2 m=2
//sym:thorough n=2 m=3
func H_C15_symbols() {
	w := newWorld()
	for i := 0; i < zz.Param("n"); i++ {
		w.addNode([]string{symLabel("node")}, nil)
	}
	w.connect(zz.Param("m"), func() string { return "E" })
	items := someItems(2, func() item { return item{name: nameOf("item.name", "", "a")} }, func() item { return mixed(item{min: 1, max: 1}) })
	items[2*zz.Choose("at", 3)].labels = []string{symLabel("item")}
	s := symbol{}
	switch zz.Choose("kind", 4) {
	case 0:
		s.nodes = subset("symbol.node", zz.Param("n"))
	case 1:
		s.edges = subset("symbol.edge", zz.Param("m"))
	}
	w.checkVariables(items, map[string]symbol{"a": s})
}

// Edges given as input symbols, with single and variable length edges.
//
//sym:quick n=2 m=2
//sym:thorough n=2 m=3
func H_C15_edges() {
	w := newWorld()
	for i := 0; i < zz.Param("n"); i++ {
		l := "X"
		if i == 0 {
			l = "A"
		}
		w.addNode([]string{l}, nil)
	}
	w.connect(zz.Param("m"), func() string { return symLabel("edge") })
	items := someItems(1+zz.Choose("edges", 2), func() item { return item{} }, func() item { return mixed(item{min: 1, max: 1}) })
	at := 2*zz.Choose("named", len(items)/2) + 1
	items[at].name = "e"
	items[at].labels = symLabels("item", 1)
	items[at].max = []int{1, 2, -1}[zz.Choose("variable", 3)]
	if p := zz.Choose("at", 3); p != 1 {
		items[p*(len(items)-1)/2].labels = []string{"A"}
	}
	s := symbol{}
	if zz.Choose("kind", 2) == 0 {
		s.edges = subset("symbol.edge", zz.Param("m"))
	} else {
		s.nodes = subset("symbol.node", zz.Param("n"))
	}
	w.checkVariables(items, map[string]symbol{"e": s})
}

// One name for a node and an edge never matches.
//
//sym:quick n=2 m=2
//sym:thorough n=3 m=3
func H_C15_kinds() {
	w := newWorld()
	for i := 0; i < zz.Param("n"); i++ {
		w.addNode([]string{symLabel("node")}, nil)
	}
	w.connect(zz.Param("m"), func() string { return symLabel("edge") })
	items := someItems(2, func() item { return item{} }, func() item { return mixed(item{min: 1, max: 1}) })
	items[2*zz.Choose("node item", 3)].name = "a"
	items[2*zz.Choose("edge item", 2)+1].name = "a"
	items[zz.Choose("at", 5)].labels = []string{symLabel("item")}
	w.checkVariables(items, nil)
}

// What was added to a symbol is what its slices hold.
//
//sym:both
func H_C15_slices() {
	w := newWorld()
	someNodes(w, 2)
	w.connect(2, func() string { return "E" })
	s := &lpg.PatternSymbol{}
	zz.Assert(len(s.NodeSlice()) == 0 && s.EdgeSlice() == nil, "empty")
	nodes, edges := map[int]bool{}, map[int]bool{}
	for k := 0; k < 3; k++ {
		i := zz.Choose("which", 2)
		n, e := w.nodes[i].n, w.edges[i].e
		switch zz.Choose("add", 5) {
		case 0:
			s.Add(n)
			nodes[i] = true
		case 1:
			s.AddNode(n)
			nodes[i] = true
		case 2:
			s.Add(e)
			edges[i] = true
		case 3:
			s.Add(lpg.NewPathFromElements(lpg.PathElement{Edge: e}))
			edges[i] = true
		case 4:
			s.AddPath(lpg.NewPathFromElements(lpg.PathElement{Edge: e}, lpg.PathElement{Edge: e, Reverse: true}))
			edges[i] = true
		}
	}
	w.sameNodes(s.NodeSlice(), func(i int, _ *mNode) bool { return nodes[i] }, "NodeSlice")
	zz.Assert((s.EdgeSlice() == nil) == (len(edges) == 0), "EdgeSlice.nil")
	if len(edges) > 0 {
		p := s.EdgeSlice()
		zz.Assert(p.NumEdges() == len(edges), "EdgeSlice.len")
		for i, e := range w.edges {
			c := 0
			for k := 0; k < p.NumEdges(); k++ {
				if p.GetEdge(k) == e.e {
					c++
				}
			}
			zz.Assert((c == 1) == edges[i], "EdgeSlice.edges")
		}
	}
}

// A longer pattern in which any two nodes have the same name.
//
//sym:quick n=4 m=5 k=3
//sym:thorough n=5 m=6 k=4
func H_C15_big() {
	w := newWorld()
	w.bigGraph(zz.Param("n"), zz.Param("m"))
	k := zz.Param("k")
	items := someItems(k, func() item { return item{min: 1, max: 1} }, func() item { return item{min: 1, max: 1, undir: zz.Bool("undirected")} })
	i := zz.Choose("first", k)
	j := i + 1 + zz.Choose("second", k-i)
	items[2*i].name, items[2*j].name = "a", "a"
	e := 2*zz.Choose("edge", k) + 1
	items[e].name = "e"
	items[zz.Choose("at", 2*k+1)].labels = []string{symLabel("item.label")}
	syms := map[string]symbol{}
	if zz.Bool("given") {
		syms["a"] = symbol{nodes: map[int]bool{0: true, 2: true}}
	}
	w.checkVariables(items, syms)
}

// The paths of a result belong to the receiver: changing them changes no
// other result.
//
//sym:quick n=2 m=3
//sym:thorough n=3 m=6
func H_C15_results() {
	w := newWorld()
	w.bigGraph(zz.Param("n"), zz.Param("m"))
	k := 1 + zz.Choose("edges", 2)
	name := nameOf("item.name", "", "a")
	items := someItems(k, func() item { return item{name: name} }, func() item { return mixed(item{min: 1, max: 1 + zz.Choose("item.max", 2)}) })
	for i := 1; i < len(items); i += 2 {
		items[i].name = letter(i)
	}
	items[zz.Choose("at", len(items))].labels = []string{"A"}
	p := pattern(items)
	if zz.Bool("edge only") {
		p = p[1:2]
		items = items[1:2]
	}
	alone, err := p.FindPaths(w.g, map[string]*lpg.PatternSymbol{})
	zz.Assert(err == nil, "alone.err")
	var want []string
	for i, x := range alone.Paths {
		want = append(want, w.resultText(x, alone.Symbols[i], items))
	}
	r := &meddler{w: w, items: items, op: zz.Choose("change", 4), path: zz.Bool("change.path")}
	syms := map[string]*lpg.PatternSymbol{}
	plan, err := p.GetPlan(w.g, syms)
	zz.Assert(err == nil, "plan.err")
	r.plan = &plan
	zz.Assert(plan.Run(w.g, syms, r) == nil && len(syms) == 0, "err")
	zz.Assert(len(r.got) == len(want), "number")
	for i := range want {
		a, b := 0, 0
		for j := range want {
			a += zz.B2i(want[j] == want[i])
			b += zz.B2i(r.got[j] == want[i])
		}
		zz.Assert(a == b, "result")
	}
}

// resultText describes a result.
func (w *world) resultText(p *lpg.Path, syms map[string]any, items []item) string {
	t := pathText(w, p)
	for _, it := range items {
		if it.name == "" {
			continue
		}
		switch v := syms[it.name].(type) {
		case *lpg.Node:
			t += it.name + letter(w.indexOf(v))
		case *lpg.Path:
			t += it.name + pathText(w, v)
		}
	}
	return t
}

func pathText(w *world, p *lpg.Path) string {
	t := "("
	for i := 0; i < p.NumNodes(); i++ {
		t += letter(w.indexOf(p.GetNode(i)))
	}
	for i := 0; i < p.NumEdges(); i++ {
		t += letter(w.edgeIndex(p.GetEdge(i)))
	}
	return t + ")"
}

// meddler changes the paths of a result.
type meddler struct {
	w     *world
	items []item
	op    int
	path  bool
	plan  *lpg.MatchPlan
	got   []string
}

func (r *meddler) StoreResult(_ *lpg.MatchContext, path *lpg.Path, symbols map[string]any) {
	r.got = append(r.got, r.w.resultText(path, symbols, r.items))
	zz.Assert(r.w.resultText(r.plan.GetCurrentPath(), r.plan.CaptureSymbolValues(), r.items) == r.got[len(r.got)-1], "plan")
	ps := []*lpg.Path{path}
	if !r.path {
		ps = nil
		for _, it := range r.items {
			if p, ok := symbols[it.name].(*lpg.Path); ok {
				ps = append(ps, p)
			}
		}
	}
	was := make([]string, 0)
	for _, p := range ps {
		was = append(was, pathText(r.w, p))
	}
	for i, p := range ps {
		zz.Assert(pathText(r.w, p) == was[i], "paths of one result")
		switch r.op {
		case 0:
			p.RemoveLast()
		case 1:
			p.RemoveFirst()
		case 2:
			p.Clear()
		case 3:
			for it := p.Last().GetEdges(lpg.OutgoingEdge); it.Next(); {
				p.Append(lpg.PathElement{Edge: it.Edge()})
				break
			}
		}
	}
	if r.path {
		for _, it := range r.items {
			delete(symbols, it.name)
		}
	}
}
