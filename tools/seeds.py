# The planted bugs: seed(id, property, edits, demonstration, needs, what it breaks)
seed("edge-relabel-stale", "C04",
 [("edgemap.go", """			em.only = v.Value.(*edgeLabelList).edges.head
		}
		em.lazyInit()
	}
""", """			em.only = v.Value.(*edgeLabelList).edges.head
		}
	}
""")],
'''	g := NewGraph()
	a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
	e1 := g.NewEdge(a, b, "x", nil)
	e2 := g.NewEdge(a, b, "x", nil)
	e1.Remove()
	e2.SetLabel("y")
	if n := len(EdgeSlice(a.GetEdgesWithLabel(OutgoingEdge, "x"))); n != 0 {
		t.Errorf("%d outgoing edges with label x", n)
	}
''', "two edges with one label, removing one, relabeling the other, and looking up the old label",
 "the emptied label map of an edge map keeps the last edge under its old label")

seed("loop-detached-twice", "C05",
 [("graph.go", """	for _, edge := range EdgeSlice(node.incoming.iterator(2)) {
		g.disconnect(edge)""", """	incoming, outgoing := EdgeSlice(node.incoming.iterator(2)), EdgeSlice(node.outgoing.iterator(1))
	for _, edge := range incoming {
		g.disconnect(edge)"""),
  ("graph.go", """	for _, edge := range EdgeSlice(node.outgoing.iterator(1)) {
		g.disconnect(edge)""", """	for _, edge := range outgoing {
		g.disconnect(edge)""")],
'''	g := NewGraph()
	a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", nil)
	g.NewEdge(b, b, "x", nil)
	g.NewEdge(b, b, "x", nil)
	g.NewEdge(b, b, "x", nil)
	a.DetachAndRemove()
	if g.NumEdges() != 3 {
		t.Errorf("%d edges", g.NumEdges())
	}
''', "a node with a self-loop in a graph that has other edges is detached",
 "a self-loop is taken out of the graph's edges twice")

seed("hash-stale-element", "C06",
 [("hashindex.go", """	fs.remove(id)
	ix.elements.Remove(el.(*list.Element))
""", """	fs.remove(id)
	if fs.size() == 0 {
		delete(ix.values, value)
		ix.elements.Remove(el.(*list.Element))
	}
""")],
'''	g := NewGraph()
	g.AddNodePropertyIndex("k", HashIndex)
	a := g.NewNode(nil, map[string]any{"k": 1})
	g.NewNode(nil, map[string]any{"k": 1})
	a.RemoveProperty("k")
	if n := len(NodeSlice(g.GetNodesWithProperty("k"))); n != 1 {
		t.Errorf("%d nodes with property", n)
	}
''', "a hash index, two nodes with the same value, and removing the property from one of them",
 "the index still lists the node among those with the property")

seed("find-any-label", "C08",
 [("graph.go", "			if !node.labels.HasAllSet(labels) {", "			if !node.labels.HasAnySet(labels) {")],
'''	g := NewGraph()
	g.AddNodePropertyIndex("k", BtreeIndex)
	g.NewNode([]string{"a"}, map[string]any{"k": 1})
	g.NewNode([]string{"a", "b"}, nil)
	g.NewNode([]string{"a", "b"}, nil)
	if n := len(NodeSlice(g.FindNodes(NewStringSet("a", "b"), map[string]any{"k": 1}))); n != 0 {
		t.Errorf("%d nodes", n)
	}
''', "two labels and a property whose index is the smallest candidate set",
 "nodes with only some of the labels are found")

seed("pattern-back-left", "C11",
 [("pattern.go", """			plan.steps = append(plan.steps, processors[i])
			plan.nForward++
		}
		// Go backwards
		for i := index - 1; i >= 0; i-- {
			if (i % 2) == 1 {
				// There is a node after this edge
				if pattern[i].ToLeft {
					// <--n
					processors[i] = newIterateConnectedEdges(processors[i+1], pattern[i], OutgoingEdge)
				} else if !pattern[i].Undirected {
					// -->n
					processors[i] = newIterateConnectedEdges(processors[i+1], pattern[i], IncomingEdge)
				} else {
					processors[i] = newIterateConnectedEdges(processors[i+1], pattern[i], AnyEdge)
				}
			} else {
				// There is an edge after this node, and that determines the direction
				if pattern[i+1].ToLeft {
					processors[i]""", """			plan.steps = append(plan.steps, processors[i])
			plan.nForward++
		}
		// Go backwards
		for i := index - 1; i >= 0; i-- {
			if (i % 2) == 1 {
				// There is a node after this edge
				if pattern[index].ToLeft {
					// <--n
					processors[i] = newIterateConnectedEdges(processors[i+1], pattern[i], OutgoingEdge)
				} else if !pattern[i].Undirected {
					// -->n
					processors[i] = newIterateConnectedEdges(processors[i+1], pattern[i], IncomingEdge)
				} else {
					processors[i] = newIterateConnectedEdges(processors[i+1], pattern[i], AnyEdge)
				}
			} else {
				// There is an edge after this node, and that determines the direction
				if pattern[i+1].ToLeft {
					processors[i]""")],
'''	g := NewGraph()
	a, b, c := g.NewNode(nil, nil), g.NewNode(nil, nil), g.NewNode(nil, nil)
	g.NewEdge(b, a, "x", nil)
	g.NewEdge(b, c, "y", nil)
	p := Pattern{{}, {Min: 1, Max: 1, ToLeft: true}, {}, {Min: 1, Max: 1, Labels: NewStringSet("y")}, {}}
	for i := 0; i < 5; i++ {
		g.NewNode(nil, nil)
	}
	e := g.GetEdgesWithAnyLabel(NewStringSet("y"))
	e.Next()
	sym := &PatternSymbol{}
	sym.Add(e.Edge())
	p[3].Name = "e"
	acc, err := p.FindPaths(g, map[string]*PatternSymbol{"e": sym})
	if err != nil || len(acc.Paths) != 2 {
		t.Errorf("%v paths, %v", len(acc.Paths), err)
	}
''', "a pattern whose second edge is the rarest element and points the other way than the first",
 "the plan walks the first edge in the direction of the second")

seed("trail-loop-twice", "C14",
 [("vpathitr.go", """			makeUniqueIterator(&filterIterator{
				itr: prefix.Last().GetEdges(dir),
				filter: func(item interface{}) bool {
					return edgeFilter(item.(*Edge))
				},
			}),
""", """			&filterIterator{
				itr: prefix.Last().GetEdges(dir),
				filter: func(item interface{}) bool {
					return edgeFilter(item.(*Edge))
				},
			},
""")],
'''	g := NewGraph()
	a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	g.NewEdge(b, b, "x", nil)
	n := 0
	CollectAllPaths(g, a, a.GetEdges(AnyEdge), func(*Edge) bool { return true }, AnyEdge, 1, -1, func(*Path) bool {
		n++
		return true
	})
	if n != 2 {
		t.Errorf("%d paths", n)
	}
''', "collecting undirected paths that reach a self-loop after the first edge",
 "paths continuing over a self-loop are reported twice")

seed("nodelist-head-prev", "C01",
 [("list.go", """	if node.next != nil {
		node.next.prev = node.prev
	} else {
		list.tail = node.prev
	}
	list.n--
""", """	if node.next == nil {
		list.tail = node.prev
	} else if node.prev != nil {
		node.next.prev = node.prev
	}
	list.n--
""")],
'''	g := NewGraph()
	a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
	g.NewNode(nil, nil)
	a.DetachAndRemove()
	b.DetachAndRemove()
	if n := len(NodeSlice(g.GetNodes())); n != 1 {
		t.Errorf("%d nodes", n)
	}
''', "removing the first node of the graph, and then the node that became the first",
 "the second node stays in the enumeration of nodes")

seed("relabel-subset", "C02",
 [("maps.go", """	if oldLabels.Len() == 0 {
		if newLabels.Len() == 0 {
			return
		}
		nm.nolabels.remove(node)
	}
""", """	if oldLabels.HasAllSet(newLabels) && (oldLabels.Len() == 0) == (newLabels.Len() == 0) {
		// Labels did not change
		return
	}
	if oldLabels.Len() == 0 {
		nm.nolabels.remove(node)
	}
""")],
'''	g := NewGraph()
	a := g.NewNode([]string{"a", "b"}, nil)
	a.SetLabels(NewStringSet("a"))
	a.DetachAndRemove()
	if g.GetNodesWithAllLabels(StringSet{}).Next() {
		t.Errorf("removed node found")
	}
''', "a node whose labels are replaced with a proper subset of them",
 "the node stays in the label index under the dropped label")

seed("relabel-order", "C03",
 [("graph.go", """	g.disconnect(edge)
	g.allEdges.remove(edge, 0)
	edge.label = label
""", """	g.disconnect(edge)
	edge.label = label
	g.allEdges.remove(edge, 0)
""")],
'''	g := NewGraph()
	a := g.NewNode(nil, nil)
	e := g.NewEdge(a, a, "x", nil)
	g.NewEdge(a, a, "y", nil)
	g.NewEdge(a, a, "y", nil)
	e.SetLabel("y")
	n := 0
	for edges := g.GetEdgesWithAnyLabel(NewStringSet("x")); edges.Next() && n < 10; {
		n++
	}
	if n != 0 {
		t.Errorf("%d edges with label x", n)
	}
''', "relabeling an edge to a label that other edges have",
 "the edge is taken out of the list of its new label, so it remains among those of its old label")

seed("edge-index-remove", "C07",
 [("graph.go", """	nix := g.index.isEdgePropertyIndexed(key)
	if nix != nil {
		nix.remove(oldValue, edge.id)
	}
	delete(edge.properties, key)
""", """	nix := g.index.isNodePropertyIndexed(key)
	if nix != nil {
		nix.remove(oldValue, edge.id)
	}
	delete(edge.properties, key)
""")],
'''	g := NewGraph()
	g.AddEdgePropertyIndex("k", BtreeIndex)
	a := g.NewNode(nil, nil)
	e := g.NewEdge(a, a, "x", map[string]any{"k": 1})
	e.RemoveProperty("k")
	if g.GetEdgesWithProperty("k").Next() {
		t.Errorf("edge without property found")
	}
''', "an indexed edge property is removed from an edge",
 "the edge stays in the property index")

seed("filter-nil-property", "C09",
 [("graph.go", """			edgeValue, exists := edge.GetProperty(k)
			if !exists {
				if v != nil {
					return false
				}
			}
""", """			edgeValue, exists := edge.GetProperty(k)
			if !exists {
				return v == nil
			}
""")],
'''	g := NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", map[string]any{"q": 2})
	for i := 0; i < 50; i++ {
		if g.FindEdges(StringSet{}, map[string]any{"p": nil, "q": 1}).Next() {
			t.Fatalf("edge with the wrong property found")
		}
	}
''', "a query with a nil property that the edge does not have, and another property",
 "the other property is not checked, depending on the order of the map")

seed("compare-list-sign", "C10",
 [("properties.go", """		if v2, ok := b.([]int); ok {
			return -ComparePropertyValue(v2, v1)
		}
""", """		if v2, ok := b.([]int); ok {
			return ComparePropertyValue(v2, v1)
		}
""")],
'''	if c := ComparePropertyValue([]any{1, 2}, []int{1, 3}); c != -1 {
		t.Errorf("compares as %d", c)
	}
''', "a []interface{} of integers compared with a different []int",
 "the order is reversed, so the order of property values is not antisymmetric")

seed("label-edges-size", "C27",
 [("edgemap.go", "	return edgeIterator{&edgeListIterator{next: ell.edges.head, n: ell.edges.n, ix: listIndex}}\n", "	return edgeIterator{&edgeListIterator{next: ell.edges.head, n: em.edgeLabelLists.Len(), ix: listIndex}}\n")],
'''	g := NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", nil)
	g.NewEdge(a, a, "x", nil)
	if n := a.GetEdgesWithLabel(OutgoingEdge, "x").MaxSize(); n < 2 {
		t.Errorf("MaxSize %d", n)
	}
''', "several edges with the same label at a node",
 "the size of a lookup by label is smaller than the number of edges found")

seed("symbol-scope", "C15",
 [("pattern.go", """	sym, exists := ctx.LocalSymbols[p.Name]
	if exists {
		if sym.Edges != nil {
			return nil, ErrNodeVariableExpected(p.Name)
		}
		return sym.Nodes, nil
	}
	sym, exists = ctx.Symbols[p.Name]
	if exists {
		if sym.Edges != nil {
""", """	sym, exists := ctx.Symbols[p.Name]
	if exists {
		if sym.Edges != nil {
			return nil, ErrNodeVariableExpected(p.Name)
		}
		return sym.Nodes, nil
	}
	sym, exists = ctx.LocalSymbols[p.Name]
	if exists {
		if sym.Edges != nil {
""")],
'''	g := NewGraph()
	a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	s := &PatternSymbol{}
	s.AddNode(a)
	s.AddNode(b)
	p := Pattern{{Name: "n"}, {Min: 1, Max: 1}, {Name: "n"}}
	acc, err := p.FindPaths(g, map[string]*PatternSymbol{"n": s})
	if err != nil || len(acc.Paths) != 0 {
		t.Errorf("%d paths %v", len(acc.Paths), err)
	}
''', "a variable used twice in a pattern and given a set of several nodes as input",
 "the two uses of the variable can match different nodes")

seed("prefix-direction", "C16",
 [("path.go", "		if e1 != p.path[path1Idx] {\n", "		if e1.Edge != p.path[path1Idx].Edge {\n")],
'''	g := NewGraph()
	a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
	e := g.NewEdge(a, b, "x", nil)
	p := NewPathFromElements(PathElement{Edge: e}, PathElement{Edge: e, Reverse: true})
	if p.HasPrefix([]PathElement{{Edge: e, Reverse: true}}) {
		t.Errorf("prefix in the wrong direction")
	}
''', "a prefix with the same edges as a path, gone through in another direction",
 "a path of which the other is not a prefix is accepted")

seed("json-null-property", "C18",
 [("json.go", """				for ix, v := range node.properties {
					nodeProps[ix] = v
				}
""", """				for ix, v := range node.properties {
					if v != nil {
						nodeProps[ix] = v
					}
				}
""")],
'''	g := NewGraph()
	g.NewNode(nil, map[string]any{"p": nil})
	out := bytes.Buffer{}
	if err := (JSON{}).Encode(g, &out); err != nil {
		t.Fatal(err)
	}
	h := NewGraph()
	if err := (JSON{}).Decode(h, json.NewDecoder(&out)); err != nil {
		t.Fatal(err)
	}
	n := NodeSlice(h.GetNodes())[0]
	if _, ok := n.GetProperty("p"); !ok {
		t.Errorf("property lost")
	}
''', "a node property whose value is nil", "the property is not encoded, so it is lost", ["bytes", "encoding/json"])

seed("json-forward-edge", "C19",
 [("json.go", """			edgeQueue = append(edgeQueue, jsonEdge{
				From:       node.N,
				To:         edge.To,
				Label:      edge.Label,
				Properties: edge.Properties,
			})
""", """			edgeQueue = append(edgeQueue, jsonEdge{From: node.N, To: edge.To, Label: edge.Label})
""")],
'''	doc := `{"nodes":[{"n":1,"edges":[{"to":0,"label":"x","properties":{"p":1}}]},{"n":0}]}`
	g := NewGraph()
	if err := (JSON{}).Decode(g, json.NewDecoder(strings.NewReader(doc))); err != nil {
		t.Fatal(err)
	}
	if _, ok := EdgeSlice(g.GetEdges())[0].GetProperty("p"); !ok {
		t.Errorf("property lost")
	}
''', "an edge with properties, written in a node, that refers to a node that comes later",
 "the properties of the edge are lost", ["encoding/json", "strings"])

seed("clone-keeps-id", "C24",
 [("graph.go", """	newNode.id = g.idBase
	g.idBase++
	g.addNode(newNode)
""", """	newNode.id = sourceNode.id
	if g.idBase <= newNode.id {
		g.idBase = newNode.id + 1
	}
	g.addNode(newNode)
""")],
'''	g, h := NewGraph(), NewGraph()
	a := g.NewNode(nil, nil)
	b := h.NewNode(nil, nil)
	c := CopyNode(a, h, func(_ string, v any) any { return v })
	if b.GetID() == c.GetID() {
		t.Errorf("same id")
	}
''', "a node copied to a graph that already has nodes",
 "two nodes of a graph have the same identifier")

seed("clone-edge-index", "C20",
 [("graph.go", """	g.idBase++
	g.allEdges.add(newEdge, 0)
	g.connect(newEdge)
	g.index.addEdgeToIndex(newEdge, g)
	return newEdge
}

func (g *Graph) connect(""", """	g.idBase++
	g.allEdges.add(newEdge, 0)
	g.connect(newEdge)
	if sourceEdge.from.graph != g {
		g.index.addEdgeToIndex(newEdge, g)
	}
	return newEdge
}

func (g *Graph) connect(""")],
'''	g := NewGraph()
	g.AddEdgePropertyIndex("k", HashIndex)
	a := g.NewNode(nil, nil)
	e := g.NewEdge(a, a, "x", map[string]any{"k": 1})
	CloneEdge(a, a, e, g, func(_ string, v any) any { return v })
	n := 0
	for edges := g.FindEdges(StringSet{}, map[string]any{"k": 1}); edges.Next(); {
		n++
	}
	if n != 2 {
		t.Errorf("%d edges", n)
	}
''', "an edge with an indexed property copied inside of its graph",
 "the copy is not indexed")

seed("subgraph-join", "C21",
 [("clone.go", """		edge := edges.Edge()
		CopySubgraph(edge.GetTo(), target, clonePropertyFunc, nodeMap)
		CopyEdge(edge, target, clonePropertyFunc, nodeMap)
""", """		edge := edges.Edge()
		if _, seen := nodeMap[edge.GetTo()]; !seen || edge.GetTo() == sourceNode {
			CopySubgraph(edge.GetTo(), target, clonePropertyFunc, nodeMap)
			CopyEdge(edge, target, clonePropertyFunc, nodeMap)
		}
""")],
'''	g, h := NewGraph(), NewGraph()
	a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	g.NewEdge(b, a, "x", nil)
	CopySubgraph(a, h, func(_ string, v any) any { return v }, map[*Node]*Node{})
	if h.NumEdges() != 2 {
		t.Errorf("%d edges", h.NumEdges())
	}
''', "a node that is reached by more than one edge", "only the first edge to a node is copied")

seed("isomorphism-next", "C22",
 [("alg.go", "		for index := range nodeEquivalences {\n			nodeEquivalences[index]++\n", "		for index := range nodeEquivalences[1:] {\n			nodeEquivalences[index]++\n")],
'''	g, h := NewGraph(), NewGraph()
	var x, y [3]*Node
	for i := range x {
		x[i], y[i] = g.NewNode(nil, nil), h.NewNode(nil, nil)
	}
	g.NewEdge(x[0], x[1], "a", nil)
	g.NewEdge(x[1], x[2], "b", nil)
	h.NewEdge(y[0], y[1], "a", nil)
	h.NewEdge(y[1], y[2], "b", nil)
	eq, err := CheckIsomorphism(context.Background(), g, h, func(a, b *Node) bool { return true }, func(a, b *Edge) bool { return a.GetLabel() == b.GetLabel() })
	if !eq || err != nil {
		t.Errorf("%v %v", eq, err)
	}
''', "isomorphic graphs whose last node must be mapped to something else than its first candidate",
 "isomorphic graphs are reported as different", ["context"])

seed("stringset-remove-shared", "C23",
 [("stringset.go", """	m := set.M
	set.M = make(map[string]struct{}, len(m))
	for x := range m {
		has := false
		for _, y := range s {
			if y == x {
				has = true
				break
			}
		}
		if !has {
			set.M[x] = struct{}{}
		}
	}
	return set
""", """	for _, x := range s {
		delete(set.M, x)
	}
	return set
""")],
'''	a := NewStringSet("a", "b")
	b := a.Clone()
	b.Remove("a")
	if !a.Has("a") {
		t.Errorf("removed from both")
	}
''', "removing from a set that was cloned", "the member is removed from the other set as well")

seed("between-nodes-smaller", "C26",
 [("alg.go", """	for edges := from.GetEdges(OutgoingEdge); edges.Next(); {
		edge := edges.Edge()
		if edge.GetTo() == to {
""", """	edges := from.GetEdges(OutgoingEdge)
	if itr := to.GetEdges(IncomingEdge); itr.MaxSize() < edges.MaxSize() {
		edges = itr
	}
	for edges.Next() {
		edge := edges.Edge()
		if edge.GetTo() == to {
""")],
'''	g := NewGraph()
	a, b, c := g.NewNode(nil, nil), g.NewNode(nil, nil), g.NewNode(nil, nil)
	g.NewEdge(c, b, "x", nil)
	g.NewEdge(a, c, "x", nil)
	g.NewEdge(a, c, "x", nil)
	if n := len(EdgesBetweenNodes(a, b)); n != 0 {
		t.Errorf("%d edges", n)
	}
''', "a target with fewer incoming edges than the source has outgoing edges, some from other nodes",
 "edges that start at other nodes are returned")

seed("fastset-reset", "C28",
 [("sets.go", """	delete(f.m, id)
	f.l.Remove(el)
	return true
""", """	delete(f.m, id)
	if len(f.m) == 0 {
		f.init()
	} else {
		f.l.Remove(el)
	}
	return true
""")],
'''	g := NewGraph()
	n := g.NewNode(nil, nil)
	s := NewNodeSet()
	s.Add(n)
	s.Remove(n)
	if len(s.Slice()) != 0 {
		t.Errorf("removed node listed")
	}
''', "removing the last member of a node set or edge set",
 "the set is reset in a copy, so its list still has the removed member")

seed("nodemap-empty-set", "C29",
 [("maps.go", """		set = v.(*fastSet)
		set.remove(node)
		if set.size() == 0 {
			nm.m.Remove(label)
		}
	}
}

func (nm NodeMap) IsEmpty() bool {
	return nm.m.Size() == 0 && nm.nolabels.size() == 0
""", """		set = v.(*fastSet)
		set.remove(node)
		if set.size() == 0 && nm.m.Size() > 1 {
			nm.m.Remove(label)
		}
	}
}

func (nm NodeMap) IsEmpty() bool {
	return nm.m.Size() == 0 && nm.nolabels.size() == 0
""")],
'''	g := NewGraph()
	n := g.NewNode([]string{"a"}, nil)
	m := NewNodeMap()
	m.Add(n)
	m.Remove(n)
	if !m.IsEmpty() {
		t.Errorf("not empty")
	}
''', "removing the last labeled node of a node map", "the node map is not empty, and enumerating it fails")

seed("dot-excluded-end", "C30",
 [("dotrenderer.go", "		if ok1 && ok2 {\n", "		if ok1 || ok2 {\n")],
'''	g := NewGraph()
	a, b := g.NewNode([]string{"a"}, nil), g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	out := bytes.Buffer{}
	d := DOTRenderer{NodeRenderer: func(id string, n *Node, w io.Writer) (bool, error) {
		return n.HasLabel("a"), nil
	}}
	if err := d.Render(g, "g", &out); err != nil {
		t.Fatal(err)
	}
	if strings.Contains(out.String(), "->") {
		t.Errorf("edge to an excluded node")
	}
''', "a renderer that excludes one end of an edge", "the edge is rendered without the identifier of the excluded node", ["bytes", "io", "strings"])

seed("label-move-front", "C32",
 [("edgemap.go", """	ell := l.Value.(*edgeLabelList)
	return edgeIterator{&edgeListIterator{next: ell.edges.head, n: ell.edges.n, ix: listIndex}}
""", """	em.edgeLabelLists.MoveToFront(l)
	ell := em.edgeLabelLists.Front().Value.(*edgeLabelList)
	return edgeIterator{&edgeListIterator{next: ell.edges.head, n: ell.edges.n, ix: listIndex}}
""")],
'''	g := NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", nil)
	g.NewEdge(a, a, "y", nil)
	first := EdgeSlice(g.GetEdges())[0]
	a.GetEdgesWithLabel(OutgoingEdge, "y")
	itr := a.GetEdges(OutgoingEdge)
	itr.Next()
	if itr.Edge() != first {
		t.Errorf("the query changed the order of edges")
	}
	g.GetEdgesWithAnyLabel(NewStringSet("y")).Next()
	wg := sync.WaitGroup{}
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 1000; k++ {
				a.GetEdgesWithLabel(OutgoingEdge, []string{"x", "y"}[k%2])
			}
		}()
	}
	wg.Wait()
''', "concurrent lookups of edges by label", "a lookup reorders the edge labels, so concurrent readers corrupt the list", ["sync"])

seed("cursor-pop-start", "C17",
 [("cursor.go", """func (c *Cursor) PopFromPath() *Cursor {
	c.path.RemoveLast()
""", """func (c *Cursor) PopFromPath() *Cursor {
	if c.path.NumEdges() == 1 {
		c.StartPath()
	} else {
		c.path.RemoveLast()
	}
""")],
'''	g := NewGraph()
	a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
	e := g.NewEdge(a, b, "x", nil)
	c := Cursor{}
	c.Set(a).StartPath().PushToPath(e).PopFromPath()
	if c.GetPath().Last() != a {
		t.Errorf("did not go back")
	}
''', "popping the only edge of a path", "the cursor and the path stay at the end of the edge")

seed("unique-by-ends", "C13",
 [("vpathitr.go", "			if nextPath.Edge == p.Edge {\n", "			if nextPath.Edge.from == p.Edge.from && nextPath.Edge.to == p.Edge.to {\n")],
'''	g := NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", nil)
	g.NewEdge(a, a, "x", nil)
	n := 0
	CollectAllPaths(g, a, a.GetEdges(OutgoingEdge), func(*Edge) bool { return true }, OutgoingEdge, 2, 2, func(*Path) bool {
		n++
		return true
	})
	if n != 2 {
		t.Errorf("%d paths", n)
	}
''', "parallel edges on a cycle", "a path that uses two parallel edges is taken for a repetition and left out")

seed("foreign-edge", "C25",
 [("graph.go", """	if from.graph != g {
		panic("from node is not in graph")
	}
	if to.graph != g {
		panic("to node is not in graph")
	}
	newEdge := &Edge{
		from:       from,
""", """	if from.graph != g && to.graph != g {
		panic("from node is not in graph")
	}
	newEdge := &Edge{
		from:       from,
""")],
'''	g, h := NewGraph(), NewGraph()
	a, b := g.NewNode(nil, nil), h.NewNode(nil, nil)
	defer func() {
		recover()
		if b.GetEdges(IncomingEdge).Next() {
			t.Errorf("edge between graphs")
		}
	}()
	g.NewEdge(a, b, "x", nil)
''', "an edge whose ends belong to different graphs", "the edge is created, and the other graph has an edge it does not know")

seed("undirected-right-end", "C12",
 [("pattern.go", """				} else if !pattern[i].Undirected {
					// -->n
					processors[i] = newIterateConnectedEdges(processors[i+1], pattern[i], IncomingEdge)
				} else {
					processors[i] = newIterateConnectedEdges(processors[i+1], pattern[i], AnyEdge)
				}
			} else {
				// There is an edge after this node, and that determines the direction
				if pattern[i+1].ToLeft {
					// n<--
""", """				} else if !pattern[i].Undirected || i == 1 {
					// -->n
					processors[i] = newIterateConnectedEdges(processors[i+1], pattern[i], IncomingEdge)
				} else {
					processors[i] = newIterateConnectedEdges(processors[i+1], pattern[i], AnyEdge)
				}
			} else {
				// There is an edge after this node, and that determines the direction
				if pattern[i+1].ToLeft {
					// n<--
""")],
'''	g := NewGraph()
	a, b := g.NewNode([]string{"a"}, nil), g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	g.NewEdge(b, b, "y", nil)
	p := Pattern{{}, {Min: 1, Max: 1, Undirected: true}, {Labels: NewStringSet("a")}}
	acc, err := p.FindPaths(g, nil)
	if err != nil || len(acc.Paths) != 1 {
		t.Errorf("%d paths %v", len(acc.Paths), err)
	}
''', "an undirected pattern that is searched starting from its right end",
 "edges that go from right to left are not found")

# Second round: other mechanisms

seed("nodelist-single-tail", "C01",
 [("list.go", """	if node.next != nil {
		node.next.prev = node.prev
	} else {
		list.tail = node.prev
	}
""", """	if node.next != nil {
		node.next.prev = node.prev
	} else if node.prev != nil {
		list.tail = node.prev
	}
""")],
'''	g := NewGraph()
	g.NewNode(nil, nil).DetachAndRemove()
	g.NewNode(nil, nil).DetachAndRemove()
	if n := len(NodeSlice(g.GetNodes())); n != 0 {
		t.Errorf("%d nodes", n)
	}
''', "removing the only node of a graph, creating another one, and removing that",
 "the list keeps its removed last node, and the new node stays in the list")

seed("label-smallest-set", "C02",
 [("maps.go", """		if !found {
			return nodeIterator{&emptyIterator{}}
		}
		mp := v.(*fastSet)
		if minSet == nil""", """		if !found {
			break
		}
		mp := v.(*fastSet)
		if minSet == nil"""),
  ("maps.go", "	itr := minSet.iterator()\n", """	if minSet == nil {
		return nodeIterator{&emptyIterator{}}
	}
	itr := minSet.iterator()
"""),
  ("maps.go", "			return onode.labels.HasAllSet(labels)\n", "			return labels.Len() == 1 || onode.labels.HasAny(labels.Slice()...)\n")],
'''	g := NewGraph()
	g.NewNode([]string{"x"}, nil)
	g.NewNode([]string{"y"}, nil)
	g.NewNode([]string{"x", "y"}, nil)
	if n := len(NodeSlice(g.GetNodesWithAllLabels(NewStringSet("x", "y")))); n != 1 {
		t.Errorf("%d nodes", n)
	}
''', "a query with two labels that some nodes have only one of",
 "nodes with some of the labels are found")

seed("edge-stale-links", "C03",
 [("list.go", """		list.tail.listElements[ix].next = edge
	}
	edge.listElements[ix].next = nil
""", """		list.tail.listElements[ix].next = edge
	}
"""),
  ("list.go", """		list.tail = el.prev
	}
	el.next = nil
	el.prev = nil
""", """		list.tail = el.prev
	}
""")],
'''	g := NewGraph()
	a := g.NewNode(nil, nil)
	e := g.NewEdge(a, a, "x", nil)
	g.NewEdge(a, a, "x", nil)
	g.NewEdge(a, a, "y", nil)
	e.SetLabel("y")
	if n := len(EdgeSlice(g.GetEdges())); n != 3 {
		t.Errorf("%d edges", n)
	}
''', "an edge that is not the last one with its label gets the label of another edge",
 "the edge keeps its link to the next edge with its old label")

seed("any-label-missing", "C04",
 [("edgemap.go", """				if _, found := em.labelMap[strings[0]]; !found {
					strings = strings[1:]
					continue
				}
""", """				if _, found := em.labelMap[strings[0]]; !found {
					return nil
				}
""")],
'''	g := NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", nil)
	g.NewEdge(a, a, "x", nil)
	for i := 0; i < 200; i++ {
		if n := len(EdgeSlice(a.GetEdgesWithAnyLabel(OutgoingEdge, NewStringSet("x", "y")))); n != 2 {
			t.Fatalf("%d edges", n)
		}
	}
''', "a lookup with two labels of which the one looked at first has no edges",
 "the lookup stops at the label without edges")

seed("loop-half-removed", "C05",
 [("graph.go", """	edge.to.incoming.remove(edge, 2)
	edge.from.outgoing.remove(edge, 1)
""", """	edge.to.incoming.remove(edge, 2)
	if edge.from != edge.to {
		edge.from.outgoing.remove(edge, 1)
	}
""")],
'''	g := NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", nil).Remove()
	if n := len(EdgeSlice(a.GetEdges(OutgoingEdge))); n != 0 {
		t.Errorf("%d outgoing edges", n)
	}
''', "a self-loop is removed", "it stays among the outgoing edges of the node")

seed("index-unindexed-first", "C06",
 [("indexes.go", """	g.nodesByLabel.Remove(node)

	for k, v := range node.properties {
		index, found := g.nodeProperties[k]
		if !found {
			continue
		}
""", """	g.nodesByLabel.Remove(node)

	for k, v := range node.properties {
		index, found := g.nodeProperties[k]
		if !found {
			return
		}
""")],
'''	for i := 0; i < 200; i++ {
		g := NewGraph()
		g.AddNodePropertyIndex("p", BtreeIndex)
		g.NewNode(nil, map[string]any{"p": "x", "q": "y"}).DetachAndRemove()
		if n := len(NodeSlice(g.GetNodesWithProperty("p"))); n != 0 {
			t.Fatalf("%d nodes", n)
		}
	}
''', "a node with an indexed and another property is removed, the other property being looked at first",
 "the index keeps the removed node")

seed("index-detached-incoming", "C07",
 [("graph.go", """		g.allEdges.remove(edge, 0)
		g.index.removeEdgeFromIndex(edge, g)
	}
	node.incoming = edgeMap{}
""", """		g.allEdges.remove(edge, 0)
	}
	node.incoming = edgeMap{}
""")],
'''	g := NewGraph()
	g.AddEdgePropertyIndex("p", BtreeIndex)
	a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", map[string]any{"p": "v"})
	b.DetachAndRemove()
	if n := len(EdgeSlice(g.GetEdgesWithProperty("p"))); n != 0 {
		t.Errorf("%d edges", n)
	}
''', "the target of an edge with an indexed property is removed",
 "the index keeps the edge that went with the node")

seed("filter-same-value", "C08",
 [("graph.go", """			if ComparePropertyValue(v, nodeValue) != 0 {
				return false
			}
""", """			if v != nodeValue && ComparePropertyValue(v, nodeValue) != 0 {
				return false
			}
""")],
'''	g := NewGraph()
	g.NewNode(nil, map[string]any{"p": []string{"x"}})
	if n := len(NodeSlice(g.FindNodes(StringSet{}, map[string]any{"p": []string{"x"}}))); n != 1 {
		t.Errorf("%d nodes", n)
	}
''', "a query for a property whose value is a list of the same type",
 "comparing the interfaces panics, and the node is not found")

seed("index-skips-label", "C09",
 [("graph.go", """				itr: propertyIterators[minimumPropertyItrKey],
				filter: func(item interface{}) bool {
					return edgeFilterFunc(item.(*Edge))
""", """				itr: propertyIterators[minimumPropertyItrKey],
				filter: func(item interface{}) bool {
					return GetEdgeFilterFunc(StringSet{}, properties)(item.(*Edge))
""")],
'''	g := NewGraph()
	g.AddEdgePropertyIndex("p", HashIndex)
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", map[string]any{"p": 1})
	g.NewEdge(a, a, "y", map[string]any{"p": 1})
	if n := len(EdgeSlice(g.FindEdges(NewStringSet("x"), map[string]any{"p": 1}))); n != 1 {
		t.Errorf("%d edges", n)
	}
''', "a query with a label and an indexed property", "edges with another label are found")

seed("compare-subtract", "C10",
 [("properties.go", """		if v2, ok := b.(int); ok {
			if v1 == v2 {
				return 0
			}
			if v1 < v2 {
				return -1
			}
			return 1
		}
""", """		if v2, ok := b.(int); ok {
			switch d := v1 - v2; {
			case d < 0:
				return -1
			case d > 0:
				return 1
			}
			return 0
		}
""")],
'''	const big = int(^uint(0) >> 1)
	if ComparePropertyValue(big, -2) != 1 || ComparePropertyValue(-2, big) != -1 {
		t.Errorf("order")
	}
''', "integers that are further apart than the largest integer",
 "the difference overflows, and the order is reversed")

seed("pattern-forward-left", "C11",
 [("pattern.go", """				// There is a node before this edge
				if pattern[i].ToLeft {
					// n<--
					processors[i] = newIterateConnectedEdges(processors[i-1], pattern[i], IncomingEdge)
""", """				// There is a node before this edge
				if pattern[i].ToLeft {
					// n<--
					processors[i] = newIterateConnectedEdges(processors[i-1], pattern[i], OutgoingEdge)
""")],
'''	g := NewGraph()
	a, b, c := g.NewNode(nil, nil), g.NewNode(nil, nil), g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	g.NewEdge(c, b, "y", nil)
	s := &PatternSymbol{}
	s.Add(EdgeSlice(g.GetEdgesWithAnyLabel(NewStringSet("x")))[0])
	p := Pattern{{}, {Min: 1, Max: 1, Name: "e"}, {}, {Min: 1, Max: 1, ToLeft: true}, {}}
	acc, err := p.FindPaths(g, map[string]*PatternSymbol{"e": s})
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	for _, x := range acc.Paths {
		if x.Last() == c {
			n++
		}
	}
	if n != 1 {
		t.Errorf("%d paths", n)
	}
''', "a search that starts with an edge of the pattern that is followed by an edge to the left",
 "the second edge is searched in the wrong direction")

seed("variable-one-way", "C13",
 [("vpathitr.go", "				itr: prefix.Last().GetEdges(dir),\n", "				itr: prefix.Last().GetEdges(legDir),\n"),
  ("vpathitr.go", "		if max != -1 && prefix.NumEdges() >= max {\n			return true\n		}\n", """		if max != -1 && prefix.NumEdges() >= max {
			return true
		}
		legDir := dir
		if last := prefix.path[len(prefix.path)-1]; dir == AnyEdge && last.Edge.GetFrom() == last.Edge.GetTo() {
			legDir = OutgoingEdge
		}
""")],
'''	g := NewGraph()
	a, b := g.NewNode([]string{"a"}, nil), g.NewNode([]string{"b"}, nil)
	g.NewEdge(a, a, "x", nil)
	g.NewEdge(b, a, "x", nil)
	p := Pattern{{Labels: NewStringSet("a")}, {Min: 2, Max: 2, Undirected: true}, {Labels: NewStringSet("b")}}
	acc, err := p.FindPaths(g, nil)
	if err != nil || len(acc.Paths) != 1 {
		t.Errorf("%d paths %v", len(acc.Paths), err)
	}
''', "an undirected variable-length item that goes through a self-loop and then against an edge",
 "after a self-loop only outgoing edges are followed")

seed("trail-stop-branch", "C14",
 [("vpathitr.go", """				if !recurse(prefix.Clone().Append(pe)) {
					return false
				}
""", """				if !recurse(prefix.Clone().Append(pe)) {
					return true
				}
""")],
'''	g := NewGraph()
	a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	g.NewEdge(a, b, "x", nil)
	g.NewEdge(b, b, "x", nil)
	n := 0
	CollectAllPaths(g, a, a.GetEdges(OutgoingEdge), func(*Edge) bool { return true }, OutgoingEdge, 2, -1, func(*Path) bool {
		n++
		return false
	})
	if n != 1 {
		t.Errorf("%d calls", n)
	}
''', "the accumulator stops the collection at a path of two edges and another first edge remains",
 "only the current branch stops")

seed("variable-name-kept", "C15",
 [("planprocessors.go", """		ctx.variablePathNode = nil
		ctx.resetStepResult(processor, recorded)
		return true
""", """		if ctx.variablePathNode = nil; processor.patternItem.Max == -1 {
			return true
		}
		ctx.resetStepResult(processor, recorded)
		return true
""")],
'''	g := NewGraph()
	a, b, c := g.NewNode(nil, nil), g.NewNode(nil, nil), g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	g.NewEdge(a, c, "x", nil)
	g.NewEdge(b, c, "x", nil)
	p := Pattern{{}, {Min: 1, Max: -1, Name: "e"}, {}}
	acc, err := p.FindPaths(g, nil)
	if err != nil || len(acc.Paths) != 4 {
		t.Errorf("%d paths %v", len(acc.Paths), err)
	}
''', "a named item of unlimited length that is matched from several nodes",
 "the variable keeps the value of an earlier match, which restricts the later ones")

seed("append-alias", "C16",
 [("path.go", """		p.only = path.only
		p.path = make([]PathElement, len(path.path))
		copy(p.path, path.path)
		return p
""", """		p.only = path.only
		p.path = path.path
		return p
""")],
'''	g := NewGraph()
	a := g.NewNode(nil, nil)
	e, f := g.NewEdge(a, a, "x", nil), g.NewEdge(a, a, "y", nil)
	p := NewPathFromElements(PathElement{Edge: e}, PathElement{Edge: e})
	q := (&Path{}).AppendPath(p)
	q.RemoveLast().Append(PathElement{Edge: f})
	if p.GetEdge(1) != e {
		t.Errorf("changed")
	}
''', "a path is appended to an empty one, which is then shortened and extended",
 "the two paths share their elements, so the first one changes")

seed("cursor-second-push", "C17",
 [("cursor.go", "	c.node = edge.GetTo()\n", "	c.node = c.path.GetNode(1)\n")],
'''	g := NewGraph()
	a, b, d := g.NewNode(nil, nil), g.NewNode(nil, nil), g.NewNode(nil, nil)
	c := (&Cursor{}).Set(a).StartPath()
	c.PushToPath(g.NewEdge(a, b, "x", nil)).PushToPath(g.NewEdge(b, d, "x", nil))
	g.NewEdge(d, a, "y", nil)
	if n := len(EdgeSlice(c.ForwardWith("y"))); n != 1 {
		t.Errorf("%d edges", n)
	}
''', "a second edge is pushed to the path of a cursor", "the cursor stays at the end of the first edge")

seed("json-skip-breaks", "C18",
 [("json.go", """				if len(k) > 0 {
					ret[k] = d
				}
""", """				if len(k) == 0 {
					break
				}
				ret[k] = d
""")],
'''	j := JSON{PropertyMarshaler: func(k string, v any) (string, json.RawMessage, error) {
		if k == "skip" {
			return "", nil, nil
		}
		d, err := json.Marshal(v)
		return k, d, err
	}}
	g := NewGraph()
	g.NewNode(nil, map[string]any{"p": 1, "skip": 1})
	for i := 0; i < 200; i++ {
		out := bytes.Buffer{}
		if err := j.Encode(g, &out); err != nil {
			t.Fatal(err)
		}
		if !strings.Contains(out.String(), `"p":1`) {
			t.Fatal(out.String())
		}
	}
''', "a property marshaler that skips a property which is looked at before another one",
 "the other properties are not encoded", ["bytes", "encoding/json", "strings"])

seed("json-dangling-target", "C19",
 [("json.go", '''					return ErrInvalidGraph{Msg: fmt.Sprintf("Invalid edge.to: %d", edge.To)}
''', '''					continue
''')],
'''	g := NewGraph()
	if err := (JSON{}).Decode(g, json.NewDecoder(strings.NewReader(`{"nodes":[{"n":0,"edges":[{"to":1}]}]}`))); err == nil {
		t.Errorf("accepted")
	}
''', "a document with an edge to a node that does not exist", "the edge is dropped without an error", ["encoding/json", "strings"])

seed("clone-drops-nil", "C20",
 [("properties.go", "		ret[k] = cloneProperty(k, v)\n", """		if c := cloneProperty(k, v); c != nil {
			ret[k] = c
		}
""")],
'''	g, h := NewGraph(), NewGraph()
	a := g.NewNode(nil, map[string]any{"p": nil})
	m := CopyGraph(g, h, func(_ string, v any) any { return v })
	if _, ok := m[a].GetProperty("p"); !ok {
		t.Errorf("property lost")
	}
''', "a property with value nil, or one that the given function turns into nil", "the copy does not have the property")

seed("subgraph-loop", "C21",
 [("clone.go", """		CopySubgraph(edge.GetTo(), target, clonePropertyFunc, nodeMap)
		CopyEdge(edge, target, clonePropertyFunc, nodeMap)
""", """		if edge.GetTo() != sourceNode {
			CopySubgraph(edge.GetTo(), target, clonePropertyFunc, nodeMap)
			CopyEdge(edge, target, clonePropertyFunc, nodeMap)
		}
""")],
'''	g, h := NewGraph(), NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", nil)
	CopySubgraph(a, h, func(_ string, v any) any { return v }, map[*Node]*Node{})
	if h.NumEdges() != 1 {
		t.Errorf("%d edges", h.NumEdges())
	}
''', "a self-loop in the subgraph", "self-loops are not copied")

seed("isomorphism-cancel", "C22",
 [("alg.go", """		if !next() {
			break
		}
		if err := ctx.Err(); err != nil {
			return false, err
		}
""", """		if !next() || ctx.Err() != nil {
			break
		}
""")],
'''	build := func() *Graph {
		g := NewGraph()
		g.NewEdge(g.NewNode(nil, nil), g.NewNode(nil, nil), "x", nil)
		return g
	}
	ctx, cancel := context.WithCancel(context.Background())
	_, err := CheckIsomorphism(ctx, build(), build(), func(_, _ *Node) bool { return true }, func(_, _ *Edge) bool {
		cancel()
		return false
	})
	if err == nil {
		t.Errorf("no error")
	}
''', "a context that is cancelled while the node mappings are tried", "the result is false without an error", ["context"])

seed("set-json-merge", "C23",
 [("stringset.go", "	*set = NewStringSet(arr...)\n	return nil\n", "	set.Add(arr...)\n	return nil\n")],
'''	s := NewStringSet("x")
	if err := json.Unmarshal([]byte(`["y"]`), &s); err != nil || s.Has("x") {
		t.Errorf("%v %v", s, err)
	}
''', "decoding JSON into a set that is not empty", "the old members are kept", ["encoding/json"])

seed("set-nil-removes", "C24",
 [("graph.go", """	edge.properties[key] = value
	if nix != nil {
		nix.add(value, edge.id, edge)
	}
""", """	if value == nil {
		delete(edge.properties, key)
		return
	}
	if edge.properties[key] = value; nix != nil {
		nix.add(value, edge.id, edge)
	}
""")],
'''	g := NewGraph()
	a := g.NewNode(nil, nil)
	e := g.NewEdge(a, a, "x", nil)
	e.SetProperty("p", nil)
	if _, ok := e.GetProperty("p"); !ok {
		t.Errorf("property lost")
	}
''', "an edge property is set to nil", "the property is removed")

seed("edge-shares-map", "C25",
 [("graph.go", """	var p properties
	if len(props) > 0 {
		p = make(properties, len(props))
		for k, v := range props {
			p[k] = v
		}
	}
	return g.FastNewEdge(from, to, label, p)
""", """	return g.FastNewEdge(from, to, label, props)
""")],
'''	g := NewGraph()
	a := g.NewNode(nil, nil)
	m := map[string]any{"p": 1}
	e := g.NewEdge(a, a, "x", m)
	m["p"] = 2
	if v, _ := e.GetProperty("p"); v != 1 {
		t.Errorf("changed")
	}
''', "the map given to NewEdge is changed later", "the properties of the edge change with it")

seed("source-with-loop", "C26",
 [("alg.go", """				if edges := node.GetEdges(IncomingEdge); edges.Next() {
					return false
				}
""", """				for edges := node.GetEdges(IncomingEdge); edges.Next(); {
					if edges.Edge().GetFrom() != node {
						return false
					}
				}
""")],
'''	g := NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", nil)
	if n := len(Sources(g)); n != 0 {
		t.Errorf("%d sources", n)
	}
''', "a node whose only incoming edge is a self-loop", "it is a source")

seed("hash-value-count", "C27",
 [("hashindex.go", "size: ix.elements.Len()}", "size: len(ix.values)}")],
'''	g := NewGraph()
	g.AddNodePropertyIndex("p", HashIndex)
	g.NewNode(nil, map[string]any{"p": 1})
	g.NewNode(nil, map[string]any{"p": 1})
	if n := g.GetNodesWithProperty("p").MaxSize(); n != -1 && n < 2 {
		t.Errorf("MaxSize %d", n)
	}
''', "a hash index with several nodes of one value", "the size is the number of values")

seed("set-added-twice", "C28",
 [("sets.go", """	_, exists := f.m[id]
	if exists {
		return false
	}
	el := f.l.PushBack(item)
	f.m[id] = el
	return true
""", """	_, exists := f.m[id]
	f.m[id] = f.l.PushBack(item)
	return !exists
""")],
'''	g := NewGraph()
	a := g.NewNode(nil, nil)
	s := NewNodeSet()
	s.Add(a)
	s.Add(a)
	if n := len(s.Slice()); n != 1 {
		t.Errorf("%d nodes", n)
	}
''', "a node is added to a set twice", "it is enumerated twice")

seed("nodemap-unlabeled-early", "C29",
 [("maps.go", """	for label := range oldLabels.M {
		if !newLabels.Has(label) {
""", """	for label := range oldLabels.M {
		if newLabels.Len() > 0 && !newLabels.Has(label) {
""")],
'''	g := NewGraph()
	a := g.NewNode([]string{"x"}, nil)
	nm := NewNodeMap()
	nm.Add(a)
	nm.Replace(a, NewStringSet("x"), StringSet{})
	nm.Replace(a, StringSet{}, NewStringSet("y"))
	if n := len(NodeSlice(nm.Iterator())); n != 1 {
		t.Errorf("%d nodes", n)
	}
''', "all labels of a node are taken away, and it is then given others", "the node stays under its first labels")

seed("dot-edge-error", "C30",
 [("dotrenderer.go", """			_, err := d.RenderEdge(fromNodeId, toNodeId, edge, out)
			if err != nil {
				return err
			}
""", """			if rendered, err := d.RenderEdge(fromNodeId, toNodeId, edge, out); rendered && err != nil {
				return err
			}
""")],
'''	g := NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", nil)
	d := DOTRenderer{EdgeRenderer: func(_, _ string, _ *Edge, _ io.Writer) (bool, error) { return false, errors.New("failed") }}
	if d.Render(g, "g", io.Discard) == nil {
		t.Errorf("no error")
	}
''', "an edge renderer that fails without having rendered the edge", "the error is lost", ["errors", "io"])

seed("text-node-value", "C31",
 [("properties.go", """		if _, node := v.(*Node); node {
			continue
		}
""", """		if _, node := v.(*Node); node {
			break
		}
""")],
'''	g := NewGraph()
	a := g.NewNode(nil, nil)
	b := g.NewNode(nil, map[string]any{"p": 1, "n": a})
	for i := 0; i < 200; i++ {
		if b.String() != "( {p:1})" {
			t.Fatal(b.String())
		}
	}
''', "a property whose value is a node is looked at before another one", "the text lacks the other property")

seed("path-text-reverse", "C31",
 [("path.go", """		sb.WriteString(p.Edge.GetFrom().String() + "->" + p.Edge.GetTo().String() + " ")
""", """		sb.WriteString(p.GetSourceNode().String() + "->" + p.GetTargetNode().String() + " ")
""")],
'''	g := NewGraph()
	a, b := g.NewNode([]string{"a"}, nil), g.NewNode([]string{"b"}, nil)
	p := NewPathFromElements(PathElement{Edge: g.NewEdge(a, b, "x", nil), Reverse: true})
	if p.String() != "(:a {})->(:b {}) Reverse" {
		t.Error(p.String())
	}
''', "a path that goes through an edge backwards", "the arrow points from the target to the source of the edge")

seed("read-creates-map", "C32",
 [("properties.go", """	if *p == nil {
		return nil, false
	}
	x, ok""", """	if *p == nil {
		*p = make(properties)
	}
	x, ok""")],
'''	g := NewGraph()
	for i := 0; i < 1000; i++ {
		g.NewNode(nil, nil)
	}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			NodeSlice(g.GetNodesWithProperty("p"))
		}()
	}
	wg.Wait()
''', "concurrent reads of a property of a node without properties", "reading creates the property map", ["sync"], True)

# ---- round three

seed("single-iterator-reused", "C33",
 [("edgemap.go", """	only     *Edge
	n        int
}
""", """	only     *Edge
	n        int
	single   *singleEdgeIterator
}
"""),
  ("edgemap.go", """	if em.n == 0 {
		em.only = edge
		em.n = 1
		return
	}
""", """	if em.n == 0 {
		em.only = edge
		em.single = &singleEdgeIterator{}
		em.n = 1
		return
	}
"""),
  ("edgemap.go", """	if em.n == 1 && label == em.only.label {
		return &singleEdgeIterator{edge: em.only}
	}
""", """	if em.n == 1 && label == em.only.label {
		if em.single == nil {
			return &singleEdgeIterator{edge: em.only}
		}
		*em.single = singleEdgeIterator{edge: em.only}
		return em.single
	}
""")],
'''	g := NewGraph()
	a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	n := 0
	for itr := a.GetEdgesWithLabel(OutgoingEdge, "x"); itr.Next(); {
		if n++; n > 1 {
			t.Fatal("the edge is seen again")
		}
		a.GetEdgesWithLabel(OutgoingEdge, "x")
	}
''', "the only edge of a node is enumerated by its label while another such enumeration is in progress",
 "both enumerations share one iterator")

seed("set-iterator-idle", "C33",
 [("sets.go", """	l *list.List
}

func newFastSet""", """	l *list.List
	// idle is the last iterator, which can be reused at its end
	idle *listIterator
}

func newFastSet"""),
  ("sets.go", """func (f fastSet) iterator() Iterator {
	return &listIterator{next: f.l.Front(), size: f.size()}
}
""", """func (f *fastSet) iterator() Iterator {
	if f.idle == nil || f.idle.next != nil {
		f.idle = &listIterator{}
	}
	*f.idle = listIterator{next: f.l.Front(), size: f.size()}
	return f.idle
}
""")],
'''	g := NewGraph()
	g.NewNode([]string{"a"}, nil)
	g.NewNode([]string{"a"}, nil)
	n := 0
	for itr := g.GetNodesWithAllLabels(NewStringSet("a")); itr.Next(); {
		if n++; n > 2 {
			t.Fatal("does not end")
		}
		if n == 2 {
			g.GetNodesWithAllLabels(NewStringSet("a")).Next()
		}
	}
''', "an enumeration is started while another one of the same set is at its last item",
 "the iterator in use is taken for an idle one, and started again")

seed("path-stack-shared", "C33",
 [("vpathitr.go", """	var recurse func(*Path) bool
""", """	var recurse func(*Path) bool
	pathStack = pathStack[:0]
"""),
  ("vpathitr.go", """func CollectAllPaths(""", """// edges of the path being extended
var pathStack []*Edge

func CollectAllPaths("""),
  ("vpathitr.go", """		for _, p := range path.path {
			if nextPath.Edge == p.Edge {
				return true
			}
		}
""", """		for _, e := range pathStack {
			if nextPath.Edge == e {
				return true
			}
		}
"""),
  ("vpathitr.go", """	recurse = func(prefix *Path) bool {
""", """	recurse = func(prefix *Path) bool {
		depth := len(pathStack)
		pathStack = append(pathStack, prefix.path[len(prefix.path)-1].Edge)
		defer func() { pathStack = pathStack[:depth] }()
""")],
'''	g := NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", nil)
	n := 0
	all := func(*Edge) bool { return true }
	CollectAllPaths(g, a, a.GetEdges(OutgoingEdge), all, OutgoingEdge, 1, 3, func(p *Path) bool {
		n++
		CollectAllPaths(g, a, a.GetEdges(OutgoingEdge), all, OutgoingEdge, 1, 1, func(*Path) bool { return true })
		return true
	})
	if n != 1 {
		t.Errorf("%d paths", n)
	}
''', "paths are collected by the receiver of another collection", "the outer collection forgets the edges of its path and repeats them")

seed("property-same-value", "C24",
 [("graph.go", """		oldValue, exists := node.properties[key]
		if exists {
			if nix != nil {
				nix.remove(oldValue, node.id)
			}
		}
	}
	node.properties[key] = value
""", """		oldValue, exists := node.properties[key]
		if exists && sameProperty(oldValue, value) {
			return
		}
		if exists && nix != nil {
			nix.remove(oldValue, node.id)
		}
	}
	node.properties[key] = value
"""),
  ("graph.go", """func (g *Graph) setNodeProperty(""", """// sameProperty returns whether there is no need to replace the value
func sameProperty(a, b interface{}) (same bool) {
	defer func() {
		if recover() != nil {
			same = false
		}
	}()
	return ComparePropertyValue(a, b) == 0
}

func (g *Graph) setNodeProperty(""")],
'''	g := NewGraph()
	a := g.NewNode(nil, map[string]any{"p": []int{1}})
	a.SetProperty("p", []any{1})
	v, _ := a.GetProperty("p")
	if _, ok := v.([]any); !ok {
		t.Errorf("%T", v)
	}
''', "a property gets a value that compares as equal to the old one, but is another one", "the property keeps the old value")

seed("index-self-scan", "C07",
 [("indexes.go", """	for edges := graph.GetEdges(); edges.Next(); {
""", """	for edges := graph.GetEdgesWithProperty(propertyName); edges.Next(); {
""")],
'''	g := NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", map[string]any{"p": 1})
	g.AddEdgePropertyIndex("p", HashIndex)
	if !g.GetEdgesWithProperty("p").Next() {
		t.Errorf("not found")
	}
''', "an index is added when there are edges with the property", "the new index is asked for the edges to put into it, and stays empty")

seed("compare-mixed-prefix", "C10",
 [("properties.go", """			return -ComparePropertyValue(v2, v1)
		}
		if v2, ok := b.([]int); ok {
			return -ComparePropertyValue(v2, v1)
		}
""", """			return -ComparePropertyValue(v2, v1)
		}
		if v2, ok := b.([]int); ok && len(v1) <= len(v2) {
			return -ComparePropertyValue(v2, v1)
		} else if ok {
			return -ComparePropertyValue(v2, v1[:len(v2)])
		}
""")],
'''	if ComparePropertyValue([]any{1, 2}, []int{1}) != 1 {
		t.Errorf("equal to its prefix")
	}
''', "a generic list is compared with an integer list that is a prefix of it", "they compare equal")

seed("trail-parallel-back", "C14",
 [("vpathitr.go", """			if nextPath.Edge == p.Edge {
				return true
			}
""", """			if nextPath.Edge == p.Edge || p.Reverse && nextPath.Reverse && p.GetSourceNode() == nextPath.GetSourceNode() && p.GetTargetNode() == nextPath.GetTargetNode() {
				return true
			}
""")],
'''	g := NewGraph()
	a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	g.NewEdge(a, b, "y", nil)
	g.NewEdge(a, b, "z", nil)
	n := 0
	CollectAllPaths(g, b, b.GetEdges(AnyEdge), func(*Edge) bool { return true }, AnyEdge, 3, 3, func(*Path) bool { n++; return true })
	if n != 6 {
		t.Errorf("%d paths", n)
	}
''', "a trail goes through two parallel edges backwards", "it is left out")

seed("reverse-slice", "C16",
 [("path.go", """	if startNodeIndex == endNodeIndex {
		return &Path{
			only: p.path[startNodeIndex].GetSourceNode(),
		}
	}
""", """	if startNodeIndex == endNodeIndex {
		return &Path{
			only: p.path[startNodeIndex].Edge.GetFrom(),
		}
	}
""")],
'''	g := NewGraph()
	a, b, c := g.NewNode(nil, nil), g.NewNode(nil, nil), g.NewNode(nil, nil)
	p := NewPathFromElements(PathElement{Edge: g.NewEdge(a, b, "x", nil)}, PathElement{Edge: g.NewEdge(c, b, "y", nil), Reverse: true})
	if p.Slice(1, 1).First() != b {
		t.Errorf("wrong node")
	}
''', "the slice of one node of a path, before a reversed edge", "it is the node at the other end of the edge")

seed("sorted-slice-cache", "C23",
 [("stringset.go", """	M map[string]struct{}
}
""", """	M map[string]struct{}
	// sorted is the result of SortedSlice
	sorted []string
}
"""),
  ("stringset.go", """func (set StringSet) SortedSlice() []string {
	ret := set.Slice()
	sort.Strings(ret)
	return ret
}
""", """func (set *StringSet) SortedSlice() []string {
	if len(set.sorted) != len(set.M) {
		set.sorted = set.Slice()
		sort.Strings(set.sorted)
	}
	return set.sorted
}
""")],
'''	s := NewStringSet("a", "b")
	x := s.SortedSlice()
	s.Remove("a").Add("c")
	if y := s.SortedSlice(); y[1] != "c" {
		t.Error(x, y)
	}
''', "a set is changed without changing its size after its sorted slice was asked for", "the sorted slice is the old one")

seed("decode-shares-props", "C25",
 [("graph.go", """	var p properties
	if len(props) > 0 {
		p = make(properties, len(props))
		for k, v := range props {
			p[k] = v
		}
	}
	return g.FastNewNode(NewStringSet(labels...), p)
""", """	set := NewStringSet(labels...)
	if len(props) <= set.Len() {
		// Labels are the type of the node: there is nothing else to be copied
		return g.FastNewNode(set, props)
	}
	p := make(properties, len(props))
	for k, v := range props {
		p[k] = v
	}
	return g.FastNewNode(set, p)
""")],
'''	g := NewGraph()
	m := map[string]any{"p": 1}
	a := g.NewNode([]string{"x", "y"}, m)
	m["p"] = 2
	if v, _ := a.GetProperty("p"); v != 1 {
		t.Error(v)
	}
''', "a node with no more properties than labels, and a later change of the given properties", "the node has the given map")

seed("single-edge-again", "C27",
 [("edgemap.go", """	if itr.done {
		return false
	}
	itr.done = true
	return true
""", """	itr.done = !itr.done
	return itr.done
""")],
'''	g := NewGraph()
	a := g.NewNode(nil, nil)
	g.NewEdge(a, a, "x", nil)
	itr := a.GetEdges(OutgoingEdge)
	itr.Next()
	if itr.Next() || itr.Next() {
		t.Errorf("not exhausted")
	}
''', "the enumeration of one edge is asked for more after its end", "it starts again")

seed("json-last-write", "C18",
 [("json.go", """	if _, err := out.Write(objEnd); err != nil {
		return err
	}

	return nil
}
""", """	_, err := out.Write(objEnd)
	if err != nil && !j.MarshalEdgesSeparately && len(nodeMap) == 0 {
		return err
	}
	return nil
}
""")],
'''	g := NewGraph()
	g.NewNode(nil, nil)
	if (JSON{}).Encode(g, demoFull{}) == nil {
		t.Errorf("no error")
	}
}

// demoFull has no room for the end of the document
type demoFull struct{}

func (demoFull) Write(b []byte) (int, error) {
	if string(b) == "}" {
		demoEnds++
	}
	if demoEnds == 2 {
		return 0, errors.New("full")
	}
	return len(b), nil
}

var demoEnds int

func init() {
''', "the last write of the document fails", "the error is lost", ["errors"])

seed("subgraph-reuse", "C21",
 [("clone.go", """	if _, ok := nodeMap[sourceNode]; ok {
		return
	}
	nodeMap[sourceNode] = CopyNode(sourceNode, target, clonePropertyFunc)
	for edges := sourceNode.GetEdges(OutgoingEdge); edges.Next(); {
		edge := edges.Edge()
		CopySubgraph(edge.GetTo(), target, clonePropertyFunc, nodeMap)
""", """	if _, ok := nodeMap[sourceNode]; ok {
		return
	}
	nodeMap[sourceNode] = CopyNode(sourceNode, target, clonePropertyFunc)
	for edges := sourceNode.GetEdges(OutgoingEdge); edges.Next(); {
		edge := edges.Edge()
		if to := edge.GetTo(); to.GetGraph() == target && !to.GetEdges(OutgoingEdge).Next() {
			// A leaf that is already there
			nodeMap[to] = to
		} else {
			CopySubgraph(to, target, clonePropertyFunc, nodeMap)
		}
""")],
'''	g := NewGraph()
	a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
	g.NewEdge(a, b, "x", nil)
	m := make(map[*Node]*Node)
	CopySubgraph(a, g, func(_ string, v interface{}) interface{} { return v }, m)
	if g.NumNodes() != 4 {
		t.Errorf("%d nodes", g.NumNodes())
	}
''', "a subgraph is copied within its graph", "its leaves are not copied")


# ---- fourth round

seed("isomorphism-forever", "C22",
 [("alg.go", """			nodeEquivalences[index]++
			if nodeEquivalences[index] < len(equivalences[index]) {
				return true
			}
			nodeEquivalences[index] = 0
		}
		return false
""", """			if len(equivalences[index]) == 1 {
				continue
			}
			nodeEquivalences[index]++
			if nodeEquivalences[index] < len(equivalences[index]) {
				return true
			}
			nodeEquivalences[index] = 0
		}
		// Nothing else to try if every node has one candidate
		return len(equivalences) > 0 && len(equivalences[0]) > 1
""")],
'''	g1, g2 := NewGraph(), NewGraph()
	a, b := g1.NewNode(nil, nil), g1.NewNode(nil, nil)
	g1.NewEdge(a, b, "", nil)
	c := g2.NewNode(nil, nil)
	g2.NewNode(nil, nil)
	g2.NewEdge(c, c, "", nil)
	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
	defer cancel()
	iso, err := CheckIsomorphism(ctx, g1, g2, func(_, _ *Node) bool { return true }, func(_, _ *Edge) bool { return true })
	if iso || err != nil {
		t.Errorf("%v %v", iso, err)
	}
''', "two graphs of the same size that are not isomorphic and whose nodes have several candidates each",
 "the search for a correspondence starts over when it has tried everything", ["context", "time"])

seed("trail-path-lent", "C14",
 [("vpathitr.go", """			if !accumulator(prefix.Clone()) {""", """			if !accumulator(prefix) {""")],
'''	g := NewGraph()
	a, b, c := g.NewNode(nil, nil), g.NewNode(nil, nil), g.NewNode(nil, nil)
	g.NewEdge(a, b, "", nil)
	g.NewEdge(b, c, "", nil)
	longest := 0
	CollectAllPaths(g, a, a.GetEdges(OutgoingEdge), func(*Edge) bool { return true }, OutgoingEdge, 1, 2, func(p *Path) bool {
		if p.NumEdges() > longest {
			longest = p.NumEdges()
		}
		p.RemoveFirst()
		return true
	})
	if longest != 2 {
		t.Errorf("longest path has %d edges", longest)
	}
''', "a receiver that shortens the paths it is given, and a path that can be extended",
 "the receiver gets the path the collection goes on with")

seed("nil-property-stays", "C24",
 [("graph.go", """	value, exists := node.properties[key]
	if !exists {
		return
	}
	nix := g.index.isNodePropertyIndexed(key)""", """	value := node.properties[key]
	if value == nil {
		return
	}
	nix := g.index.isNodePropertyIndexed(key)""")],
'''	g := NewGraph()
	a := g.NewNode(nil, nil)
	a.SetProperty("p", nil)
	a.RemoveProperty("p")
	if _, ok := a.GetProperty("p"); ok {
		t.Errorf("removed property exists")
	}
''', "a property with a nil value is removed from a node",
 "a property whose value is nil cannot be removed")
