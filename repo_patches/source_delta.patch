From e395932ee8e9cb39764e14e11bf64fe1937043a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:29 +0000
Subject: [PATCH 01/26] fix: keep the node list tail valid when the last node
 is removed

---
 list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list.go b/list.go
index 0f0eb2b..97d30c8 100644
--- a/list.go
+++ b/list.go
@@ -117,7 +117,7 @@ func (list *nodeList) remove(node *Node) {
 	if node.next != nil {
 		node.next.prev = node.prev
 	} else {
-		list.tail = node
+		list.tail = node.prev
 	}
 	list.n--
 }
-- 
2.43.0


From 572ddfd4a5d400a384cc4664ff726b7594472269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:58 +0000
Subject: [PATCH 02/26] fix: keep the label index consistent when all labels of
 a node are removed

Replace left the node in the sets of its old labels when the new label
set was empty, and IsEmpty ignored nodes without labels.
---
 maps.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/maps.go b/maps.go
index 2a6088f..db1a92e 100644
--- a/maps.go
+++ b/maps.go
@@ -42,7 +42,6 @@ func (nm *NodeMap) Replace(node *Node, oldLabels, newLabels StringSet) {
 	}
 	if newLabels.Len() == 0 {
 		nm.nolabels.add(node.id, node)
-		return
 	}
 	var set *fastSet
 	// Process removed labels
@@ -113,10 +112,7 @@ func (nm NodeMap) Remove(node *Node) {
 }
 
 func (nm NodeMap) IsEmpty() bool {
-	if nm.m.Size() == 0 {
-		return true
-	}
-	return false
+	return nm.m.Size() == 0 && nm.nolabels.size() == 0
 }
 
 type nodeMapIterator struct {
-- 
2.43.0


From 7ab14ad61f45dd03ec0bde36ee3db8812f4f1441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:58 +0000
Subject: [PATCH 03/26] fix: looking up nodes with an empty label set
 dereferenced nil

---
 maps.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maps.go b/maps.go
index db1a92e..14ce2a5 100644
--- a/maps.go
+++ b/maps.go
@@ -178,6 +178,9 @@ func (nm NodeMap) Iterator() NodeIterator {
 }
 
 func (nm NodeMap) IteratorAllLabels(labels StringSet) NodeIterator {
+	if labels.Len() == 0 {
+		return nm.Iterator()
+	}
 	// Find the smallest map element, iterate that
 	var minSet *fastSet
 	for label := range labels.M {
-- 
2.43.0


From 8a28234e475ac19d39f54df942bb748c619e4bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:58 +0000
Subject: [PATCH 04/26] fix: relabeling an edge left it under its old label in
 the graph's edge map

---
 graph.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graph.go b/graph.go
index 4ac65e3..2e1e449 100644
--- a/graph.go
+++ b/graph.go
@@ -523,7 +523,9 @@ func (g *Graph) disconnect(edge *Edge) {
 
 func (g *Graph) setEdgeLabel(edge *Edge, label string) {
 	g.disconnect(edge)
+	g.allEdges.remove(edge, 0)
 	edge.label = label
+	g.allEdges.add(edge, 0)
 	g.connect(edge)
 }
 
-- 
2.43.0


From ee3f82c3efd6f96fd1152a5529258f7a1584d111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:13 +0000
Subject: [PATCH 05/26] fix: searching by properties only, or without a usable
 index, dereferenced nil or ignored the filter

---
 graph.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/graph.go b/graph.go
index 2e1e449..a4e34eb 100644
--- a/graph.go
+++ b/graph.go
@@ -228,7 +228,10 @@ func (g *Graph) FindNodes(allLabels StringSet, properties map[string]interface{}
 		nodesByLabelItr = g.index.nodesByLabel.IteratorAllLabels(allLabels)
 	}
 	// Select the iterator with minimum max size
-	nodesByLabelSize := nodesByLabelItr.MaxSize()
+	nodesByLabelSize := -1
+	if nodesByLabelItr != nil {
+		nodesByLabelSize = nodesByLabelItr.MaxSize()
+	}
 	propertyIterators := make(map[string]NodeIterator)
 	if len(properties) > 0 {
 		for k, v := range properties {
@@ -277,8 +280,15 @@ func (g *Graph) FindNodes(allLabels StringSet, properties map[string]interface{}
 			},
 		}
 	}
-	// Iterate all
-	return g.GetNodes()
+	// Iterate all, with a filter
+	return nodeIterator{
+		&filterIterator{
+			itr: g.GetNodes(),
+			filter: func(item interface{}) bool {
+				return nodeFilterFunc(item.(*Node))
+			},
+		},
+	}
 }
 
 // FindEdges returns an iterator that will iterate through all the
@@ -297,7 +307,10 @@ func (g *Graph) FindEdges(labels StringSet, properties map[string]interface{}) E
 		edgesByLabelItr = g.GetEdgesWithAnyLabel(labels)
 	}
 	// Select the iterator with minimum max size
-	edgesByLabelSize := edgesByLabelItr.MaxSize()
+	edgesByLabelSize := -1
+	if edgesByLabelItr != nil {
+		edgesByLabelSize = edgesByLabelItr.MaxSize()
+	}
 	propertyIterators := make(map[string]EdgeIterator)
 	if len(properties) > 0 {
 		for k, v := range properties {
@@ -346,8 +359,15 @@ func (g *Graph) FindEdges(labels StringSet, properties map[string]interface{}) E
 			},
 		}
 	}
-	// Iterate all
-	return g.GetEdges()
+	// Iterate all, with a filter
+	return &edgeIterator{
+		&filterIterator{
+			itr: g.GetEdges(),
+			filter: func(item interface{}) bool {
+				return edgeFilterFunc(item.(*Edge))
+			},
+		},
+	}
 }
 
 // GetNodeFilterFunc returns a filter function that can be used to select
-- 
2.43.0


From 6eeab19b63f2ff8e34a1c06f4f5e99ebc49be3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:16 +0000
Subject: [PATCH 06/26] fix: hash index panicked on list values

---
 hashindex.go | 45 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/hashindex.go b/hashindex.go
index e4b283c..2718ffd 100644
--- a/hashindex.go
+++ b/hashindex.go
@@ -24,14 +24,45 @@ type hashIndex struct {
 	elements list.List
 }
 
+// listKey is the hash key of a list: the key of its first element, and
+// the key of the rest of the list
+type listKey struct {
+	head, tail interface{}
+}
+
+// hashKey returns a hashable key for the property value. Values that
+// are equal based on ComparePropertyValue have equal keys.
+func hashKey(value interface{}) interface{} {
+	if native, ok := value.(WithNativeValue); ok {
+		return hashKey(native.GetNativeValue())
+	}
+	key := listKey{}
+	switch list := value.(type) {
+	case []int:
+		for i := len(list) - 1; i >= 0; i-- {
+			key = listKey{head: list[i], tail: key}
+		}
+		return key
+	case []string:
+		for i := len(list) - 1; i >= 0; i-- {
+			key = listKey{head: list[i], tail: key}
+		}
+		return key
+	case []interface{}:
+		for i := len(list) - 1; i >= 0; i-- {
+			key = listKey{head: hashKey(list[i]), tail: key}
+		}
+		return key
+	}
+	return value
+}
+
 func (ix *hashIndex) add(value interface{}, id int, item interface{}) {
 	if ix.values == nil {
 		ix.values = make(map[interface{}]*fastSet)
 	}
 
-	if native, ok := value.(WithNativeValue); ok {
-		value = native.GetNativeValue()
-	}
+	value = hashKey(value)
 
 	el := ix.elements.PushBack(item)
 	fs, ok := ix.values[value]
@@ -46,9 +77,7 @@ func (ix *hashIndex) remove(value interface{}, id int) {
 	if ix.values == nil {
 		return
 	}
-	if native, ok := value.(WithNativeValue); ok {
-		value = native.GetNativeValue()
-	}
+	value = hashKey(value)
 	fs, ok := ix.values[value]
 	if !ok {
 		return
@@ -66,9 +95,7 @@ func (ix *hashIndex) find(value interface{}) Iterator {
 	if ix.values == nil {
 		return emptyIterator{}
 	}
-	if native, ok := value.(WithNativeValue); ok {
-		value = native.GetNativeValue()
-	}
+	value = hashKey(value)
 	v, found := ix.values[value]
 	if !found {
 		return emptyIterator{}
-- 
2.43.0


From 0c17af3ee30c76b165eca7120f1f247215ad49af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:33 +0000
Subject: [PATCH 07/26] fix: B-tree index lookup panicked for values not
 comparable with the indexed ones

---
 btreeindex.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/btreeindex.go b/btreeindex.go
index ec3ebd8..3e0b20f 100644
--- a/btreeindex.go
+++ b/btreeindex.go
@@ -51,18 +51,23 @@ func (s setTree) remove(key interface{}, id int) {
 	}
 }
 
-// find returns the iterator and expected size.
-func (s setTree) find(key interface{}) Iterator {
+// find returns the iterator and expected size. If the key cannot be
+// compared with the indexed values, nothing is found.
+func (s setTree) find(key interface{}) (itr Iterator) {
 	if s.tree == nil {
 		return emptyIterator{}
 	}
+	defer func() {
+		if r := recover(); r != nil {
+			itr = emptyIterator{}
+		}
+	}()
 	v, found := s.tree.Get(key)
 	if !found {
 		return emptyIterator{}
 	}
 	set := v.(*fastSet)
-	itr := set.iterator()
-	return withSize(itr, set.size())
+	return withSize(set.iterator(), set.size())
 }
 
 func (s setTree) valueItr() Iterator {
-- 
2.43.0


From 4564fc963a8b383f6e2cb9446908d7ecdf9d6c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:35 +0000
Subject: [PATCH 08/26] fix: removed edges stayed in the edge property indexes

---
 graph.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graph.go b/graph.go
index a4e34eb..7a27159 100644
--- a/graph.go
+++ b/graph.go
@@ -552,6 +552,7 @@ func (g *Graph) setEdgeLabel(edge *Edge, label string) {
 func (g *Graph) removeEdge(edge *Edge) {
 	g.disconnect(edge)
 	g.allEdges.remove(edge, 0)
+	g.index.removeEdgeFromIndex(edge, g)
 }
 
 func (g *Graph) setEdgeProperty(edge *Edge, key string, value interface{}) {
-- 
2.43.0


From 4d9e0a05ef832802f07ee63cc38b663700eada80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 09/26] fix: isomorphism check mapped several nodes or edges to
 the same one

---
 alg.go | 51 ++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/alg.go b/alg.go
index 5bc333c..9cddd93 100644
--- a/alg.go
+++ b/alg.go
@@ -132,7 +132,43 @@ func CheckIsomorphism(ctx context.Context, g1, g2 *Graph, nodeEquivalenceFunc fu
 		return false
 	}
 
+	// matchEdges returns true if edges1 and edges2, which have the same
+	// size, can be paired so that every edge is used once, and the edges
+	// of a pair are equivalent and go to equivalent nodes
+	matchEdges := func(nodeMapping map[*Node]*Node, edges1, edges2 []*Edge) bool {
+		// The edge of edges1 paired with each edge of edges2
+		pairs := make([]*Edge, len(edges2))
+		var pair func(edge1 *Edge, tried []bool) bool
+		pair = func(edge1 *Edge, tried []bool) bool {
+			for i, edge2 := range edges2 {
+				if tried[i] || nodeMapping[edge1.GetTo()] != edge2.GetTo() || !edgeEquivalenceFunc(edge1, edge2) {
+					continue
+				}
+				tried[i] = true
+				if pairs[i] == nil || pair(pairs[i], tried) {
+					pairs[i] = edge1
+					return true
+				}
+			}
+			return false
+		}
+		for _, edge1 := range edges1 {
+			if !pair(edge1, make([]bool, len(edges2))) {
+				return false
+			}
+		}
+		return true
+	}
+
 	isIsomorphism := func(nodeMapping map[*Node]*Node) bool {
+		// Every node of g2 must be used once
+		mappedNodes := make(map[*Node]struct{})
+		for _, node2 := range nodeMapping {
+			mappedNodes[node2] = struct{}{}
+		}
+		if len(mappedNodes) != len(nodeMapping) {
+			return false
+		}
 		for node1, node2 := range nodeMapping {
 			// node1 and node2 are equivalent. Now we check if equivalent edges go to equivalent nodes
 			edges1 := EdgeSlice(node1.GetEdges(OutgoingEdge))
@@ -142,19 +178,8 @@ func CheckIsomorphism(ctx context.Context, g1, g2 *Graph, nodeEquivalenceFunc fu
 				return false
 			}
 
-			for _, edge1 := range edges1 {
-				found := false
-				for _, edge2 := range edges2 {
-					// edge1.Edge.GetTo()
-					if nodeMapping[edge1.GetTo()] == edge2.GetTo() &&
-						edgeEquivalenceFunc(edge1, edge2) {
-						found = true
-						break
-					}
-				}
-				if !found {
-					return false
-				}
+			if !matchEdges(nodeMapping, edges1, edges2) {
+				return false
 			}
 		}
 		return true
-- 
2.43.0


From 083352935f06747e24e6381e4a6f96de87748f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 10/26] fix: cursor returned the current node for incoming
 edges when moving in any direction

---
 cursor.go | 4 ++--
 itr.go    | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cursor.go b/cursor.go
index e393582..7517574 100644
--- a/cursor.go
+++ b/cursor.go
@@ -81,7 +81,7 @@ func (c *Cursor) Nodes(dir EdgeDir) NodeIterator {
 	if c.node == nil {
 		return &nodeIterator{emptyIterator{}}
 	}
-	return newNodesFromEdges(c.node.GetEdges(dir), dir)
+	return newNodesFromEdges(c.node, c.node.GetEdges(dir), dir)
 }
 
 // NodesWith returns an iterator over the nodes that are reachable by
@@ -91,7 +91,7 @@ func (c *Cursor) NodesWith(dir EdgeDir, label string) NodeIterator {
 	if c.node == nil {
 		return &nodeIterator{emptyIterator{}}
 	}
-	return newNodesFromEdges(c.node.GetEdgesWithLabel(dir, label), dir)
+	return newNodesFromEdges(c.node, c.node.GetEdgesWithLabel(dir, label), dir)
 }
 
 // Forward returns an edge iterator for outgoing edges of the current
diff --git a/itr.go b/itr.go
index b2c31a7..5517588 100644
--- a/itr.go
+++ b/itr.go
@@ -252,13 +252,17 @@ func (l *listIterator) MaxSize() int { return l.size }
 
 // nodesFromEdgesIterator iterates the nodes of an edge iterator
 type nodesFromEdgesIterator struct {
+	node *Node
 	dir  EdgeDir
 	itr  EdgeIterator
 	seen map[int]struct{}
 }
 
-func newNodesFromEdges(itr EdgeIterator, dir EdgeDir) NodeIterator {
+// newNodesFromEdges returns an iterator over the other ends of the edges
+// of a node
+func newNodesFromEdges(node *Node, itr EdgeIterator, dir EdgeDir) NodeIterator {
 	return &nodesFromEdgesIterator{
+		node: node,
 		dir:  dir,
 		itr:  itr,
 		seen: make(map[int]struct{}),
@@ -283,7 +287,7 @@ func (i *nodesFromEdgesIterator) Value() interface{} { return i.Node() }
 
 func (i *nodesFromEdgesIterator) Node() *Node {
 	e := i.itr.Edge()
-	if i.dir == IncomingEdge {
+	if i.dir == IncomingEdge || (i.dir == AnyEdge && e.GetTo() == i.node) {
 		return e.GetFrom()
 	}
 	return e.GetTo()
-- 
2.43.0


From a522871c97cfa1c9df33d3eb161a327bc5db5a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 11/26] fix: size estimate of edge iterators in both directions
 did not allow for unknown sizes

---
 itr.go  | 9 +++++++++
 node.go | 6 +++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/itr.go b/itr.go
index 5517588..cd43cb7 100644
--- a/itr.go
+++ b/itr.go
@@ -193,6 +193,15 @@ func MultiIterator(iterators ...Iterator) Iterator {
 	}
 }
 
+// sumMaxSize returns the max size of the concatenation of two iterators
+func sumMaxSize(i1, i2 Iterator) int {
+	s1, s2 := i1.MaxSize(), i2.MaxSize()
+	if s1 == -1 || s2 == -1 {
+		return -1
+	}
+	return s1 + s2
+}
+
 // nodeIterator is a type-safe iterator for nodes
 type nodeIterator struct {
 	Iterator
diff --git a/node.go b/node.go
index 666e0ec..cf99371 100644
--- a/node.go
+++ b/node.go
@@ -63,7 +63,7 @@ func (node *Node) GetEdges(dir EdgeDir) EdgeIterator {
 	}
 	i1 := node.incoming.iterator(2)
 	i2 := node.outgoing.iterator(1)
-	return edgeIterator{withSize(MultiIterator(i1, i2), i1.MaxSize()+i2.MaxSize())}
+	return edgeIterator{withSize(MultiIterator(i1, i2), sumMaxSize(i1, i2))}
 }
 
 // Returns an edge iterator for incoming or outgoing edges with the given label
@@ -76,7 +76,7 @@ func (node *Node) GetEdgesWithLabel(dir EdgeDir, label string) EdgeIterator {
 	}
 	i1 := node.incoming.iteratorLabel(label, 2)
 	i2 := node.outgoing.iteratorLabel(label, 1)
-	return edgeIterator{withSize(MultiIterator(i1, i2), i1.MaxSize()+i2.MaxSize())}
+	return edgeIterator{withSize(MultiIterator(i1, i2), sumMaxSize(i1, i2))}
 }
 
 // Returns an edge iterator for incoming or outgoingn edges that has the given labels
@@ -95,7 +95,7 @@ func (node *Node) GetEdgesWithAnyLabel(dir EdgeDir, labels StringSet) EdgeIterat
 	}
 	i1 := node.GetEdgesWithAnyLabel(IncomingEdge, labels)
 	i2 := node.GetEdgesWithAnyLabel(OutgoingEdge, labels)
-	return edgeIterator{withSize(MultiIterator(i1, i2), i1.MaxSize()+i2.MaxSize())}
+	return edgeIterator{withSize(MultiIterator(i1, i2), sumMaxSize(i1, i2))}
 }
 
 // SetLabels sets the node labels
-- 
2.43.0


From a16a95e2c57682dd2c004919e17bc619f15148fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 12/26] fix: patterns starting at an edge did not follow the
 direction of the pattern

If the search starts at an edge, undirected edges dereferenced the missing
node step or were only followed in one direction, and the path elements of
edges pointing left were not reversed.
---
 pattern.go        | 10 ++++----
 planprocessors.go | 59 +++++++++++++++++++++++++----------------------
 2 files changed, 37 insertions(+), 32 deletions(-)

diff --git a/pattern.go b/pattern.go
index e212cd8..d41daf1 100644
--- a/pattern.go
+++ b/pattern.go
@@ -415,7 +415,7 @@ func (pattern Pattern) GetPlan(graph *Graph, symbols map[string]*PatternSymbol)
 					processors[i] = newIterateConnectedNodes(processors[i-1], pattern[i], useToNode)
 				} else {
 					// --n
-					processors[i] = newIterateConnectedNodes(processors[i-1], pattern[i], useAnyNode, processors[i-2])
+					processors[i] = newIterateConnectedNodes(processors[i-1], pattern[i], useAnyNode)
 				}
 			}
 			plan.steps = append(plan.steps, processors[i])
@@ -443,7 +443,7 @@ func (pattern Pattern) GetPlan(graph *Graph, symbols map[string]*PatternSymbol)
 					// n-->
 					processors[i] = newIterateConnectedNodes(processors[i+1], pattern[i], useFromNode)
 				} else {
-					processors[i] = newIterateConnectedNodes(processors[i+1], pattern[i], useAnyNode, processors[i+2])
+					processors[i] = newIterateConnectedNodes(processors[i+1], pattern[i], useAnyNode)
 				}
 			}
 			plan.steps = append(plan.steps, processors[i])
@@ -472,7 +472,7 @@ func (pattern Pattern) GetPlan(graph *Graph, symbols map[string]*PatternSymbol)
 				} else if !pattern[i-1].Undirected {
 					processors[i] = newIterateConnectedNodes(processors[i-1], pattern[i], useToNode)
 				} else {
-					processors[i] = newIterateConnectedNodes(processors[i-1], pattern[i], useAnyNode, processors[i-2])
+					processors[i] = newIterateConnectedNodes(processors[i-1], pattern[i], useAnyNode)
 				}
 			}
 			plan.steps = append(plan.steps, processors[i])
@@ -497,8 +497,10 @@ func (pattern Pattern) GetPlan(graph *Graph, symbols map[string]*PatternSymbol)
 					processors[i] = newIterateConnectedNodes(processors[i+1], pattern[i], useToNode)
 				} else if !pattern[i+1].Undirected {
 					processors[i] = newIterateConnectedNodes(processors[i+1], pattern[i], useFromNode)
+				} else if i == index-1 {
+					processors[i] = newIterateConnectedNodes(processors[i+1], pattern[i], useFirstNode)
 				} else {
-					processors[i] = newIterateConnectedNodes(processors[i+1], pattern[i], useAnyNode, processors[i+2])
+					processors[i] = newIterateConnectedNodes(processors[i+1], pattern[i], useAnyNode)
 				}
 			}
 			plan.steps = append(plan.steps, processors[i])
diff --git a/planprocessors.go b/planprocessors.go
index f9b2994..bfbda06 100644
--- a/planprocessors.go
+++ b/planprocessors.go
@@ -100,17 +100,25 @@ func (processor *iterateEdges) init(ctx *MatchContext) {
 func (processor *iterateEdges) Run(ctx *MatchContext, next matchAccumulator) error {
 	processor.init(ctx)
 	for processor.itr.Next() {
-		path := &Path{path: []PathElement{{Edge: processor.itr.Edge()}}}
-		// TODO: find edge dir
-		// if  {
-		// 	path.path[0].Reverse = true
-		// }
-		processor.result = path
-		ctx.recordStepResult(processor)
-		if err := next.Run(ctx); err != nil {
-			return err
+		edge := processor.itr.Edge()
+		loop := edge.GetFrom() == edge.GetTo()
+		// The path follows the direction of the pattern, so an undirected
+		// pattern has to go through the edge in both directions
+		for _, reverse := range []bool{false, true} {
+			if !processor.patternItem.Undirected && processor.patternItem.ToLeft != reverse {
+				continue
+			}
+			if processor.patternItem.Undirected && reverse && loop {
+				continue
+			}
+			path := &Path{path: []PathElement{{Edge: edge, Reverse: reverse && !loop}}}
+			processor.result = path
+			ctx.recordStepResult(processor)
+			if err := next.Run(ctx); err != nil {
+				return err
+			}
+			ctx.resetStepResult(processor)
 		}
-		ctx.resetStepResult(processor)
 	}
 	return nil
 }
@@ -199,27 +207,23 @@ func (processor *iterateConnectedEdges) IsEdge()                     {}
 const useFromNode = -1
 const useAnyNode = 0
 const useToNode = 1
+const useFirstNode = 2
 
 type iterateConnectedNodes struct {
-	patternItem    PatternItem
-	source         planProcessor
-	useNode        int
-	result         *Node
-	nodeFilter     func(*Node) bool
-	prevOrNextNode planProcessor
+	patternItem PatternItem
+	source      planProcessor
+	useNode     int
+	result      *Node
+	nodeFilter  func(*Node) bool
 }
 
-func newIterateConnectedNodes(source planProcessor, item PatternItem, useNode int, prevOrNextNode ...planProcessor) *iterateConnectedNodes {
-	ret := &iterateConnectedNodes{
+func newIterateConnectedNodes(source planProcessor, item PatternItem, useNode int) *iterateConnectedNodes {
+	return &iterateConnectedNodes{
 		patternItem: item,
 		source:      source,
 		useNode:     useNode,
 		nodeFilter:  item.getNodeFilter(),
 	}
-	if useNode == useAnyNode {
-		ret.prevOrNextNode = prevOrNextNode[0]
-	}
-	return ret
 }
 
 func (processor *iterateConnectedNodes) Run(ctx *MatchContext, next matchAccumulator) error {
@@ -242,12 +246,11 @@ func (processor *iterateConnectedNodes) Run(ctx *MatchContext, next matchAccumul
 		case useFromNode:
 			node = edge.GetFrom()
 		case useAnyNode:
-			n := processor.prevOrNextNode.GetResult().(*Node)
-			if edge.GetTo() == n {
-				node = edge.GetFrom()
-			} else {
-				node = edge.GetTo()
-			}
+			// The path goes from the node before the edge to this node
+			node = edges.Last()
+		case useFirstNode:
+			// The plan starts with the edge, and goes backwards from it
+			node = edges.First()
 		}
 	}
 	logf("Iterate connected nodes with node=%+v\n", node)
-- 
2.43.0


From 7ed3267f101db8d2a97a73ce5d80583fdb6b46d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 13/26] fix: variable length edges matched backwards lost all
 but one edge of the path

The paths found going backwards in the pattern are also reported as
symbol values in the direction of the pattern.
---
 pattern.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/pattern.go b/pattern.go
index d41daf1..af71b02 100644
--- a/pattern.go
+++ b/pattern.go
@@ -551,22 +551,41 @@ func (plan MatchPlan) GetCurrentPath() *Path {
 		}
 	}
 	revPathOut := &Path{}
-	for i := len(plan.steps) - 1; i >= plan.nForward; i-- {
-		if path, ok := plan.steps[i].GetResult().(*Path); ok {
-			revPathOut.Append(PathElement{Edge: path.path[0].Edge, Reverse: !path.path[0].Reverse})
-			// revPathOut.AppendPath(path)
+	for i := len(plan.steps) - 1; i > plan.nForward; i-- {
+		if path, ok := plan.getStepResult(i).(*Path); ok {
+			revPathOut.AppendPath(path)
 		}
 	}
 	return revPathOut.AppendPath(out)
 }
 
+// getStepResult returns the result of the step as it appears in the
+// pattern. The paths of the steps going backwards are found starting
+// from the node on their right, so they are reversed.
+func (plan MatchPlan) getStepResult(step int) interface{} {
+	result := plan.steps[step].GetResult()
+	path, ok := result.(*Path)
+	if !ok || step <= plan.nForward {
+		return result
+	}
+	ret := &Path{path: make([]PathElement, 0, len(path.path))}
+	for i := len(path.path) - 1; i >= 0; i-- {
+		pe := path.path[i]
+		if pe.Edge.GetFrom() != pe.Edge.GetTo() {
+			pe.Reverse = !pe.Reverse
+		}
+		ret.path = append(ret.path, pe)
+	}
+	return ret
+}
+
 // CaptureSymbolValues captures the current symbol values as nodes or []Edges
 func (plan MatchPlan) CaptureSymbolValues() map[string]interface{} {
 	ret := make(map[string]interface{})
-	for _, step := range plan.steps {
+	for i, step := range plan.steps {
 		if len(step.GetPatternItem().Name) > 0 {
 			if _, exists := ret[step.GetPatternItem().Name]; !exists {
-				ret[step.GetPatternItem().Name] = step.GetResult()
+				ret[step.GetPatternItem().Name] = plan.getStepResult(i)
 			}
 		}
 	}
-- 
2.43.0


From ebe83b0f3abc866d6acc439df2bb9c7c4f31b347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 14/26] fix: undirected pattern edges matched self-loops twice

---
 planprocessors.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/planprocessors.go b/planprocessors.go
index bfbda06..e1f9674 100644
--- a/planprocessors.go
+++ b/planprocessors.go
@@ -164,6 +164,8 @@ func (processor *iterateConnectedEdges) Run(ctx *MatchContext, next matchAccumul
 		return nil
 	}
 	if processor.patternItem.Min == 1 && processor.patternItem.Max == 1 {
+		// If iterating in both directions, self-loops are seen twice
+		processor.edgeItr = edgeIterator{makeUniqueIterator(processor.edgeItr)}
 		for processor.edgeItr.Next() {
 			edge := processor.edgeItr.Edge()
 			path := &Path{path: []PathElement{
-- 
2.43.0


From d695e96087aad5baafcd76bc214ecb9969e24f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 15/26] fix: pattern variables could denote several nodes in
 one match

A step using a variable bound by an earlier step removed the binding when
it backtracked, and variables given as input symbols were not bound, so
later steps with the same variable were free to match other nodes.
---
 pattern.go        | 25 +++++++++++--------------
 planprocessors.go | 20 ++++++++++----------
 2 files changed, 21 insertions(+), 24 deletions(-)

diff --git a/pattern.go b/pattern.go
index af71b02..c6ef2a1 100644
--- a/pattern.go
+++ b/pattern.go
@@ -295,30 +295,27 @@ type MatchContext struct {
 	variablePathNode *Node
 }
 
-// If the current step has a local symbol, it will be recorded in the context
-func (ctx *MatchContext) recordStepResult(step planProcessor) {
+// If the current step is the first one using its symbol, it will be
+// recorded in the context. Returns true if the symbol is recorded
+func (ctx *MatchContext) recordStepResult(step planProcessor) bool {
 	name := step.GetPatternItem().Name
 	if len(name) == 0 {
-		return
+		return false
 	}
-	if _, global := ctx.Symbols[name]; global {
-		return
+	if _, exists := ctx.LocalSymbols[name]; exists {
+		return false
 	}
 	result := &PatternSymbol{}
 	result.Add(step.GetResult())
 	ctx.LocalSymbols[name] = result
+	return true
 }
 
-// resetStepResult will remove the step's local symbol from the context
-func (ctx *MatchContext) resetStepResult(step planProcessor) {
-	name := step.GetPatternItem().Name
-	if len(name) == 0 {
-		return
-	}
-	if _, global := ctx.Symbols[name]; global {
-		return
+// resetStepResult will remove the step's local symbol from the context if the step recorded it
+func (ctx *MatchContext) resetStepResult(step planProcessor, recorded bool) {
+	if recorded {
+		delete(ctx.LocalSymbols, step.GetPatternItem().Name)
 	}
-	delete(ctx.LocalSymbols, name)
 }
 
 func (pattern Pattern) Run(graph *Graph, symbols map[string]*PatternSymbol, result MatchAccumulator) error {
diff --git a/planprocessors.go b/planprocessors.go
index e1f9674..c3a8d96 100644
--- a/planprocessors.go
+++ b/planprocessors.go
@@ -61,12 +61,12 @@ func (processor *iterateNodes) Run(ctx *MatchContext, next matchAccumulator) err
 	}
 	for processor.itr.Next() {
 		processor.result = processor.itr.Node()
-		ctx.recordStepResult(processor)
+		recorded := ctx.recordStepResult(processor)
 		logf("iterateNodes: %+v\n", processor.result)
 		if err := next.Run(ctx); err != nil {
 			return err
 		}
-		ctx.resetStepResult(processor)
+		ctx.resetStepResult(processor, recorded)
 	}
 	return nil
 }
@@ -113,11 +113,11 @@ func (processor *iterateEdges) Run(ctx *MatchContext, next matchAccumulator) err
 			}
 			path := &Path{path: []PathElement{{Edge: edge, Reverse: reverse && !loop}}}
 			processor.result = path
-			ctx.recordStepResult(processor)
+			recorded := ctx.recordStepResult(processor)
 			if err := next.Run(ctx); err != nil {
 				return err
 			}
-			ctx.resetStepResult(processor)
+			ctx.resetStepResult(processor, recorded)
 		}
 	}
 	return nil
@@ -175,12 +175,12 @@ func (processor *iterateConnectedEdges) Run(ctx *MatchContext, next matchAccumul
 				path.path[0].Reverse = true
 			}
 			processor.result = path
-			ctx.recordStepResult(processor)
+			recorded := ctx.recordStepResult(processor)
 			logf("IterateConnectedEdges len=1 %+v\n", processor.result)
 			if err := next.Run(ctx); err != nil {
 				return err
 			}
-			ctx.resetStepResult(processor)
+			ctx.resetStepResult(processor, recorded)
 		}
 		return nil
 	}
@@ -189,13 +189,13 @@ func (processor *iterateConnectedEdges) Run(ctx *MatchContext, next matchAccumul
 	CollectAllPaths(ctx.Graph, node, processor.edgeItr, processor.edgeFilter, processor.dir, processor.patternItem.Min, processor.patternItem.Max, func(path *Path) bool {
 		processor.result = path
 		logf("IterateConnectedEdges testing len=%d %+v\n", len(path.path), processor.result)
-		ctx.recordStepResult(processor)
+		recorded := ctx.recordStepResult(processor)
 		ctx.variablePathNode = path.Last()
 		if err = next.Run(ctx); err != nil {
 			return false
 		}
 		ctx.variablePathNode = nil
-		ctx.resetStepResult(processor)
+		ctx.resetStepResult(processor, recorded)
 		return true
 	})
 
@@ -268,12 +268,12 @@ func (processor *iterateConnectedNodes) Run(ctx *MatchContext, next matchAccumul
 		}
 
 		processor.result = node
-		ctx.recordStepResult(processor)
+		recorded := ctx.recordStepResult(processor)
 		logf("Iterate connected nodes goes deeper\n")
 		if err := next.Run(ctx); err != nil {
 			return err
 		}
-		ctx.resetStepResult(processor)
+		ctx.resetStepResult(processor, recorded)
 	}
 	return nil
 }
-- 
2.43.0


From 04c00817ac527c63fefeb25eb7b51a22757f2f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 16/26] fix: edges given as input symbols did not constrain the
 pattern

---
 pattern.go        | 14 ++++++++++++++
 planprocessors.go | 21 +++++++++++++++------
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/pattern.go b/pattern.go
index c6ef2a1..4572481 100644
--- a/pattern.go
+++ b/pattern.go
@@ -105,11 +105,25 @@ func (p PatternItem) isConstrainedEdges(ctx *MatchContext) (*EdgeSet, error) {
 		if sym.Nodes != nil {
 			return nil, ErrEdgeVariableExpected(p.Name)
 		}
+		if sym.Edges == nil {
+			return NewEdgeSet(), nil
+		}
 		return sym.Edges, nil
 	}
 	return nil, nil
 }
 
+// Returns an edge filter that also selects the edges in the symbols
+func (p PatternItem) getConstrainedEdgeFilter(ctx *MatchContext, filter func(*Edge) bool) (func(*Edge) bool, error) {
+	edges, err := p.isConstrainedEdges(ctx)
+	if err != nil || edges == nil {
+		return filter, err
+	}
+	return func(edge *Edge) bool {
+		return edges.set.has(edge.id) && filter(edge)
+	}, nil
+}
+
 func (p *PatternItem) estimateNodeSize(g *Graph, symbols map[string]*PatternSymbol) (NodeIterator, int) {
 	max := -1
 	var ret NodeIterator
diff --git a/planprocessors.go b/planprocessors.go
index c3a8d96..fbfd5f5 100644
--- a/planprocessors.go
+++ b/planprocessors.go
@@ -82,10 +82,13 @@ type iterateEdges struct {
 	initialized bool
 }
 
-func (processor *iterateEdges) init(ctx *MatchContext) {
+func (processor *iterateEdges) init(ctx *MatchContext) error {
 	if !processor.initialized {
+		filterFunc, err := processor.patternItem.getConstrainedEdgeFilter(ctx, processor.patternItem.getEdgeFilter())
+		if err != nil {
+			return err
+		}
 		processor.initialized = true
-		filterFunc := processor.patternItem.getEdgeFilter()
 		processor.itr = edgeIterator{
 			&filterIterator{
 				itr: processor.itr,
@@ -95,10 +98,13 @@ func (processor *iterateEdges) init(ctx *MatchContext) {
 			},
 		}
 	}
+	return nil
 }
 
 func (processor *iterateEdges) Run(ctx *MatchContext, next matchAccumulator) error {
-	processor.init(ctx)
+	if err := processor.init(ctx); err != nil {
+		return err
+	}
 	for processor.itr.Next() {
 		edge := processor.itr.Edge()
 		loop := edge.GetFrom() == edge.GetTo()
@@ -152,11 +158,15 @@ func (processor *iterateConnectedEdges) init(ctx *MatchContext) {
 
 func (processor *iterateConnectedEdges) Run(ctx *MatchContext, next matchAccumulator) error {
 	node := processor.source.GetResult().(*Node)
+	edgeFilter, err := processor.patternItem.getConstrainedEdgeFilter(ctx, processor.edgeFilter)
+	if err != nil {
+		return err
+	}
 	processor.edgeItr = edgeIterator{
 		&filterIterator{
 			itr: node.GetEdgesWithAnyLabel(processor.dir, processor.patternItem.Labels),
 			filter: func(item interface{}) bool {
-				return processor.edgeFilter(item.(*Edge))
+				return edgeFilter(item.(*Edge))
 			},
 		},
 	}
@@ -185,8 +195,7 @@ func (processor *iterateConnectedEdges) Run(ctx *MatchContext, next matchAccumul
 		return nil
 	}
 	logf("IterateConnectedEdges min=%d max=%d %+v\n", processor.patternItem.Min, processor.patternItem.Max, processor.result)
-	var err error
-	CollectAllPaths(ctx.Graph, node, processor.edgeItr, processor.edgeFilter, processor.dir, processor.patternItem.Min, processor.patternItem.Max, func(path *Path) bool {
+	CollectAllPaths(ctx.Graph, node, processor.edgeItr, edgeFilter, processor.dir, processor.patternItem.Min, processor.patternItem.Max, func(path *Path) bool {
 		processor.result = path
 		logf("IterateConnectedEdges testing len=%d %+v\n", len(path.path), processor.result)
 		recorded := ctx.recordStepResult(processor)
-- 
2.43.0


From e5a9c4c8f525e277f15711e682fe1624f30cba79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 17/26] fix: appending paths lost single nodes, and modified
 the appended path

Appending to an empty path now also rejects disconnected edges, every
path has the empty prefix, and slicing at the last node does not go out
of range.
---
 path.go | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/path.go b/path.go
index e613260..60edc09 100644
--- a/path.go
+++ b/path.go
@@ -15,7 +15,6 @@
 package lpg
 
 import (
-	"fmt"
 	"strings"
 )
 
@@ -117,19 +116,12 @@ func (p *Path) Append(path ...PathElement) *Path {
 	if len(path) == 0 {
 		return p
 	}
-	if p.NumNodes() == 0 {
-		p.path = make([]PathElement, len(path))
-		copy(p.path, path)
-		return p
-	}
 	last := p.Last()
 	if last != nil && last != path[0].GetSourceNode() {
-		fmt.Println(last.GetLabels(), path[0].GetSourceNode().GetLabels())
-		fmt.Println(p.String())
 		panic("Appended edge is disconnected from path")
 	}
-	if p.only != nil {
-		p.only = nil
+	if last == nil {
+		last = path[0].GetSourceNode()
 	}
 	for _, pe := range path {
 		if pe.GetSourceNode() != last {
@@ -137,6 +129,7 @@ func (p *Path) Append(path ...PathElement) *Path {
 		}
 		last = pe.GetTargetNode()
 	}
+	p.only = nil
 	p.path = append(p.path, path...)
 	return p
 }
@@ -146,21 +139,19 @@ func (p *Path) Append(path ...PathElement) *Path {
 func (p *Path) AppendPath(path *Path) *Path {
 	switch p.NumNodes() {
 	case 0:
+		p.only = path.only
 		p.path = make([]PathElement, len(path.path))
 		copy(p.path, path.path)
 		return p
-	case 1:
-		if p.only != nil {
-			p.only = nil
-		}
 	default:
 		switch path.NumNodes() {
 		case 0:
 			return p
 		case 1:
-			if path.only != nil {
-				path.only = nil
+			if path.only != p.Last() {
+				panic("Appended node is disconnected from path")
 			}
+			return p
 		}
 	}
 	return p.Append(path.path...)
@@ -212,9 +203,6 @@ func (p *Path) String() string {
 
 // HasPrefix return if all edges of p1 exist in path
 func (p *Path) HasPrefix(p1 []PathElement) bool {
-	if p.NumNodes() < 2 {
-		return false
-	}
 	if len(p1) == 0 {
 		return true
 	}
@@ -274,14 +262,14 @@ func (p *Path) Slice(startNodeIndex, endNodeIndex int) *Path {
 	if endNodeIndex < startNodeIndex {
 		panic("")
 	}
-	if startNodeIndex == endNodeIndex {
+	if startNodeIndex == p.NumNodes()-1 {
 		return &Path{
-			only: p.path[startNodeIndex].GetSourceNode(),
+			only: p.Last(),
 		}
 	}
-	if startNodeIndex == p.NumNodes()-1 {
+	if startNodeIndex == endNodeIndex {
 		return &Path{
-			only: p.Last(),
+			only: p.path[startNodeIndex].GetSourceNode(),
 		}
 	}
 	pth := make([]PathElement, endNodeIndex-startNodeIndex-1)
-- 
2.43.0


From 0876a9fd405c5c24c5d6056b2bfbb8126d14b3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 18/26] fix: removing the ends of a path removed the edges from
 the graph

A path with one edge becomes a single node as documented, and popping
from the path of a cursor moves the cursor back.
---
 cursor.go |  3 +++
 path.go   | 15 +++++++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/cursor.go b/cursor.go
index 7517574..13f727e 100644
--- a/cursor.go
+++ b/cursor.go
@@ -52,6 +52,9 @@ func (c *Cursor) GetPath() *Path {
 // PopFromPath removes the last edge from the path. This also moves the cursor to the previous node
 func (c *Cursor) PopFromPath() *Cursor {
 	c.path.RemoveLast()
+	if last := c.path.Last(); last != nil {
+		c.node = last
+	}
 	return c
 }
 
diff --git a/path.go b/path.go
index 60edc09..a81168f 100644
--- a/path.go
+++ b/path.go
@@ -286,22 +286,29 @@ func (p *Path) RemoveLast() *Path {
 		return p
 	}
 	if len(p.path) > 0 {
-		p.path[len(p.path)-1].Edge.Remove()
+		source := p.path[len(p.path)-1].GetSourceNode()
 		p.path = p.path[:len(p.path)-1]
+		if len(p.path) == 0 {
+			p.only = source
+		}
 	}
 	return p
 }
 
-// RemoveFirst removes the first edge from the graph. If the path has
-// only a node, path becomes empty
+// RemoveFirst removes the first edge from the path. If the path has
+// one edge, the path becomes a single node containing the target. If
+// the path has only a node, path becomes empty
 func (p *Path) RemoveFirst() *Path {
 	if p.only != nil {
 		p.only = nil
 		return p
 	}
 	if len(p.path) > 0 {
-		p.path[0].Edge.Remove()
+		target := p.path[0].GetTargetNode()
 		p.path = p.path[1:]
+		if len(p.path) == 0 {
+			p.only = target
+		}
 	}
 	return p
 }
-- 
2.43.0


From b20febb5364b9379276fcfdb4d70e4539858c327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 19/26] fix: paths built from the same elements shared them

Shortening one and appending to it changed the elements of the others.
---
 path.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/path.go b/path.go
index a81168f..9c791cb 100644
--- a/path.go
+++ b/path.go
@@ -30,7 +30,9 @@ type PathElement struct {
 }
 
 func NewPathFromElements(elements ...PathElement) *Path {
-	return &Path{path: elements}
+	ret := &Path{path: make([]PathElement, len(elements))}
+	copy(ret.path, elements)
+	return ret
 }
 
 func NewPathElementsFromEdges(edges []*Edge) []PathElement {
-- 
2.43.0


From 5524903b3552e1626285e6299a6da5bc18a8020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:23 +0000
Subject: [PATCH 20/26] fix: encode an empty graph with separate edges as valid
 JSON

---
 json.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/json.go b/json.go
index 2b7b248..8b351d7 100644
--- a/json.go
+++ b/json.go
@@ -350,8 +350,10 @@ func (j JSON) Encode(g *Graph, out io.Writer) error {
 	}
 
 	if j.MarshalEdgesSeparately {
-		if _, err := out.Write(comma); err != nil {
-			return err
+		if len(nodeMap) > 0 {
+			if _, err := out.Write(comma); err != nil {
+				return err
+			}
 		}
 		if _, err := out.Write(edgesKey); err != nil {
 			return err
-- 
2.43.0


From 591700617169f77c3f1dee3b013692de01266875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:25 +0000
Subject: [PATCH 21/26] fix: report property values that cannot be encoded as
 JSON

---
 json.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/json.go b/json.go
index 8b351d7..d786300 100644
--- a/json.go
+++ b/json.go
@@ -180,7 +180,10 @@ func (j JSON) Encode(g *Graph, out io.Writer) error {
 		ret := make(map[string]json.RawMessage)
 		for k, v := range in {
 			if j.PropertyMarshaler == nil {
-				d, _ := json.Marshal(v)
+				d, err := json.Marshal(v)
+				if err != nil {
+					return nil, err
+				}
 				ret[k] = d
 			} else {
 				k, d, err := j.PropertyMarshaler(k, v)
-- 
2.43.0


From d4165660f5ef0ab1392f77511733fffd3e00bd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:26 +0000
Subject: [PATCH 22/26] fix: keep properties with an empty key when decoding
 JSON

---
 json.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json.go b/json.go
index d786300..f1e3e55 100644
--- a/json.go
+++ b/json.go
@@ -411,7 +411,8 @@ func (j JSON) unmarshalProperties(input map[string]json.RawMessage) (map[string]
 		if err != nil {
 			return nil, err
 		}
-		if len(k) > 0 {
+		// Only a property unmarshaler can ask to skip a property
+		if len(k) > 0 || j.PropertyUnmarshaler == nil {
 			k = j.Interner.Intern(k)
 			ret[k] = v
 		}
-- 
2.43.0


From 8de49cdb38229376f07dc12454b8e3560c9f875d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:45 +0000
Subject: [PATCH 23/26] fix: skip unknown keys with any value when decoding
 JSON

---
 json.go | 88 ++++++++++++++++++++++++++-------------------------------
 1 file changed, 40 insertions(+), 48 deletions(-)

diff --git a/json.go b/json.go
index f1e3e55..f3554a0 100644
--- a/json.go
+++ b/json.go
@@ -469,7 +469,6 @@ func (j JSON) Decode(g *Graph, input *json.Decoder) error {
 	if tok != json.Delim('{') {
 		return &json.SyntaxError{Offset: input.InputOffset()}
 	}
-	depth := 0
 	nodeMap := make(map[int]*Node)
 	edgeQueue := make([]jsonEdge, 0)
 	for {
@@ -477,62 +476,55 @@ func (j JSON) Decode(g *Graph, input *json.Decoder) error {
 		if err != nil {
 			return err
 		}
-		if depth == 0 {
-			if s, ok := tok.(string); ok {
-				if s == "nodes" {
-					var nodes []jsonNode
-					if err := input.Decode(&nodes); err != nil {
+		if s, ok := tok.(string); ok {
+			if s == "nodes" {
+				var nodes []jsonNode
+				if err := input.Decode(&nodes); err != nil {
+					return err
+				}
+				for _, node := range nodes {
+					if edgeQueue, err = j.addNode(g, node, nodeMap, edgeQueue); err != nil {
 						return err
 					}
-					for _, node := range nodes {
-						if edgeQueue, err = j.addNode(g, node, nodeMap, edgeQueue); err != nil {
+				}
+			} else if s == "edges" {
+				var edges []jsonEdge
+				if err := input.Decode(&edges); err != nil {
+					return err
+				}
+				for _, edge := range edges {
+					from, fromExists := nodeMap[edge.From]
+					to, toExists := nodeMap[edge.To]
+					if fromExists && toExists {
+						if err := j.addEdge(g, from, to, edge.Label, edge.Properties); err != nil {
 							return err
 						}
+					} else {
+						edgeQueue = append(edgeQueue, edge)
 					}
-				} else if s == "edges" {
-					var edges []jsonEdge
-					if err := input.Decode(&edges); err != nil {
-						return err
-					}
-					for _, edge := range edges {
-						from, fromExists := nodeMap[edge.From]
-						to, toExists := nodeMap[edge.To]
-						if fromExists && toExists {
-							if err := j.addEdge(g, from, to, edge.Label, edge.Properties); err != nil {
-								return err
-							}
-						} else {
-							edgeQueue = append(edgeQueue, edge)
-						}
-					}
-				} else {
-					depth = 1
 				}
-			} else if tok == json.Delim('}') {
-				for _, edge := range edgeQueue {
-					from, ok := nodeMap[edge.From]
-					if !ok {
-						return ErrInvalidGraph{Msg: fmt.Sprintf("Invalid edge.from: %d", edge.From)}
-					}
-					to, ok := nodeMap[edge.To]
-					if !ok {
-						return ErrInvalidGraph{Msg: fmt.Sprintf("Invalid edge.to: %d", edge.To)}
-					}
-					if err := j.addEdge(g, from, to, edge.Label, edge.Properties); err != nil {
-						return err
-					}
+			} else {
+				// Skip the value of an unknown key
+				var skip json.RawMessage
+				if err := input.Decode(&skip); err != nil {
+					return err
 				}
-				return nil
 			}
-		} else {
-			switch tok {
-			case json.Delim('{'), json.Delim('['):
-				depth++
-			case json.Delim('}'), json.Delim(']'):
-				depth--
-			default:
-				depth--
+		} else if tok == json.Delim('}') {
+			for _, edge := range edgeQueue {
+				from, ok := nodeMap[edge.From]
+				if !ok {
+					return ErrInvalidGraph{Msg: fmt.Sprintf("Invalid edge.from: %d", edge.From)}
+				}
+				to, ok := nodeMap[edge.To]
+				if !ok {
+					return ErrInvalidGraph{Msg: fmt.Sprintf("Invalid edge.to: %d", edge.To)}
+				}
+				if err := j.addEdge(g, from, to, edge.Label, edge.Properties); err != nil {
+					return err
+				}
 			}
+			return nil
 		}
 	}
 }
-- 
2.43.0


From 5a81b3d486f775c5fbd173376978cdf938b7b43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:47 +0000
Subject: [PATCH 24/26] fix: escape quotes and backslashes in DOT edge labels

---
 dotrenderer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dotrenderer.go b/dotrenderer.go
index 2a0a9fb..ff96742 100644
--- a/dotrenderer.go
+++ b/dotrenderer.go
@@ -17,6 +17,7 @@ package lpg
 import (
 	"fmt"
 	"io"
+	"strings"
 )
 
 // DOTRenderer renders a graph in Graphviz dot format
@@ -57,6 +58,7 @@ func DefaultDOTNodeRender(ID string, node *Node, w io.Writer) error {
 func DefaultDOTEdgeRender(fromNode, toNode string, edge *Edge, w io.Writer) error {
 	lbl := edge.GetLabel()
 	if len(lbl) != 0 {
+		lbl = strings.ReplaceAll(strings.ReplaceAll(lbl, "\\", "\\\\"), "\"", "\\\"")
 		if _, err := fmt.Fprintf(w, "  %s -> %s [label=\"%s\"];\n", fromNode, toNode, lbl); err != nil {
 			return err
 		}
-- 
2.43.0


From d79965b36b4a9834a53e3554a0e836c223d2ef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:19 +0000
Subject: [PATCH 25/26] fix: node and edge sets and node maps mixed up members
 of different graphs that have the same id

---
 maps.go    | 16 ++++++++--------
 pattern.go |  2 +-
 sets.go    | 24 ++++++++++++------------
 3 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/maps.go b/maps.go
index 14ce2a5..e26e4e2 100644
--- a/maps.go
+++ b/maps.go
@@ -38,10 +38,10 @@ func (nm *NodeMap) Replace(node *Node, oldLabels, newLabels StringSet) {
 		if newLabels.Len() == 0 {
 			return
 		}
-		nm.nolabels.remove(node.id)
+		nm.nolabels.remove(node)
 	}
 	if newLabels.Len() == 0 {
-		nm.nolabels.add(node.id, node)
+		nm.nolabels.add(node, node)
 	}
 	var set *fastSet
 	// Process removed labels
@@ -52,7 +52,7 @@ func (nm *NodeMap) Replace(node *Node, oldLabels, newLabels StringSet) {
 				continue
 			}
 			set = v.(*fastSet)
-			set.remove(node.id)
+			set.remove(node)
 			if set.size() == 0 {
 				nm.m.Remove(label)
 			}
@@ -68,14 +68,14 @@ func (nm *NodeMap) Replace(node *Node, oldLabels, newLabels StringSet) {
 			} else {
 				set = v.(*fastSet)
 			}
-			set.add(node.id, node)
+			set.add(node, node)
 		}
 	}
 }
 
 func (nm *NodeMap) Add(node *Node) {
 	if node.labels.Len() == 0 {
-		nm.nolabels.add(node.id, node)
+		nm.nolabels.add(node, node)
 		return
 	}
 
@@ -88,13 +88,13 @@ func (nm *NodeMap) Add(node *Node) {
 		} else {
 			set = v.(*fastSet)
 		}
-		set.add(node.id, node)
+		set.add(node, node)
 	}
 }
 
 func (nm NodeMap) Remove(node *Node) {
 	if node.labels.Len() == 0 {
-		nm.nolabels.remove(node.id)
+		nm.nolabels.remove(node)
 		return
 	}
 	var set *fastSet
@@ -104,7 +104,7 @@ func (nm NodeMap) Remove(node *Node) {
 			continue
 		}
 		set = v.(*fastSet)
-		set.remove(node.id)
+		set.remove(node)
 		if set.size() == 0 {
 			nm.m.Remove(label)
 		}
diff --git a/pattern.go b/pattern.go
index 4572481..900e9fe 100644
--- a/pattern.go
+++ b/pattern.go
@@ -120,7 +120,7 @@ func (p PatternItem) getConstrainedEdgeFilter(ctx *MatchContext, filter func(*Ed
 		return filter, err
 	}
 	return func(edge *Edge) bool {
-		return edges.set.has(edge.id) && filter(edge)
+		return edges.set.has(edge) && filter(edge)
 	}, nil
 }
 
diff --git a/sets.go b/sets.go
index 21d2c93..fa672a8 100644
--- a/sets.go
+++ b/sets.go
@@ -21,26 +21,26 @@ import (
 // A fastSet is a set of objects with constant-time
 // insertion/deletion, with iterator support
 type fastSet struct {
-	m map[int]*list.Element
+	m map[interface{}]*list.Element
 	l *list.List
 }
 
 func newFastSet() *fastSet {
 	return &fastSet{
-		m: make(map[int]*list.Element),
+		m: make(map[interface{}]*list.Element),
 		l: list.New(),
 	}
 }
 
 func (f *fastSet) init() {
-	f.m = make(map[int]*list.Element)
+	f.m = make(map[interface{}]*list.Element)
 	f.l = list.New()
 }
 
 func (f fastSet) size() int { return len(f.m) }
 
 // Add a new item. Returns true if added
-func (f *fastSet) add(id int, item interface{}) bool {
+func (f *fastSet) add(id, item interface{}) bool {
 	_, exists := f.m[id]
 	if exists {
 		return false
@@ -50,7 +50,7 @@ func (f *fastSet) add(id int, item interface{}) bool {
 	return true
 }
 
-func (f *fastSet) get(id int) (interface{}, bool) {
+func (f *fastSet) get(id interface{}) (interface{}, bool) {
 	el, ok := f.m[id]
 	if !ok {
 		return nil, false
@@ -59,7 +59,7 @@ func (f *fastSet) get(id int) (interface{}, bool) {
 }
 
 // Remove an item. Returns true if removed
-func (f *fastSet) remove(id int) bool {
+func (f *fastSet) remove(id interface{}) bool {
 	el := f.m[id]
 	if el == nil {
 		return false
@@ -69,7 +69,7 @@ func (f *fastSet) remove(id int) bool {
 	return true
 }
 
-func (f fastSet) has(id int) bool {
+func (f fastSet) has(id interface{}) bool {
 	_, exists := f.m[id]
 	return exists
 }
@@ -89,15 +89,15 @@ func NewNodeSet() *NodeSet {
 }
 
 func (set *NodeSet) Add(node *Node) {
-	set.set.add(node.id, node)
+	set.set.add(node, node)
 }
 
 func (set NodeSet) Remove(node *Node) {
-	set.set.remove(node.id)
+	set.set.remove(node)
 }
 
 func (set NodeSet) Has(node *Node) bool {
-	return set.set.has(node.id)
+	return set.set.has(node)
 }
 
 func (set NodeSet) Len() int {
@@ -125,11 +125,11 @@ func NewEdgeSet() *EdgeSet {
 }
 
 func (set *EdgeSet) Add(edge *Edge) {
-	set.set.add(edge.id, edge)
+	set.set.add(edge, edge)
 }
 
 func (set EdgeSet) Remove(edge *Edge) {
-	set.set.remove(edge.id)
+	set.set.remove(edge)
 }
 
 func (set EdgeSet) Len() int {
-- 
2.43.0


From 3595608d64ff12ee4dbb874de18a4051a8a7f633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:33 +0000
Subject: [PATCH 26/26] fix: paths reported by pattern matches were shared
 between results

The path of a named pattern edge, and the path of a pattern made of one
edge, were the ones the match goes on with, so changing the path of one
result changed other results. Results get copies.
---
 pattern.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pattern.go b/pattern.go
index 900e9fe..d0b2761 100644
--- a/pattern.go
+++ b/pattern.go
@@ -548,7 +548,7 @@ func (n *resultAccumulator) Run(ctx *MatchContext) error {
 func (plan MatchPlan) GetCurrentPath() *Path {
 	if len(plan.steps) == 1 {
 		if path, ok := plan.steps[0].GetResult().(*Path); ok {
-			return path
+			return path.Clone()
 		}
 		return &Path{only: plan.steps[0].GetResult().(*Node)}
 	}
@@ -571,14 +571,17 @@ func (plan MatchPlan) GetCurrentPath() *Path {
 }
 
 // getStepResult returns the result of the step as it appears in the
-// pattern. The paths of the steps going backwards are found starting
+// pattern. A path is a copy, for the step goes on using its own. The paths of the steps going backwards are found starting
 // from the node on their right, so they are reversed.
 func (plan MatchPlan) getStepResult(step int) interface{} {
 	result := plan.steps[step].GetResult()
 	path, ok := result.(*Path)
-	if !ok || step <= plan.nForward {
+	if !ok {
 		return result
 	}
+	if step <= plan.nForward {
+		return path.Clone()
+	}
 	ret := &Path{path: make([]PathElement, 0, len(path.path))}
 	for i := len(path.path) - 1; i >= 0; i-- {
 		pe := path.path[i]
-- 
2.43.0

