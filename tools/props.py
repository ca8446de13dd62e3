NOTE = ("Exhaustive within the stated bounds (sizes, number of calls, string lengths, see the harness directives and the evidence file) "
        "unless the evidence says exhaustive:false; counterexamples are replayed on the compiled code before they are reported. "
        "Trusted: the Go SSA builder, the engine's model of the language and of fmt/strings/strconv/sort/encoding/json, and z3; "
        "sampled paths are cross-checked against the compiled code on every run.")

prop("C01", "Node enumeration and node count follow every history",
 "After any sequence of creating, relabeling, detaching and removing nodes and of adding edges, enumerating the graph's nodes yields exactly the nodes that were created and not removed, each exactly once, and the node count equals that number. Removing nodes in any position and in any order, followed by further creations, never loses, repeats or resurrects a node.",
 ["histories"], "every sequence of node/edge creations, removals, detaches and relabelings",
 "the existing tests build one or two fixed graphs and only ever remove in one order; the order of removals and re-creations is unbounded",
 ["graph.go", "list.go"], [("doubly linked node list", "list.go nodeList.add/remove"), ("node removal", "graph.go detachRemoveNode")],
 observe=["Graph.GetNodes", "Graph.NumNodes", "ForEachNode"])

prop("C02", "Label lookup returns exactly the nodes carrying the labels",
 "At any point of any history of node creations, label changes and removals, looking up nodes by a set of labels yields exactly the live nodes that currently carry every label in the set, each once; with an empty set it yields all live nodes. A node's reported labels are the ones last assigned to it.",
 ["histories", "inputs"], "every history of creations, SetLabels (including to and from the empty set) and removals, every label set queried",
 "tests query a handful of fixed labels on graphs that are never relabeled; the label index is updated by differences, so its correctness depends on the history",
 ["graph.go", "maps.go", "node.go"], [("label index", "maps.go NodeMap.Add/Replace/Remove/IteratorAllLabels"), ("label assignment", "graph.go setNodeLabels")],
 observe=["Graph.GetNodesWithAllLabels", "Node.GetLabels", "Node.HasLabel"])

prop("C03", "Edge enumeration, count and by-label lookup follow every history",
 "After any sequence of edge creations, edge relabelings, edge removals, node detaches and node removals, enumerating the graph's edges yields exactly the edges not removed, each once; the edge count equals that number; and looking up edges by a set of labels yields exactly the live edges whose current label is in the set, each once.",
 ["histories", "inputs"], "every history of edge and node mutations, every label set queried",
 "the edge store switches representation between zero, one and many edges and buckets by label; tests never relabel or remove across these transitions",
 ["graph.go", "edgemap.go", "list.go"], [("edge store with 0/1/many representations", "edgemap.go"), ("edge relabeling", "graph.go setEdgeLabel"), ("edge removal", "graph.go removeEdge")],
 observe=["Graph.GetEdges", "Graph.NumEdges", "Graph.GetEdgesWithAnyLabel"])

prop("C04", "Adjacency of every node is exact in each direction and per label",
 "At any point of any history of edge creations, relabelings, removals and node detaches/removals, a node's outgoing, incoming and both-direction edges are exactly the live edges leaving it, entering it, or either; asking for edges with one label or with any of a set of labels restricts this to the edges whose current label qualifies. Each edge appears once per direction in which it is incident.",
 ["histories", "inputs"], "every history of edge mutations including parallel edges and self-loops, each direction, each label or label set",
 "tests enumerate fixed directions on graphs that are only grown; removal and relabeling of adjacent edges, self-loops and parallel edges are not exercised",
 ["node.go", "edgemap.go", "list.go", "graph.go"], [("per-node incoming/outgoing stores", "graph.go connect/disconnect"), ("direction and label iterators", "node.go GetEdges*, edgemap.go iterator*")],
 observe=["Node.GetEdges", "Node.GetEdgesWithLabel", "Node.GetEdgesWithAnyLabel"])

prop("C05", "Removing or detaching affects exactly what it names",
 "Detaching a node removes exactly the edges incident to it (self-loops and parallel edges included) and keeps the node; removing a node does the same and also removes the node; removing an edge removes only that edge. All other nodes, edges, labels, properties, adjacency and index contents are unchanged, and the endpoints of the surviving edges are the ones they were created with.",
 ["histories", "inputs"], "every graph with self-loops and parallel edges, every removal",
 "tests remove once from one fixed graph and check one count",
 ["graph.go", "edgemap.go"], [("detachNode/detachRemoveNode/removeEdge", "graph.go")],
 observe=["Node.Detach", "Node.DetachAndRemove", "Edge.Remove"])

prop("C06", "A node property index gives the same answers as no index",
 "For any history of node creations, property assignments and removals and node removals, adding an index (B-tree or hash) on a node property, at any point of the history, changes no result: finding nodes by property value and finding nodes that have the property return exactly what the unindexed graph returns. Supported values are integers, strings, lists of them and values with a native value.",
 ["histories", "inputs", "configurations"], "every history of property mutations, both index kinds, every moment of index creation, every value",
 "tests add one index to one static graph of distinct strings; overwriting, removing and re-adding values under an index is not tested",
 ["indexes.go", "hashindex.go", "btreeindex.go", "graph.go", "sets.go"], [("index maintenance", "graph.go setNodeProperty/removeNodeProperty, indexes.go addNodeToIndex/removeNodeFromIndex"), ("hash and B-tree indexes", "hashindex.go, btreeindex.go")],
 observe=["Graph.AddNodePropertyIndex", "Graph.FindNodes", "Graph.GetNodesWithProperty"])

prop("C07", "An edge property index gives the same answers as no index",
 "For any history of edge creations, property assignments and removals, edge relabelings, edge removals and node removals, adding an index (B-tree or hash) on an edge property at any point changes no result: finding edges by property value and finding edges that have the property return exactly what the unindexed graph returns.",
 ["histories", "inputs", "configurations"], "every history of edge mutations, both index kinds, every moment of index creation, every value",
 "no existing test indexes edges and then removes or changes them",
 ["indexes.go", "hashindex.go", "btreeindex.go", "graph.go"], [("index maintenance", "graph.go setEdgeProperty/removeEdgeProperty/removeEdge/detachNode, indexes.go")],
 observe=["Graph.AddEdgePropertyIndex", "Graph.FindEdges", "Graph.GetEdgesWithProperty"])

prop("C08", "Finding nodes by labels and properties is exact",
 "Finding nodes with a set of labels and a set of property values yields exactly the live nodes carrying all the labels and, for each listed property, a value that compares equal to the requested one; empty labels or properties impose no constraint. The answer does not depend on which indexes exist or which of them the search chooses to scan.",
 ["inputs", "configurations"], "every graph, label set, property set and index configuration",
 "tests use a label together with one indexed property only; the choice of the scanned index depends on data",
 ["graph.go", "indexes.go"], [("smallest-iterator selection and filter", "graph.go FindNodes, GetNodeFilterFunc")],
 observe=["Graph.FindNodes"])

prop("C09", "Finding edges by labels and properties is exact",
 "Finding edges with a set of labels and a set of property values yields exactly the live edges whose label is in the set and whose listed properties compare equal to the requested values; empty labels or properties impose no constraint. The answer does not depend on which indexes exist or which of them the search chooses to scan.",
 ["inputs", "configurations"], "every graph, label set, property set and index configuration",
 "no existing test finds edges by properties",
 ["graph.go", "indexes.go", "edgemap.go"], [("smallest-iterator selection and filter", "graph.go FindEdges, GetEdgeFilterFunc")],
 observe=["Graph.FindEdges"])

prop("C10", "Property comparison is a total order on comparable values",
 "Comparing property values orders integers numerically, strings lexicographically, and lists lexicographically element by element with shorter-prefix-first; it is antisymmetric, transitive and returns zero exactly for equal values, also across string/int lists and generic lists holding the same elements. Values that expose a native value compare as that value, and comparing values of different kinds (a string with an integer, a list with a scalar) panics instead of answering.",
 ["inputs"], "all pairs and triples of supported values",
 "the existing tests compare no values directly; an order law quantifies over all triples",
 ["properties.go"], [("type-switch comparison", "properties.go ComparePropertyValue")],
 observe=["ComparePropertyValue"])

prop("C11", "Directed fixed-length patterns match exactly the matching walks",
 "For a pattern of nodes joined by single directed edges (either arrow direction), running it yields exactly the sequences of nodes and edges of the graph that satisfy every label, property and direction constraint, each once, including through self-loops and parallel edges. Reported paths start at the first pattern node and end at the last one, and indexes or the relative rarity of labels do not change the result.",
 ["inputs", "configurations"], "every graph, every pattern of the class, every index configuration",
 "the plan starts from whichever element looks rarest, so each graph exercises one plan; tests fix few graphs and mostly count results",
 ["pattern.go", "planprocessors.go", "path.go"], [("plan construction from the cheapest element", "pattern.go GetPlan/getFastestElement"), ("plan steps", "planprocessors.go"), ("path assembly", "pattern.go GetCurrentPath")],
 observe=["Pattern.FindPaths", "Pattern.FindNodes", "Pattern.Run"])

prop("C12", "Undirected pattern edges match both orientations exactly once",
 "A pattern edge without direction matches a graph edge in either orientation, so a pattern containing such edges yields exactly the walks that traverse each of those edges forwards or backwards, each walk once (a self-loop has one orientation); the result does not depend on where the search starts.",
 ["inputs", "configurations"], "every graph, every pattern mixing directed and undirected edges",
 "existing tests contain no undirected pattern that starts at an edge or runs backwards",
 ["pattern.go", "planprocessors.go", "node.go"], [("both-direction iteration", "planprocessors.go iterateConnectedEdges/iterateConnectedNodes"), ("plan construction", "pattern.go GetPlan")],
 observe=["Pattern.FindPaths"])

prop("C13", "Variable-length pattern edges match exactly the bounded trails",
 "A pattern edge with length bounds matches exactly the walks of the graph that repeat no edge, follow the edge's direction and label/property constraints at every hop, and have a length within the bounds (a bound of -1 is unlimited); the nodes and edges around it are matched at the ends of that walk. The full walk is part of the reported path whichever end of the pattern the search starts from.",
 ["inputs", "configurations"], "every graph with cycles, every length bound, every plan",
 "tests cover a few graphs with the plan starting on the left; backward variable-length matching loses hops",
 ["pattern.go", "planprocessors.go", "vpathitr.go"], [("trail enumeration", "vpathitr.go CollectAllPaths"), ("path assembly", "pattern.go GetCurrentPath")],
 observe=["Pattern.FindPaths"])

prop("C14", "Collecting all paths enumerates exactly the trails within bounds",
 "Collecting paths from a node yields, each once, exactly the trails (no edge used twice) whose first edge is among the given first edges, whose further edges satisfy the filter and lie in the requested direction, and whose length lies within the bounds, -1 meaning no bound. Every reported path is connected and starts at the given node, and collection stops as soon as the receiver declines. The paths belong to the receiver, which may change them.",
 ["inputs"], "every graph with cycles, self-loops and parallel edges, each direction, every pair of bounds",
 "tests count the paths of two fixed graphs",
 ["vpathitr.go", "path.go"], [("recursive enumeration with edge-repetition check", "vpathitr.go CollectAllPaths")],
 observe=["CollectAllPaths"])

prop("C15", "Pattern variables bind consistently and honour given symbols",
 "Within one match, every occurrence of the same variable name denotes the same node; a name given as an input symbol restricts the matches to the given nodes or edges; and each result reports, for every named element, the node or path it was matched to in that result. A symbol of the wrong kind never produces a match violating the constraint, and running a pattern changes no given symbol. The paths of a result belong to the receiver: changing them changes no other result.",
 ["inputs"], "every graph, every assignment of names to pattern elements, every symbol set",
 "tests use one repeated variable in one loop pattern",
 ["pattern.go", "planprocessors.go"], [("local symbol recording", "pattern.go recordStepResult/resetStepResult"), ("constraints", "pattern.go isConstrainedNodes/isConstrainedEdges")],
 observe=["Pattern.FindPaths", "DefaultMatchAccumulator.Symbols"])

prop("C16", "Path operations compose like node-edge sequences",
 "A path behaves as an alternating sequence of nodes and connected edges: node and edge counts, first, last, n-th node, n-th edge, prefix tests, slicing, appending edges or paths, and cloning give the corresponding results on the sequence, including empty and single-node paths and reversed edges. Appending a disconnected edge panics, and clones and appended arguments are never altered by later operations.",
 ["inputs", "histories"], "every path of a graph, every sequence of path operations",
 "tests check a few literal paths",
 ["path.go"], [("path representation only-node / element list", "path.go")],
 observe=["Path"])

prop("C17", "Shortening a path or moving a cursor never changes the graph",
 "Removing the last or first step of a path drops exactly that step, leaving a single node when one edge remained and an empty path when one node remained; pushing to and popping from a cursor's path extends and shortens it and moves the cursor to the path's end. None of these changes the graph.",
 ["inputs", "histories"], "every path and every sequence of push/pop/remove operations",
 "no existing test removes from a path or uses a cursor path",
 ["path.go", "cursor.go"], [("RemoveLast/RemoveFirst", "path.go"), ("PushToPath/PopFromPath", "cursor.go")],
 observe=["Path.RemoveLast", "Path.RemoveFirst", "Cursor"])

prop("C18", "Encoding a graph to JSON and decoding it restores the graph",
 "For every graph whose property values are JSON-representable, encoding produces one valid JSON document and decoding it yields a graph with the same nodes, labels, properties, edges, edge labels, edge properties and connectivity, in both edge layouts and with any property marshaler. Strings with quotes, backslashes and control characters survive. A failing write, a value that JSON cannot represent and an error of a property marshaler or unmarshaler are reported.",
 ["inputs", "configurations"], "every graph, both layouts, custom property marshalers",
 "one fixed graph is round-tripped in the tests",
 ["json.go", "stringset.go"], [("encoder", "json.go Encode"), ("decoder", "json.go Decode/addNode/addEdge")],
 observe=["JSON.Encode", "JSON.Decode"])

prop("C19", "Decoding accepts exactly well-formed graph documents",
 "Decoding a JSON document in which nodes and edges may appear in any order and in either layout builds exactly the described nodes and edges, ignoring unknown keys whatever their value; a document that refers to a node index that does not exist, is not an object, or is truncated yields an error. Decoding never panics.",
 ["inputs"], "every document over the format's vocabulary",
 "the tests decode one well-formed document",
 ["json.go"], [("token loop and deferred edges", "json.go Decode")],
 observe=["JSON.Decode"])

prop("C20", "Copying a graph yields an equal, independent graph",
 "Copying a graph into another creates one new node per source node and one new edge per source edge with the same labels, endpoints (through the returned node map) and properties as transformed by the given function, leaving the source unchanged. Later changes to either graph do not affect the other, and a node the copier declines is skipped together with its edges.",
 ["inputs", "histories"], "every graph, every later mutation",
 "one graph is copied in the tests and only compared by isomorphism",
 ["clone.go", "graph.go"], [("CopyGraph/CopyGraphf", "clone.go"), ("cloneNode/cloneEdge", "graph.go")],
 observe=["CopyGraph", "CopyGraphf", "CopyNode", "CopyEdge", "CloneEdge"])

prop("C21", "Copying a subgraph copies exactly what is reachable",
 "Copying the subgraph of a node into a graph creates exactly one copy of every node reachable from it along outgoing edges and one copy of every edge leaving those nodes, with the same labels and properties, also in the presence of cycles, self-loops and parallel edges, and when the copy is made in the same graph. The node map lists exactly the copied nodes and the source is unchanged.",
 ["inputs"], "every graph with cycles, every start node",
 "tests never copy a subgraph of a cyclic graph",
 ["clone.go"], [("recursive copy with node map", "clone.go CopySubgraph")],
 observe=["CopySubgraph"])

prop("C22", "Isomorphism checking is sound and complete",
 "The isomorphism check answers true exactly when there is a one-to-one correspondence between the nodes of the two graphs that respects the given node equivalence and under which the edges correspond one-to-one, preserving endpoints, direction and the given edge equivalence. If the context is cancelled while a correspondence has to be searched for, the check returns the context's error rather than an answer.",
 ["inputs"], "all pairs of small graphs and equivalence functions",
 "tests use it only to compare equal graphs, so wrong positives are never observed",
 ["alg.go"], [("candidate enumeration", "alg.go CheckIsomorphism")],
 observe=["CheckIsomorphism"])

prop("C23", "String sets have value semantics and obey set algebra",
 "String sets behave as mathematical sets: adding, adding a set, removing, membership, any/all tests, equality, size, slices and JSON conversion agree with the set of strings held. Changing a set never changes another set it was cloned from or that was cloned from it, including the labels of nodes.",
 ["inputs", "histories"], "every sequence of set operations over arbitrary strings",
 "no test of the set type exists; sharing depends on the sequence of operations",
 ["stringset.go", "node.go"], [("copy-on-write map", "stringset.go Add/AddSet/Remove/Clone")],
 observe=["StringSet"])

prop("C24", "Reads return the last write, and identifiers are unique",
 "For every history of property assignments and removals on nodes and edges, reading a property returns the last value assigned and not removed (and existence accordingly), iterating properties visits each exactly once, and label reads return the last assignment. Every node and edge of a graph has an identifier different from all other nodes and edges created in it.",
 ["histories"], "every history of creations and property writes",
 "tests set properties at creation only",
 ["graph.go", "node.go", "edge.go", "properties.go"], [("property map", "properties.go, graph.go set*/remove*Property"), ("id assignment", "graph.go idBase")],
 observe=["Node.GetProperty", "Edge.GetProperty", "GetID"])

prop("C25", "Graphs are isolated from their inputs and from each other",
 "The maps and slices given when creating nodes and edges are copied, so later changes to them do not affect the graph, and label sets returned by the graph can be modified through their methods without affecting it. Creating an edge with a node of another graph panics and leaves both graphs unchanged.",
 ["inputs", "histories"], "all inputs and later modifications",
 "tests never modify an input after handing it over",
 ["graph.go", "node.go"], [("copying constructors", "graph.go NewNode/NewEdge"), ("graph ownership check", "graph.go FastNewEdge")],
 observe=["Graph.NewNode", "Graph.NewEdge", "Node.GetLabels"])

prop("C26", "Sources, sinks, neighbours and cursors reflect the edges",
 "Sources and sinks are exactly the nodes without incoming and without outgoing edges; the edges between two nodes are exactly those from the first to the second; next and previous nodes (optionally by label) are exactly the distinct targets and sources of the corresponding edges. A cursor's edge and node iterators give the same edges and the distinct opposite end points in each direction, and nothing when the cursor has no node.",
 ["inputs"], "every graph including self-loops and parallel edges, each direction and label",
 "no test checks these helpers on graphs with cycles",
 ["alg.go", "node.go", "cursor.go", "itr.go"], [("filters over adjacency", "alg.go, itr.go"), ("cursor navigation", "cursor.go")],
 observe=["Sources", "Sinks", "EdgesBetweenNodes", "NextNodesWith", "PrevNodesWith", "Cursor"])

prop("C27", "An iterator's size estimate is an upper bound or unknown",
 "The maximum size reported by any node or edge iterator of the graph before iteration is either -1 (unknown) or at least the number of items it then yields. Every iterator terminates and, once exhausted, stays exhausted.",
 ["inputs", "histories"], "every graph, every iterator of the public interface, every index configuration",
 "estimates steer plan choice and are never checked by tests",
 ["itr.go", "edgemap.go", "node.go", "graph.go", "maps.go", "sets.go"], [("MaxSize implementations", "itr.go, list.go, edgemap.go, node.go")],
 observe=["Iterator.MaxSize"])

prop("C28", "Node and edge sets hold exactly what was added and not removed",
 "After any sequence of additions and removals, a node set or edge set contains exactly the members added and not since removed: size, membership, iteration and slices agree, each member appears once, and adding twice or removing an absent member has no effect.",
 ["histories"], "every sequence of add/remove over a graph's nodes and edges",
 "tests do not exercise removal",
 ["sets.go"], [("map plus list set", "sets.go fastSet")],
 observe=["NodeSet", "EdgeSet"])

prop("C29", "A label-indexed node map mirrors the nodes put into it",
 "A node map to which nodes are added, relabeled and removed reports, for any label set, exactly the contained nodes carrying all those labels (all of them for the empty set), enumerates each contained node exactly once whatever the number of its labels, and is empty exactly when it contains no node.",
 ["histories", "inputs"], "every sequence of add/replace/remove with arbitrary label sets",
 "the test adds and iterates two fixed nodes",
 ["maps.go"], [("per-label sets and duplicate suppression", "maps.go NodeMap")],
 observe=["NodeMap"])

prop("C30", "DOT output is well formed and describes the graph",
 "Rendering a graph in DOT format produces one declaration with a distinct identifier per included node and one arrow statement per edge whose ends are both included, with the correct end points, and with edge labels quoted so that the document stays well formed for every label. Nodes a custom renderer excludes, and edges at them, do not appear, and write errors are returned.",
 ["inputs", "fault_sequences"], "every graph, every label, every failing write",
 "no test renders DOT",
 ["dotrenderer.go"], [("identifier assignment and exclusion", "dotrenderer.go RenderNodesEdges"), ("default renderers", "dotrenderer.go DefaultDOTNodeRender/DefaultDOTEdgeRender")],
 observe=["DOTRenderer.Render"])

prop("C31", "Text forms name the labels and properties they stand for",
 "The text of a node is its labels, each after a colon, and its properties between braces, within parentheses; that of an edge its label and properties within brackets. Each label and each property appears exactly once with its value, in any order, and properties that are themselves nodes or edges are left out. The JSON value of a node or an edge is a valid JSON string that decodes to that text, whatever the labels and values. The text of a path lists the text of the two end points of every edge, from first to last, joined by an arrow from source to target, and marks the steps taken against the edge as Reverse.",
 ["inputs"], "every label and value, every path",
 "tests compare a few path texts made of plain ASCII labels without properties",
 ["node.go", "edge.go", "path.go", "properties.go", "stringset.go"], [("text of nodes and edges", "node.go String, edge.go String"), ("property text", "properties.go String"), ("path text", "path.go String")],
 observe=["Node.String", "Edge.String", "Node.MarshalJSON", "Edge.MarshalJSON", "Path.String"])

prop("C32", "Queries only read, so concurrent readers do not interfere",
 "No query operation (enumerations, lookups by label, property or pattern, adjacency, path collection, isomorphism check, rendering and encoding) modifies the graph or anything shared with it; so any number of goroutines may query a graph concurrently, as long as none modifies it, and each gets the answer it would get alone.",
 ["schedules", "inputs"], "every set of concurrent queries on every graph",
 "tests are single threaded",
 ["graph.go", "node.go", "edgemap.go", "indexes.go", "pattern.go"], [("queries allocate their own iterators", "itr.go, edgemap.go, list.go")],
 observe=["all query methods"])

prop("C33", "Enumerations in progress are independent of each other",
 "Any number of enumerations and searches of one graph may be in progress at the same time, over the same or different things, advanced in turns, nested, or run to the end between two steps of another: as long as the graph is not modified, each yields exactly the items it would yield alone, and can be started again with the same result. Reading the current item any number of times neither changes nor advances an enumeration. A pattern search may search again, with the same pattern, whenever it reports a result.",
 ["schedules", "inputs"], "every way of interleaving two enumerations or nesting a search in another",
 "tests run one enumeration at a time",
 ["itr.go", "edgemap.go", "maps.go", "sets.go", "pattern.go"], [("iterators keep their own position", "itr.go, list.go, edgemap.go, maps.go"), ("a plan is made for each run", "pattern.go GetPlan/Run")],
 observe=["all iterators", "Pattern.Run"])
