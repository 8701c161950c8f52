#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

p("C01", "The graph contains exactly the nodes that were added and not removed",
  "After any sequence of graph updates, enumerating a graph's nodes yields every node that was created and not removed exactly once and nothing else, and the reported node count equals that number. Every listed node reads back exactly the labels and properties last given to it. Enumeration always terminates.",
  ["histories"], "all sequences of node/edge creation, relabelling, property updates, detach and removal, in any order",
  "The tests create ten nodes, remove one from the middle and look at the count; a history that removes the newest or the only node and then adds more is never run.",
  ["graph.go", "list.go", "node.go", "properties.go"],
  [("doubly linked all-nodes list", "list.go nodeList.add/remove"), ("node creation and removal", "graph.go addNode/detachRemoveNode")],
  ["Graph.GetNodes", "Graph.NumNodes", "ForEachNode", "Node.GetLabels", "Node.GetProperty", "Node.ForEachProperty"],
  [("allNodes", "every live node, in a linked list with a counter", "graph.go")])

p("C02", "Every edge is in the graph's listing and at both endpoints, exactly once",
  "After any sequence of graph updates, every edge that was created and not removed is enumerated exactly once by the graph, exactly once among the outgoing edges of its source and exactly once among the incoming edges of its target, and nothing else is enumerated there. A self-loop is both an outgoing and an incoming edge of its node, the reported edge count is exact, and enumerating the edges of a node in both directions is the concatenation of its incoming and outgoing edges. Every edge reads back its endpoints and the label and properties last given to it.",
  ["histories"], "all sequences of edge creation (parallel edges, self-loops, shared or distinct labels), relabelling, removal, node detach and removal",
  "Tests never relabel an edge, and hardly remove one; the representation switches between one and many edges per label, so only histories that cross those switches in both directions exercise it.",
  ["graph.go", "edge.go", "edgemap.go", "list.go", "node.go"],
  [("three intrusive lists per edge, grouped by label, with a single-edge fast path", "edgemap.go edgeMap.add/remove"), ("keeping the three in step", "graph.go connect/disconnect/setEdgeLabel/removeEdge/detachNode")],
  ["Graph.GetEdges", "Graph.NumEdges", "Node.GetEdges", "Edge accessors"],
  [("allEdges/incoming/outgoing", "the three edge collections", "graph.go, node.go")])

p("C03", "Label lookups return exactly the objects carrying those labels now",
  "Looking up nodes by a label set returns each node that currently has all of those labels exactly once and no other node; the empty set is had by every node. Looking up edges by labels, on the graph or on a node in a given direction, returns each current edge in scope whose label is in the set exactly once and no other (on a node, an empty set places no restriction). This holds however often nodes and edges have been relabelled.",
  ["histories", "inputs"], "all update histories and all label sets, including absent labels, the empty set and the empty label",
  "Tests look up labels that were given at creation; index maintenance on relabelling (to and from the empty label set, and of edges) is not sampled.",
  ["graph.go", "maps.go", "edgemap.go", "node.go"],
  [("label index of nodes", "maps.go NodeMap.Add/Replace/Remove/IteratorAllLabels"), ("label index of edges", "edgemap.go iteratorLabel/iteratorAnyLabel")],
  ["Graph.GetNodesWithAllLabels", "Graph.GetEdgesWithAnyLabel", "Node.GetEdgesWithLabel", "Node.GetEdgesWithAnyLabel", "Node.HasLabel"])

p("C04", "Lookup by presence of a property is exact, with or without an index",
  "Asking a graph for the nodes (or edges) that have a given property returns each current node (edge) that has it exactly once and no other. The answer is the same whether the property is not indexed, or indexed by a tree or a hash index, and whether the index was declared before or after the data was added, whatever values the property has: of one kind or several, comparable or not. Values set, overwritten or removed, and objects removed, are reflected at once.",
  ["histories", "configurations"], "all update histories, crossed with every choice of index type and of the moment the index is declared",
  "Index tests only insert nodes with string values after declaring the index, and never update, remove or index edges.",
  ["graph.go", "indexes.go", "hashindex.go", "btreeindex.go", "sets.go"],
  [("index maintenance on update and removal", "graph.go setNodeProperty/removeNodeProperty/setEdgeProperty/removeEdgeProperty/removeEdge"), ("index structures", "hashindex.go, btreeindex.go"), ("back-filling", "indexes.go NodePropertyIndex/EdgePropertyIndex")],
  ["Graph.GetNodesWithProperty", "Graph.GetEdgesWithProperty"])

p("C05", "Searches by labels and property values return exactly the matching objects",
  "Searching nodes by labels and property values returns exactly once each current node that has all the labels and, for each given property, an equal value, and no other node; searching edges does the same for edges whose label is one of the given ones. An empty label set or property map places no restriction. The answer does not depend on which properties are indexed, by which kind of index, or when the index was declared; a searched value that cannot be compared with a stored one simply does not match.",
  ["histories", "inputs", "configurations"], "all update histories, all label/property combinations (including labels only, properties only, neither), all index configurations",
  "No test calls these searches at all; whether the fallback to a full scan filters, and whether stale index entries leak, depends on history and configuration.",
  ["graph.go", "indexes.go", "hashindex.go", "btreeindex.go", "properties.go"],
  [("choice of the cheapest iterator plus a filter", "graph.go FindNodes/FindEdges/GetNodeFilterFunc/GetEdgeFilterFunc"), ("value lookup", "hashindex.go find, btreeindex.go find")],
  ["Graph.FindNodes", "Graph.FindEdges", "GetNodeFilterFunc", "GetEdgeFilterFunc"])

p("C06", "Iterators' size estimates never understate, and exhaustion is final",
  "For every iterator a graph hands out, the size it announces is either -1, meaning unknown, or at least the number of elements it then produces. Once an iterator has reported that nothing remains, it keeps reporting so. The value it exposes is the node or edge it is positioned on. Iterators in use at the same time do not affect one another.",
  ["histories", "inputs"], "every iterator-producing call on every graph state reached",
  "One test checks one size; query planning and callers preallocating by it rely on all of them, including the concatenated and filtered ones.",
  ["itr.go", "edgemap.go", "node.go", "list.go", "maps.go", "hashindex.go", "btreeindex.go"],
  [("size propagation through wrappers", "itr.go withSize/filterIterator/funcIterator; node.go GetEdges*")],
  ["Iterator.MaxSize", "Iterator.Next", "Iterator.Value"])

p("C07", "Nodes and edges have unique ids and belong to one graph",
  "No two nodes, and no two edges, of a graph ever carry the same id, even after removals and copies into the graph, and an object's id never changes. Every node and edge reports the graph it was created in. Connecting nodes that are not both of the graph is refused by a panic, and the refused call changes neither graph.",
  ["histories", "inputs"], "all histories over several graphs, including copying between them, and all pairs of own and foreign endpoints",
  "Tests use one graph and never look at ids or offer a foreign node.",
  ["graph.go", "node.go", "edge.go", "clone.go"],
  [("monotone id counter", "graph.go FastNewNode/FastNewEdge/cloneNode/cloneEdge"), ("ownership guard", "graph.go FastNewEdge/cloneEdge")],
  ["Node.GetID", "Edge.GetID", "Node.GetGraph", "Edge.GetGraph", "Graph.NewEdge"])

p("C08", "Removal is complete and touches nothing else",
  "Removing an edge, detaching a node, or removing a node makes exactly that edge, exactly the edges incident to the node, or those edges and the node, disappear from every listing, adjacency, label lookup, property lookup and search at once. Everything else in the graph keeps its endpoints, labels, properties and its place in every lookup. A detached node remains usable: it can be connected again.",
  ["histories"], "all graphs and all removal orders, with self-loops, parallel edges, indexed properties and relabelled edges",
  "One test removes one node and counts; no test removes an edge and consults label or property lookups.",
  ["graph.go", "edgemap.go", "indexes.go", "list.go"],
  [("cascade on detach", "graph.go detachNode/detachRemoveNode"), ("single edge removal", "graph.go removeEdge"), ("index clean-up", "indexes.go removeNodeFromIndex/removeEdgeFromIndex")],
  ["Edge.Remove", "Node.Detach", "Node.DetachAndRemove", "all lookups"])

p("C09", "A copied graph is a faithful and independent duplicate",
  "Copying a graph, the part of it reachable from a node, or selected nodes and edges, into another graph or into itself, adds to the target a duplicate of exactly those nodes and the edges between them, with the same labels, edge labels and (passed through the caller's property copier) properties, and returns the correspondence of nodes. The source and whatever the target held before are unchanged, and the target's label and property lookups see the copies. Afterwards changes to one graph never show in the other.",
  ["inputs", "histories"], "all source graphs (cycles, self-loops, parallel edges), targets with or without content and indexes (the source itself included), and all update sequences after the copy",
  "The test copies one ten-node line and compares; it never mutates afterwards, has no indexes, and does not use the subgraph or selective copies.",
  ["clone.go", "graph.go", "stringset.go", "properties.go"],
  [("node/edge cloning", "graph.go cloneNode/cloneEdge"), ("traversal", "clone.go CopyGraph/CopyGraphf/CopySubgraph"), ("copy-on-write label sets", "stringset.go")],
  ["CopyGraph", "CopyGraphf", "CopySubgraph", "CopyNode", "CopyEdge", "CloneEdge"])

p("C10", "JSON encoding and decoding preserve the graph",
  "Encoding a graph always yields one valid JSON document of the documented shape, with a distinct index for every node, every edge exactly once, and only references to listed nodes, whether edges are embedded in nodes or listed separately. Decoding that document yields a graph with the same nodes, labels, edges, directions, edge labels and properties. Custom property marshalers are applied to every property of every node and edge, and properties they skip are omitted.",
  ["inputs", "configurations"], "all graphs with JSON-representable properties and any valid strings, both edge layouts, default and custom (un)marshalers",
  "The test encodes three tiny graphs and does not compare what it decodes; the separate-edges layout is never encoded.",
  ["json.go"],
  [("encoder", "json.go JSON.Encode"), ("decoder", "json.go JSON.Decode/addNode/addEdge")],
  ["JSON.Encode", "JSON.Decode"])

p("C11", "The JSON decoder accepts every equivalent spelling and rejects bad input",
  "Any document that describes a graph in the documented form decodes to that graph, wherever the edges are put (embedded, separate, or mixed), whatever the order of nodes, edges and keys, and whatever additional unknown keys with arbitrary values it contains; what the target graph held before is kept, and its indexes, whatever the kinds of the values, see what was added. An edge referring to a node that is not in the document is reported as ErrInvalidGraph, and a document that is truncated or malformed, or has a number that cannot be represented, as an error. No input makes decoding panic or run forever.",
  ["inputs"], "all byte strings; in particular every serialization of a graph, every truncation of it and every corruption",
  "Tests decode two well-formed files; forward references, top-level edges before nodes, unknown keys with nested values, truncation and dangling references are never tried.",
  ["json.go"],
  [("token loop with nesting depth", "json.go JSON.Decode"), ("deferred edges", "json.go edgeQueue")],
  ["JSON.Decode"])

p("C12", "I/O and callback failures surface as errors",
  "If any write of an encoder or renderer fails, or a property (un)marshaler, node renderer or edge renderer reports an error, or reading the input fails, the operation returns an error, and the error is the one reported by the callback or writer. If it reports success, every byte of the result was delivered. A property value that cannot be represented is reported rather than silently altered.",
  ["fault_sequences", "inputs"], "a failure at every single write, read or callback invocation of an operation, for arbitrary graphs",
  "No test injects a failure; each of the dozens of write sites has its own error check.",
  ["json.go", "dotrenderer.go"],
  [("an error check after every write", "json.go JSON.Encode; dotrenderer.go"), ("error propagation from callbacks", "json.go marshalProperties/unmarshalProperties")],
  ["JSON.Encode", "JSON.Decode", "DOTRenderer.Render"])

p("C13", "DOT output is well formed and complete",
  "Rendering a graph in DOT produces a syntactically valid digraph that declares each node under its own distinct identifier exactly once and contains each edge exactly once, from its source's identifier to its target's, with its label when it has one, whatever characters the label contains. With custom renderers, each node is offered once, and exactly the edges both of whose endpoints were rendered are offered, once each and with the identifiers the endpoints were rendered with.",
  ["inputs"], "all graphs, all labels, all choices of excluded nodes and edges",
  "Nothing tests the renderer.",
  ["dotrenderer.go"],
  [("identifier assignment and edge emission", "dotrenderer.go RenderNodesEdges/DefaultDOTEdgeRender")],
  ["DOTRenderer.Render", "DOTRenderer.RenderNodesEdges"])

p("C14", "Fixed-length pattern search finds exactly the matches",
  "A pattern alternating node and single-edge items, and ending with a node or with an edge that leads to any node, yields exactly one result for every way of assigning nodes and edges of the graph that satisfies all label, property and direction requirements (an edge may serve several items, and an undirected item matches an edge in either direction, a self-loop once), and no other result. Each result's path runs from the node matching the first item to the node matching the last through the matched edges in order, marking those traversed against their direction, and each named item is reported with what it matched. The head and tail node listings contain each start and end node once.",
  ["inputs"], "all graphs (including self-loops, parallel and anti-parallel edges) and all patterns of single edges in all directions",
  "Tests run a few patterns on lines and circles and count results, mostly loosely; self-loops, mixed directions and starting in the middle of the pattern are barely sampled.",
  ["pattern.go", "planprocessors.go", "path.go"],
  [("planning from the cheapest item outwards", "pattern.go getFastestElement/GetPlan"), ("matching steps", "planprocessors.go"), ("assembling results", "pattern.go GetCurrentPath/CaptureSymbolValues")],
  ["Pattern.FindPaths", "Pattern.FindNodes", "Pattern.Run", "DefaultMatchAccumulator"])

p("C15", "Variable-length pattern search finds exactly the qualifying paths",
  "An edge item with a length range matches exactly the paths of at least one edge, within the given minimum and maximum (each -1 if unbounded), that use no edge twice, follow the item's direction and use only edges meeting its label and property requirements; each such path gives one result. The reported path contains all of its edges, in order from the first to the last pattern item and marked with their direction of traversal. The search terminates on every graph, cyclic or not.",
  ["inputs"], "all graphs, in particular cyclic ones, all length ranges from 1 up and unbounded, all directions, alone and combined with other items",
  "Tests count the paths on lines and circles for a handful of ranges, always with the search starting at the left end.",
  ["planprocessors.go", "vpathitr.go", "pattern.go"],
  [("recursive enumeration with an edge-repeat check", "vpathitr.go CollectAllPaths"), ("assembling backward segments", "pattern.go GetCurrentPath")],
  ["Pattern.FindPaths", "Pattern.FindNodes"])

p("C16", "Pattern results depend on graph, pattern and bindings, not on the plan",
  "The results of a pattern search are the same whatever property indexes exist, hence wherever the search starts. A named item whose variable is bound beforehand only matches the bound nodes (or edges) that are in the graph, where an item with a length range only uses such edges, and a variable occurring several times in a pattern matches the same node (or edge) everywhere. Using a variable bound to edges for a node, or bound to nodes for an edge, gives an error or no results, never a match, whichever way the search is run; while a result is delivered, the match context shows the given bindings and the value of every named item, and further searches may be run. Running a search leaves graph, pattern and bindings unchanged.",
  ["configurations", "inputs"], "all graphs, patterns, index configurations and variable bindings",
  "Tests run a few patterns with and without one index and compare nothing between the two; bindings are tried with one node twice.",
  ["pattern.go", "planprocessors.go"],
  [("cost estimates choose the start", "pattern.go estimateNodeSize/estimateEdgeSize"), ("binding constraints", "pattern.go isConstrainedNodes/isConstrainedEdges/recordStepResult/resetStepResult")],
  ["Pattern.FindPaths", "Pattern.Run", "Pattern.GetPlan"])

p("C17", "Path collection enumerates exactly the trails within bounds",
  "Collecting all paths from a node reports exactly once each path that starts at the node with one of the given first edges, continues in the given direction over edges accepted by the filter, repeats no edge, and whose number of edges is within the bounds, and nothing else. Every reported path is connected, starts at the given node, marks edges traversed against their direction, and is not changed by later exploration. Once the receiver declines, nothing more is reported.",
  ["inputs"], "all graphs, start nodes, first-edge selections, filters, directions, bounds and stopping points",
  "The one test of this makes no assertion.",
  ["vpathitr.go", "path.go"],
  [("recursion with edge-repeat check and early stop", "vpathitr.go CollectAllPaths")],
  ["CollectAllPaths"])

p("C18", "Paths behave as sequences and never disturb the graph",
  "A path behaves as the sequence of nodes and directed steps it was built from: counts, first, last and nth node and edge, prefix tests, sub-paths, cloning, appending steps, appending a path and dropping the first or last step all agree with that sequence, and appending to a path something that does not start at its last node is refused by a panic; so is asking for a node beyond the end or for a sub-path outside the path; a refusal leaves the path as it was. Shortening a one-edge path leaves the remaining node, and shortening a single-node path leaves the empty path. No path operation changes the graph, its argument, or a path or slice of elements that was passed to or obtained from an earlier call.",
  ["histories", "inputs"], "all sequences of path operations over all graphs, including reverse steps, self-loops, single-node and empty paths",
  "The tests check two slices and append an empty path.",
  ["path.go"],
  [("path representation with a single-node special case", "path.go")],
  ["Path methods"])

p("C19", "Cursors and neighbour listings follow the edges",
  "From any node, a cursor lists exactly the edges leaving, entering or touching it (optionally with a label), and as neighbours exactly the nodes at the other end of those edges, each once; without a node it lists nothing. Following an edge moves the cursor to its target and records it, and going back removes the last recorded step and returns the cursor to the node it came from, without altering the graph. The next/previous-node and source/target listings agree with the edges.",
  ["histories", "inputs"], "all graphs and all walks of pushes and pops",
  "One test pushes one edge.",
  ["cursor.go", "itr.go", "node.go"],
  [("cursor movement", "cursor.go PushToPath/PopFromPath"), ("nodes from edges", "itr.go newNodesFromEdges, TargetNodes, SourceNodes")],
  ["Cursor methods", "NextNodesWith", "PrevNodesWith", "TargetNodes", "SourceNodes"])

p("C20", "The isomorphism check is exact",
  "For node and edge equivalences given by the caller, the isomorphism check answers yes exactly when there is a one-to-one correspondence of the nodes, and of the edges, of the two graphs that respects endpoints and directions and pairs only equivalent nodes and edges. The answer does not depend on the order in which the graphs were built or on which graph is given first. If its context is cancelled it stops without finishing the search, with the context's error or a correct answer, and it changes neither graph.",
  ["inputs"], "all pairs of graphs, in particular near-isomorphic ones (same degrees, merged targets, swapped parallel-edge labels)",
  "The test checks one line graph with distinguishable nodes against its copy, expecting yes; it never expects no.",
  ["alg.go"],
  [("enumeration of node assignments and edge comparison", "alg.go CheckIsomorphism")],
  ["CheckIsomorphism"])

p("C21", "Property values are totally ordered within their kind",
  "Comparing property values is a total order on each kind of comparable values: integers, strings, and lists of them compared element by element, with a list of mixed declared type equal to a typed list of the same elements, and values that wrap a native value compared as what they wrap. Comparison is antisymmetric and transitive, equal exactly when the contents are equal, and does not modify its arguments. Values of different kinds are refused by a panic, never reported equal.",
  ["inputs"], "all pairs and triples of supported values, including empty, prefix-related and nested lists, extreme integers and wrapped values",
  "Nothing tests comparison directly; the tree index is only correct if it is a consistent order.",
  ["properties.go"],
  [("comparison by type switch", "properties.go ComparePropertyValue")],
  ["ComparePropertyValue"])

p("C22", "Sets of labels, nodes and edges behave as sets and as values",
  "Label sets, node sets, edge sets (also of objects of several graphs) and label-indexed node maps contain exactly what was added and not removed, whatever the order of operations and repetitions, and all their queries and enumerations agree with that content. A clone of a label set, and the label set read from or given to a node, are values: updating one through its operations never changes another, nor the labels of any node. Label sets survive a JSON round trip.",
  ["histories"], "all sequences of set operations interleaved over several sets and clones and over nodes sharing label sets",
  "Tests insert thirty nodes in one map and enumerate; removal, replacement, clones and set algebra are not covered.",
  ["stringset.go", "sets.go", "maps.go"],
  [("copy-on-write", "stringset.go Add/AddSet/Remove/Clone"), ("map plus list", "sets.go fastSet"), ("label-indexed node map", "maps.go NodeMap")],
  ["StringSet", "NodeSet", "EdgeSet", "NodeMap"])

p("C23", "Concurrent readers, and graphs of common origin, do not interfere",
  "While a graph is not being updated, any number of goroutines may read, search, pattern-match, copy from, encode and render it at the same time without a data race, each getting the answer it would get alone. Distinct graphs may be used and updated by different goroutines without a data race or any visible effect on each other, even if one was copied from the other or they were built from the same label sets.",
  ["schedules", "histories"], "all interleavings of read operations on one graph, and of arbitrary operations on distinct graphs of common origin",
  "No test uses a second goroutine.",
  ["graph.go", "stringset.go", "itr.go", "pattern.go", "planprocessors.go", "json.go", "clone.go"],
  [("reads never write shared state; iterators and plans are per call", "itr.go, pattern.go, maps.go"), ("copy-on-write label sets", "stringset.go")],
  ["all read operations under the race detector"])

p("C24", "Topology queries agree with the edge relation",
  "The sources of a graph are exactly its nodes without incoming edges and its sinks exactly those without outgoing edges, each listed once; a node whose only edge is a self-loop is neither. The edges between two nodes are exactly the edges from the first to the second. Visiting all nodes visits each once, stopping when told to and reporting whether it ran to completion.",
  ["histories", "inputs"], "all graphs reached by any update history, all pairs of nodes",
  "None of these functions is tested.",
  ["alg.go"],
  [("filtering by adjacency", "alg.go SourcesItr/SinksItr/EdgesBetweenNodes/ForEachNode")],
  ["Sources", "SourcesItr", "Sinks", "SinksItr", "EdgesBetweenNodes", "ForEachNode"])

p("C25", "Indexed lookups examine only what the index selects",
  "A search for a value of an indexed node or edge property, or a pattern whose most selective item is determined by an indexed node or edge property, inspects a number of stored values bounded by the number of matches plus a logarithm of the graph's size, not all of them. A search by node label inspects the properties only of nodes carrying the rarest of the requested labels (or, with an indexed value as well, of no more nodes than the rarer of the two selects), and one by edge labels only those of edges with these labels. This remains so after any history of updates.",
  ["histories", "configurations"], "graphs of growing size with indexed and unindexed properties, after histories of updates and removals",
  "A test cannot see work done, only results; the benchmarks only print times.",
  ["graph.go", "pattern.go", "indexes.go", "maps.go", "btreeindex.go", "hashindex.go"],
  [("choice of the smallest iterator", "graph.go FindNodes/FindEdges; pattern.go estimateNodeSize/getFastestElement; maps.go IteratorAllLabels")],
  ["count of native-value reads during a search"])

p("C26", "Attributes are private to their node or edge",
  "Setting, overwriting or removing a property, or changing labels, of one node or edge affects that object only: no other node or edge, not the maps and label sets the caller passed in or got out, even when many objects were created from the same map or label set. Reading a property reports exactly whether it is set and its last value, visiting properties visits each once and stops when told to, and removing an absent property does nothing.",
  ["histories"], "all interleavings of attribute updates over objects created from shared maps, label sets and copies, with and without indexes",
  "No test creates two objects from one map or label set and then updates one of them.",
  ["graph.go", "properties.go", "stringset.go", "node.go", "edge.go"],
  [("copying the caller's map on creation", "graph.go NewNode/NewEdge"), ("copy-on-write label sets", "stringset.go, graph.go setNodeLabels")],
  ["Node/Edge SetProperty, RemoveProperty, GetProperty, ForEachProperty, SetLabels, GetLabels"])

p("C27", "Local operations do not slow down as the graph grows",
  "In a graph with few distinct labels, operations that select or touch a few objects take time governed by those objects, not by the size of the graph: looking up nodes by a rare label (alone or with a common one), edges by a rare label in the graph or at a node with very many edges, nodes or edges by the presence or a rare value of an indexed property (alone, with a common label, with other values), the first elements of any iterator, counts, cursor steps, single steps on long paths, membership in large node and edge sets, patterns with a rare label, rare indexed value or bound variable, and creating, relabelling, changing or removing a node of small degree or any edge, even one attached to a node with very many edges.",
  ["inputs", "configurations"], "graphs of a hundred thousand nodes with rare and common labels and values and nodes of very high degree, with btree and hash indexes",
  "A test cannot tell a lookup from a scan by its result, and no test graph is large enough to feel it.",
  ["graph.go", "maps.go", "edgemap.go", "list.go", "sets.go", "indexes.go", "hashindex.go", "btreeindex.go", "pattern.go"],
  [("constant-time sets and intrusive lists", "sets.go fastSet, list.go, edgemap.go"), ("choice of the smallest iterator", "graph.go FindNodes/FindEdges, maps.go IteratorAllLabels, pattern.go getFastestElement")],
  ["time of each operation against a walk over all nodes or edges of the same graph"])

p("C28", "What was removed is released",
  "Once a node or edge has been removed (directly, with its node, or by detaching), nothing reachable from the graph refers to it any more, and a property value that was overwritten or removed is not kept either (unless it serves as a key of an index): the garbage collector reclaims them when the caller lets go. A copy of a graph does not keep the original, its nodes or its edges alive. Filling and emptying a graph over and over, completely or down to some objects that stay, with ever new labels and property values and with indexes, does not make it grow.",
  ["histories"], "all histories of creation, relabelling, property updates, detach and removal, with and without indexes of both kinds, and copies",
  "The tests look at what listings return; an object that is no longer listed but still referenced, or an index entry left behind, is invisible to them.",
  ["graph.go", "list.go", "edgemap.go", "maps.go", "indexes.go", "hashindex.go", "btreeindex.go", "sets.go", "clone.go"],
  [("unlinking from lists, label map and indexes", "graph.go detachRemoveNode/removeEdge"), ("dropping empty index entries", "btreeindex.go setTree.remove, hashindex.go hashIndex.remove, maps.go NodeMap.Remove")],
  ["weak pointers to removed objects and heap size after garbage collection"])

p("C29", "Text forms show labels and properties and leave out references",
  "The text of a node or edge shows exactly its current labels and every current property as key and value, except properties whose value is itself a node or an edge, so that rendering ends even when properties refer back to the object; its JSON form is that text as a JSON string. The text of a path shows, step by step, the source and target node of each edge and marks the steps taken backwards. Rendering changes nothing.",
  ["inputs", "histories"], "all small graphs with properties of any kind, including references to nodes and edges, after any updates; all walks",
  "The tests print nodes at most in failure messages.",
  ["node.go", "edge.go", "properties.go", "path.go"],
  [("skipping references", "properties.go String"), ("text forms", "node.go, edge.go, path.go String/MarshalJSON")],
  ["Node/Edge/Path String", "Node/Edge MarshalJSON"])

p("C30", "What an iteration has just returned may be removed or changed",
  "While iterating over the nodes or edges of a graph, over nodes or edges by labels, over the edges of a node in one direction (or both, if it has no self-loop), or over the results of a search by labels and property values, the caller may remove the element just returned, detach it, add edges to it, set and remove its properties (those searched for: only remove), relabel it if it is a node, or give it a label the iteration does not look for if it is an edge found by labels: exactly the elements selected when the iteration began are returned, each once, and the iteration ends. The same holds for lookups by the presence of a property without a tree index, provided that property is only removed. Afterwards all views agree with the updates made.",
  ["histories"], "all graphs after any updates, all combinations of iterator and updates of the returned elements, nested iterations over the edges of the returned node included",
  "The tests iterate over graphs at rest; an iterator that reads its position from the element it has returned behaves the same there.",
  ["list.go", "edgemap.go", "itr.go", "sets.go", "maps.go", "graph.go"],
  [("moving on before an element is handed out", "list.go nodeListIterator/edgeListIterator, edgemap.go allEdgesItr, itr.go listIterator")],
  ["sequence of elements returned by an iterator whose elements are updated on the way"])

p("C31", "Work on everything grows in proportion to the graph",
  "In a graph with few distinct labels, filling, indexing, copying, encoding, decoding, rendering, walking and searching a whole graph, relabelling, updating, detaching or removing all its nodes or edges in any order, matching all its edges or all paths of bounded number, filling and emptying node and edge sets, and building, slicing and taking apart a path take time roughly proportional to the number of nodes, edges, elements or results processed: a graph eight times as large takes about eight times as long, whatever its shape, its property values and its indexes.",
  ["inputs", "configurations"], "graphs of growing size: chains, stars in both directions, trees, random graphs, parallel edges and self-loops, with all-distinct, few-valued and equal properties, indexes of both kinds declared before or after, all orders of updates",
  "Quadratic work on the few nodes of a test graph is too fast to notice, and results do not show it.",
  ["graph.go", "list.go", "edgemap.go", "sets.go", "maps.go", "clone.go", "json.go", "path.go", "cursor.go", "pattern.go", "vpathitr.go"],
  [("constant-time sets and intrusive lists", "sets.go fastSet, list.go, edgemap.go"), ("one pass over nodes and edges", "clone.go, json.go, dotrenderer.go, alg.go")],
  ["time of whole-graph operations at two sizes"])

p("C32", "Variables of the wrong kind are reported",
  "If a pattern that matches something otherwise uses a variable bound to edges as a node, a variable bound to nodes as an edge (of fixed or variable length), or one name for both a node and an edge, running it returns the error for that name, ErrNodeVariableExpected or ErrEdgeVariableExpected, from every entry point and whichever plan is chosen; no match is reported. A pattern that cannot match reports no match, with or without that error. Neither graph nor bindings are changed, and the same pattern with properly bound variables works afterwards.",
  ["inputs", "configurations"], "all small graphs, with and without indexes, all pattern shapes, every position and kind of the misused variable",
  "No test runs a pattern with a misused variable.",
  ["pattern.go", "planprocessors.go", "vpathitr.go"],
  [("kind check of bound and local symbols", "pattern.go isConstrainedNodes/isConstrainedEdges"), ("stopping at an error", "planprocessors.go Run methods")],
  ["error and matches of Pattern.Run/FindPaths/FindNodes, MatchPlan.Run"])

p("C33", "JSON codecs can be used again, and documents can be streamed",
  "Graphs encoded one after the other to a writer, with white space or other JSON values in between, or as elements of an enclosing array or object, are decoded one after the other from one decoder, by one codec or several, each call giving the next graph and leaving everything after its document unread; at the end of the stream decoding returns io.EOF. A codec may be used for any number of graphs in both directions, and one decoding or encoding does not affect the next. Property keys are interned: equal keys of a decoded graph are one string, and if the codec has an interner, it is the string that interner returned, for all graphs decoded with it.",
  ["inputs", "histories"], "all sequences of graphs and of codecs, all ways to put documents into a stream and to read the stream in pieces",
  "The tests decode single documents that fill their input.",
  ["json.go"],
  [("token by token reading that stops at the closing brace", "json.go Decode"), ("interning", "json.go unmarshalProperties, MapInterner")],
  ["graphs decoded from a stream", "what is left unread", "identity of property keys"])

p("C34", "Removed nodes and edges stay out of the graph",
  "A node or edge that has been removed, directly, by a list that names it twice, or because its node was detached or removed, remains outside the graph for good. Removing or detaching it again changes nothing, whatever else the graph contains. It still answers with its graph, end nodes, labels and properties, and these can be set and removed, which changes this object alone: no listing, count, search or index of the graph shows it, whether or not the key is indexed. A removed node has no edges, and an edge to or from it is refused with a panic that leaves the graph as it was. A copy of a removed object is an ordinary member of the graph it was made in.",
  ["histories"], "all histories of updates in which removed objects are used again at any time",
  "The tests never touch a removed object again.",
  ["graph.go", "node.go", "edge.go"],
  [("removal", "graph.go detachRemoveNode, detachNode, removeEdge"), ("updates", "graph.go setNodeProperty, setEdgeProperty, setNodeLabels, setEdgeLabel"), ("connecting", "graph.go FastNewEdge, cloneEdge")],
  ["listings, counts and searches after removed objects were used", "attributes of removed objects", "refusals"])

p("C35", "Match plans can be run any number of times",
  "A plan made for a pattern may be run repeatedly: on the graph as it then is, after any updates, on another graph, with other bindings, and after runs that were abandoned or that reported an error. Each run gives the results that a new search of that graph with those bindings gives. Bindings that name nodes or edges that were removed, or that belong to another graph, match nothing.",
  ["histories"], "all sequences of runs of one plan, with updates of the graphs and changes of the bindings in between",
  "The tests make a new plan for every search.",
  ["pattern.go", "planprocessors.go"],
  [("iterators and constraints set up at the start of each run", "planprocessors.go iterateNodes.init, iterateEdges.init"), ("plan state", "planprocessors.go iterateConnectedEdges, planContext")],
  ["MatchPlan.Run", "MatchPlan.CaptureSymbolValues", "Pattern.GetPlan"])

p("C36", "Callbacks that fail or add to the graph leave graphs whole",
  "Applications pass functions and values with methods to the library: property and object copiers, cloners, marshalers, unmarshalers and interners, readers and writers, DOT renderers, visitors, equivalences, receivers of paths and matches. If one of them panics or leaves its goroutine, in any of its calls, this reaches the caller of the operation as it is, and an error it reports is returned or the operation stops, as documented. Graphs that are only read are then as before. The graph that is written to holds what it held before and, of what was to be added, complete objects only, each at most once: listings, counts, searches and indexes agree with each other, and it can be used on. Copiers and unmarshalers may add nodes, edges and indexes to the target graph meanwhile: all objects then have ids of their own and are complete.",
  ["faults", "histories"], "all histories, all operations with callbacks, all calls of these at which they fail or add",
  "The tests have no callbacks that panic, and none that use the graph.",
  ["graph.go", "json.go", "dotrenderer.go", "clone.go", "alg.go", "pattern.go", "planprocessors.go"],
  [("labels and properties before a node is listed", "graph.go FastNewNode, CopyNode"), ("properties before an edge is connected", "graph.go cloneEdge, FastNewEdge"), ("calls to codecs", "json.go Decode, Encode")],
  ["panic or error at the caller", "all views of source and target afterwards", "ids"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
