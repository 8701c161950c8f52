From 619f6f7d4bc740585e43e025ad8b2715e175e291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 01/38] fix: removing the last node of a graph leaves the node
 list consistent

---
 list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list.go b/list.go
index 0f0eb2b..97d30c8 100644
--- a/list.go
+++ b/list.go
@@ -117,7 +117,7 @@ func (list *nodeList) remove(node *Node) {
 	if node.next != nil {
 		node.next.prev = node.prev
 	} else {
-		list.tail = node
+		list.tail = node.prev
 	}
 	list.n--
 }
-- 
2.43.0


From f2c58f2a6f8bcdda8dd91342856640b8b414d23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 02/38] fix: relabelling an edge moves it in the graph's edge
 listing too

---
 graph.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graph.go b/graph.go
index 4ac65e3..2e1e449 100644
--- a/graph.go
+++ b/graph.go
@@ -523,7 +523,9 @@ func (g *Graph) disconnect(edge *Edge) {
 
 func (g *Graph) setEdgeLabel(edge *Edge, label string) {
 	g.disconnect(edge)
+	g.allEdges.remove(edge, 0)
 	edge.label = label
+	g.allEdges.add(edge, 0)
 	g.connect(edge)
 }
 
-- 
2.43.0


From 0446a3027bbeb82bcc24f557260e3fd6588ae6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 03/38] fix: removing an edge removes it from the property
 indexes

---
 graph.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graph.go b/graph.go
index 2e1e449..2341778 100644
--- a/graph.go
+++ b/graph.go
@@ -532,6 +532,7 @@ func (g *Graph) setEdgeLabel(edge *Edge, label string) {
 func (g *Graph) removeEdge(edge *Edge) {
 	g.disconnect(edge)
 	g.allEdges.remove(edge, 0)
+	g.index.removeEdgeFromIndex(edge, g)
 }
 
 func (g *Graph) setEdgeProperty(edge *Edge, key string, value interface{}) {
-- 
2.43.0


From 503bae17e61571de50b3bcfe28f8ac3df163ff77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 04/38] fix: FindNodes and FindEdges filter when no index
 applies, and accept no labels

---
 graph.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/graph.go b/graph.go
index 2341778..7181204 100644
--- a/graph.go
+++ b/graph.go
@@ -224,11 +224,12 @@ func (g *Graph) FindNodes(allLabels StringSet, properties map[string]interface{}
 	}
 
 	var nodesByLabelItr NodeIterator
+	// Select the iterator with minimum max size
+	nodesByLabelSize := -1
 	if allLabels.Len() > 0 {
 		nodesByLabelItr = g.index.nodesByLabel.IteratorAllLabels(allLabels)
+		nodesByLabelSize = nodesByLabelItr.MaxSize()
 	}
-	// Select the iterator with minimum max size
-	nodesByLabelSize := nodesByLabelItr.MaxSize()
 	propertyIterators := make(map[string]NodeIterator)
 	if len(properties) > 0 {
 		for k, v := range properties {
@@ -278,7 +279,14 @@ func (g *Graph) FindNodes(allLabels StringSet, properties map[string]interface{}
 		}
 	}
 	// Iterate all
-	return g.GetNodes()
+	return nodeIterator{
+		&filterIterator{
+			itr: g.GetNodes(),
+			filter: func(item interface{}) bool {
+				return nodeFilterFunc(item.(*Node))
+			},
+		},
+	}
 }
 
 // FindEdges returns an iterator that will iterate through all the
@@ -293,11 +301,12 @@ func (g *Graph) FindEdges(labels StringSet, properties map[string]interface{}) E
 	}
 
 	var edgesByLabelItr EdgeIterator
+	// Select the iterator with minimum max size
+	edgesByLabelSize := -1
 	if labels.Len() > 0 {
 		edgesByLabelItr = g.GetEdgesWithAnyLabel(labels)
+		edgesByLabelSize = edgesByLabelItr.MaxSize()
 	}
-	// Select the iterator with minimum max size
-	edgesByLabelSize := edgesByLabelItr.MaxSize()
 	propertyIterators := make(map[string]EdgeIterator)
 	if len(properties) > 0 {
 		for k, v := range properties {
@@ -346,8 +355,18 @@ func (g *Graph) FindEdges(labels StringSet, properties map[string]interface{}) E
 			},
 		}
 	}
-	// Iterate all
-	return g.GetEdges()
+	// Iterate all edges with the given labels
+	if edgesByLabelItr == nil {
+		edgesByLabelItr = g.GetEdges()
+	}
+	return &edgeIterator{
+		&filterIterator{
+			itr: edgesByLabelItr,
+			filter: func(item interface{}) bool {
+				return edgeFilterFunc(item.(*Edge))
+			},
+		},
+	}
 }
 
 // GetNodeFilterFunc returns a filter function that can be used to select
-- 
2.43.0


From d55a0487b2db62120c7d6e53a54367399872aca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 05/38] fix: removing all labels of a node removes it from the
 label index

---
 maps.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/maps.go b/maps.go
index 2a6088f..ce06cc5 100644
--- a/maps.go
+++ b/maps.go
@@ -42,7 +42,6 @@ func (nm *NodeMap) Replace(node *Node, oldLabels, newLabels StringSet) {
 	}
 	if newLabels.Len() == 0 {
 		nm.nolabels.add(node.id, node)
-		return
 	}
 	var set *fastSet
 	// Process removed labels
-- 
2.43.0


From cb7420ded5db0cbad929522fab85f7420339e52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 06/38] fix: a node map holding only unlabelled nodes is not
 empty

---
 maps.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/maps.go b/maps.go
index ce06cc5..db1a92e 100644
--- a/maps.go
+++ b/maps.go
@@ -112,10 +112,7 @@ func (nm NodeMap) Remove(node *Node) {
 }
 
 func (nm NodeMap) IsEmpty() bool {
-	if nm.m.Size() == 0 {
-		return true
-	}
-	return false
+	return nm.m.Size() == 0 && nm.nolabels.size() == 0
 }
 
 type nodeMapIterator struct {
-- 
2.43.0


From 03b1ace3d9de94a47829255b3047df29fdda4b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 07/38] fix: looking up nodes by the empty label set returns
 all nodes

---
 maps.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/maps.go b/maps.go
index db1a92e..7341532 100644
--- a/maps.go
+++ b/maps.go
@@ -178,6 +178,10 @@ func (nm NodeMap) Iterator() NodeIterator {
 }
 
 func (nm NodeMap) IteratorAllLabels(labels StringSet) NodeIterator {
+	// All nodes have all the labels of the empty set
+	if labels.Len() == 0 {
+		return nm.Iterator()
+	}
 	// Find the smallest map element, iterate that
 	var minSet *fastSet
 	for label := range labels.M {
-- 
2.43.0


From dd7d61cb994dcc1b44e0d11a49f5e7cc460adc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 08/38] fix: hash indexes accept list values

---
 hashindex.go | 49 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/hashindex.go b/hashindex.go
index e4b283c..930a477 100644
--- a/hashindex.go
+++ b/hashindex.go
@@ -16,8 +16,45 @@ package lpg
 
 import (
 	"container/list"
+	"fmt"
+	"strings"
 )
 
+// listKey is the hash key of a list value
+type listKey string
+
+// hashKey returns the key to use for a value in a hash index. Values
+// that compare equal have the same key: values are replaced by their
+// native values, and lists by a string representation of their
+// elements.
+func hashKey(value interface{}) interface{} {
+	switch v := value.(type) {
+	case WithNativeValue:
+		return hashKey(v.GetNativeValue())
+	case []string:
+		elements := make([]interface{}, len(v))
+		for i := range v {
+			elements[i] = v[i]
+		}
+		return hashKey(elements)
+	case []int:
+		elements := make([]interface{}, len(v))
+		for i := range v {
+			elements[i] = v[i]
+		}
+		return hashKey(elements)
+	case []interface{}:
+		sb := strings.Builder{}
+		for _, x := range v {
+			key := hashKey(x)
+			str := fmt.Sprint(key)
+			fmt.Fprintf(&sb, "%T:%d:%s,", key, len(str), str)
+		}
+		return listKey(sb.String())
+	}
+	return value
+}
+
 // A hashIndex is a hash table index
 type hashIndex struct {
 	values   map[interface{}]*fastSet
@@ -29,9 +66,7 @@ func (ix *hashIndex) add(value interface{}, id int, item interface{}) {
 		ix.values = make(map[interface{}]*fastSet)
 	}
 
-	if native, ok := value.(WithNativeValue); ok {
-		value = native.GetNativeValue()
-	}
+	value = hashKey(value)
 
 	el := ix.elements.PushBack(item)
 	fs, ok := ix.values[value]
@@ -46,9 +81,7 @@ func (ix *hashIndex) remove(value interface{}, id int) {
 	if ix.values == nil {
 		return
 	}
-	if native, ok := value.(WithNativeValue); ok {
-		value = native.GetNativeValue()
-	}
+	value = hashKey(value)
 	fs, ok := ix.values[value]
 	if !ok {
 		return
@@ -66,9 +99,7 @@ func (ix *hashIndex) find(value interface{}) Iterator {
 	if ix.values == nil {
 		return emptyIterator{}
 	}
-	if native, ok := value.(WithNativeValue); ok {
-		value = native.GetNativeValue()
-	}
+	value = hashKey(value)
 	v, found := ix.values[value]
 	if !found {
 		return emptyIterator{}
-- 
2.43.0


From 5d4ee4e587620f9d9b31e8948174cbecaeb6e119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:26 +0000
Subject: [PATCH 09/38] fix: searching a btree index for an incomparable value
 finds nothing

---
 btreeindex.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/btreeindex.go b/btreeindex.go
index ec3ebd8..705dbfc 100644
--- a/btreeindex.go
+++ b/btreeindex.go
@@ -51,11 +51,17 @@ func (s setTree) remove(key interface{}, id int) {
 	}
 }
 
-// find returns the iterator and expected size.
-func (s setTree) find(key interface{}) Iterator {
+// find returns the iterator and expected size. A key that cannot be
+// compared to the indexed values is not found.
+func (s setTree) find(key interface{}) (ret Iterator) {
 	if s.tree == nil {
 		return emptyIterator{}
 	}
+	defer func() {
+		if r := recover(); r != nil {
+			ret = emptyIterator{}
+		}
+	}()
 	v, found := s.tree.Get(key)
 	if !found {
 		return emptyIterator{}
-- 
2.43.0


From a35ec9bd1758b7ce44321fe19822e5821334b125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 10/38] fix: the size of edges in both directions is unknown if
 either is

---
 itr.go  | 14 ++++++++++++++
 node.go |  6 +++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/itr.go b/itr.go
index b2c31a7..bb89f9d 100644
--- a/itr.go
+++ b/itr.go
@@ -231,6 +231,20 @@ func withSize(itr iteratorWithoutSize, size int) Iterator {
 		size: size}
 }
 
+// totalSize returns the total of the max sizes of the iterators, -1 if
+// one of them is unknown
+func totalSize(iterators ...Iterator) int {
+	total := 0
+	for _, itr := range iterators {
+		size := itr.MaxSize()
+		if size == -1 {
+			return -1
+		}
+		total += size
+	}
+	return total
+}
+
 type listIterator struct {
 	next, current *list.Element
 	size          int
diff --git a/node.go b/node.go
index 666e0ec..8de77d4 100644
--- a/node.go
+++ b/node.go
@@ -63,7 +63,7 @@ func (node *Node) GetEdges(dir EdgeDir) EdgeIterator {
 	}
 	i1 := node.incoming.iterator(2)
 	i2 := node.outgoing.iterator(1)
-	return edgeIterator{withSize(MultiIterator(i1, i2), i1.MaxSize()+i2.MaxSize())}
+	return edgeIterator{withSize(MultiIterator(i1, i2), totalSize(i1, i2))}
 }
 
 // Returns an edge iterator for incoming or outgoing edges with the given label
@@ -76,7 +76,7 @@ func (node *Node) GetEdgesWithLabel(dir EdgeDir, label string) EdgeIterator {
 	}
 	i1 := node.incoming.iteratorLabel(label, 2)
 	i2 := node.outgoing.iteratorLabel(label, 1)
-	return edgeIterator{withSize(MultiIterator(i1, i2), i1.MaxSize()+i2.MaxSize())}
+	return edgeIterator{withSize(MultiIterator(i1, i2), totalSize(i1, i2))}
 }
 
 // Returns an edge iterator for incoming or outgoingn edges that has the given labels
@@ -95,7 +95,7 @@ func (node *Node) GetEdgesWithAnyLabel(dir EdgeDir, labels StringSet) EdgeIterat
 	}
 	i1 := node.GetEdgesWithAnyLabel(IncomingEdge, labels)
 	i2 := node.GetEdgesWithAnyLabel(OutgoingEdge, labels)
-	return edgeIterator{withSize(MultiIterator(i1, i2), i1.MaxSize()+i2.MaxSize())}
+	return edgeIterator{withSize(MultiIterator(i1, i2), totalSize(i1, i2))}
 }
 
 // SetLabels sets the node labels
-- 
2.43.0


From 7df3ca0a498179598e711a1a0a460a23cba76f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:51 +0000
Subject: [PATCH 11/38] fix: appending a path keeps single-node paths, the
 argument, and connectivity

---
 path.go | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/path.go b/path.go
index e613260..6e030e9 100644
--- a/path.go
+++ b/path.go
@@ -144,24 +144,14 @@ func (p *Path) Append(path ...PathElement) *Path {
 // AppendPath can append a single node or a path to the callers path.
 // If the caller does not contain a path, the passed path is copied into the receiver
 func (p *Path) AppendPath(path *Path) *Path {
-	switch p.NumNodes() {
-	case 0:
+	if p.NumNodes() == 0 {
+		p.only = path.only
 		p.path = make([]PathElement, len(path.path))
 		copy(p.path, path.path)
 		return p
-	case 1:
-		if p.only != nil {
-			p.only = nil
-		}
-	default:
-		switch path.NumNodes() {
-		case 0:
-			return p
-		case 1:
-			if path.only != nil {
-				path.only = nil
-			}
-		}
+	}
+	if path.only != nil && path.only != p.Last() {
+		panic("Appended node is disconnected from path")
 	}
 	return p.Append(path.path...)
 }
-- 
2.43.0


From f367ad5994de8596f0b90f0856cd26147967e9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 12/38] fix: shortening a path does not remove edges from the
 graph

---
 path.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/path.go b/path.go
index 6e030e9..0c15a8a 100644
--- a/path.go
+++ b/path.go
@@ -287,22 +287,27 @@ func (p *Path) RemoveLast() *Path {
 		p.only = nil
 		return p
 	}
+	if len(p.path) == 1 {
+		return p.SetOnlyNode(p.First())
+	}
 	if len(p.path) > 0 {
-		p.path[len(p.path)-1].Edge.Remove()
 		p.path = p.path[:len(p.path)-1]
 	}
 	return p
 }
 
-// RemoveFirst removes the first edge from the graph. If the path has
-// only a node, path becomes empty
+// RemoveFirst removes the first edge from the path. If the path has
+// one edge, the path becomes a single node containing the target. If
+// the path has only a node, path becomes empty
 func (p *Path) RemoveFirst() *Path {
 	if p.only != nil {
 		p.only = nil
 		return p
 	}
+	if len(p.path) == 1 {
+		return p.SetOnlyNode(p.Last())
+	}
 	if len(p.path) > 0 {
-		p.path[0].Edge.Remove()
 		p.path = p.path[1:]
 	}
 	return p
-- 
2.43.0


From b58109c20530e81b8edbe8c3f4e621bd27c56e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 13/38] fix: cursors report the other end of incoming edges,
 and move back when popping

---
 cursor.go | 7 +++++--
 itr.go    | 8 +++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/cursor.go b/cursor.go
index e393582..13f727e 100644
--- a/cursor.go
+++ b/cursor.go
@@ -52,6 +52,9 @@ func (c *Cursor) GetPath() *Path {
 // PopFromPath removes the last edge from the path. This also moves the cursor to the previous node
 func (c *Cursor) PopFromPath() *Cursor {
 	c.path.RemoveLast()
+	if last := c.path.Last(); last != nil {
+		c.node = last
+	}
 	return c
 }
 
@@ -81,7 +84,7 @@ func (c *Cursor) Nodes(dir EdgeDir) NodeIterator {
 	if c.node == nil {
 		return &nodeIterator{emptyIterator{}}
 	}
-	return newNodesFromEdges(c.node.GetEdges(dir), dir)
+	return newNodesFromEdges(c.node, c.node.GetEdges(dir), dir)
 }
 
 // NodesWith returns an iterator over the nodes that are reachable by
@@ -91,7 +94,7 @@ func (c *Cursor) NodesWith(dir EdgeDir, label string) NodeIterator {
 	if c.node == nil {
 		return &nodeIterator{emptyIterator{}}
 	}
-	return newNodesFromEdges(c.node.GetEdgesWithLabel(dir, label), dir)
+	return newNodesFromEdges(c.node, c.node.GetEdgesWithLabel(dir, label), dir)
 }
 
 // Forward returns an edge iterator for outgoing edges of the current
diff --git a/itr.go b/itr.go
index bb89f9d..5878c41 100644
--- a/itr.go
+++ b/itr.go
@@ -264,15 +264,17 @@ func (l *listIterator) Value() interface{} {
 
 func (l *listIterator) MaxSize() int { return l.size }
 
-// nodesFromEdgesIterator iterates the nodes of an edge iterator
+// nodesFromEdgesIterator iterates the nodes of an iterator over the edges of a node
 type nodesFromEdgesIterator struct {
+	node *Node
 	dir  EdgeDir
 	itr  EdgeIterator
 	seen map[int]struct{}
 }
 
-func newNodesFromEdges(itr EdgeIterator, dir EdgeDir) NodeIterator {
+func newNodesFromEdges(node *Node, itr EdgeIterator, dir EdgeDir) NodeIterator {
 	return &nodesFromEdgesIterator{
+		node: node,
 		dir:  dir,
 		itr:  itr,
 		seen: make(map[int]struct{}),
@@ -297,7 +299,7 @@ func (i *nodesFromEdgesIterator) Value() interface{} { return i.Node() }
 
 func (i *nodesFromEdgesIterator) Node() *Node {
 	e := i.itr.Edge()
-	if i.dir == IncomingEdge {
+	if i.dir == IncomingEdge || (i.dir == AnyEdge && e.GetTo() == i.node) {
 		return e.GetFrom()
 	}
 	return e.GetTo()
-- 
2.43.0


From 9f7888f5b475585109f5f3a983f601b369fff43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 14/38] fix: isomorphism requires one-to-one node and edge
 correspondences

---
 alg.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/alg.go b/alg.go
index 5bc333c..de0bacc 100644
--- a/alg.go
+++ b/alg.go
@@ -133,6 +133,14 @@ func CheckIsomorphism(ctx context.Context, g1, g2 *Graph, nodeEquivalenceFunc fu
 	}
 
 	isIsomorphism := func(nodeMapping map[*Node]*Node) bool {
+		// The mapping must be one-to-one
+		mapped := make(map[*Node]struct{}, len(nodeMapping))
+		for _, node2 := range nodeMapping {
+			mapped[node2] = struct{}{}
+		}
+		if len(mapped) != len(nodeMapping) {
+			return false
+		}
 		for node1, node2 := range nodeMapping {
 			// node1 and node2 are equivalent. Now we check if equivalent edges go to equivalent nodes
 			edges1 := EdgeSlice(node1.GetEdges(OutgoingEdge))
@@ -142,12 +150,15 @@ func CheckIsomorphism(ctx context.Context, g1, g2 *Graph, nodeEquivalenceFunc fu
 				return false
 			}
 
+			// Each edge of node2 can be matched only once
+			used := make([]bool, len(edges2))
 			for _, edge1 := range edges1 {
 				found := false
-				for _, edge2 := range edges2 {
+				for i, edge2 := range edges2 {
 					// edge1.Edge.GetTo()
-					if nodeMapping[edge1.GetTo()] == edge2.GetTo() &&
+					if !used[i] && nodeMapping[edge1.GetTo()] == edge2.GetTo() &&
 						edgeEquivalenceFunc(edge1, edge2) {
+						used[i] = true
 						found = true
 						break
 					}
-- 
2.43.0


From b143a644ca3843e275d71ebed54583a06fa8e8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 15/38] fix: an empty graph with separate edges is encoded as
 valid JSON

---
 json.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/json.go b/json.go
index 2b7b248..8b351d7 100644
--- a/json.go
+++ b/json.go
@@ -350,8 +350,10 @@ func (j JSON) Encode(g *Graph, out io.Writer) error {
 	}
 
 	if j.MarshalEdgesSeparately {
-		if _, err := out.Write(comma); err != nil {
-			return err
+		if len(nodeMap) > 0 {
+			if _, err := out.Write(comma); err != nil {
+				return err
+			}
 		}
 		if _, err := out.Write(edgesKey); err != nil {
 			return err
-- 
2.43.0


From 073be51513f9183d4f1602237e475651821f65d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 16/38] fix: decoding skips unknown keys whatever their value

---
 json.go | 88 ++++++++++++++++++++++++++-------------------------------
 1 file changed, 40 insertions(+), 48 deletions(-)

diff --git a/json.go b/json.go
index 8b351d7..9b019b6 100644
--- a/json.go
+++ b/json.go
@@ -465,7 +465,6 @@ func (j JSON) Decode(g *Graph, input *json.Decoder) error {
 	if tok != json.Delim('{') {
 		return &json.SyntaxError{Offset: input.InputOffset()}
 	}
-	depth := 0
 	nodeMap := make(map[int]*Node)
 	edgeQueue := make([]jsonEdge, 0)
 	for {
@@ -473,62 +472,55 @@ func (j JSON) Decode(g *Graph, input *json.Decoder) error {
 		if err != nil {
 			return err
 		}
-		if depth == 0 {
-			if s, ok := tok.(string); ok {
-				if s == "nodes" {
-					var nodes []jsonNode
-					if err := input.Decode(&nodes); err != nil {
+		if s, ok := tok.(string); ok {
+			if s == "nodes" {
+				var nodes []jsonNode
+				if err := input.Decode(&nodes); err != nil {
+					return err
+				}
+				for _, node := range nodes {
+					if edgeQueue, err = j.addNode(g, node, nodeMap, edgeQueue); err != nil {
 						return err
 					}
-					for _, node := range nodes {
-						if edgeQueue, err = j.addNode(g, node, nodeMap, edgeQueue); err != nil {
+				}
+			} else if s == "edges" {
+				var edges []jsonEdge
+				if err := input.Decode(&edges); err != nil {
+					return err
+				}
+				for _, edge := range edges {
+					from, fromExists := nodeMap[edge.From]
+					to, toExists := nodeMap[edge.To]
+					if fromExists && toExists {
+						if err := j.addEdge(g, from, to, edge.Label, edge.Properties); err != nil {
 							return err
 						}
+					} else {
+						edgeQueue = append(edgeQueue, edge)
 					}
-				} else if s == "edges" {
-					var edges []jsonEdge
-					if err := input.Decode(&edges); err != nil {
-						return err
-					}
-					for _, edge := range edges {
-						from, fromExists := nodeMap[edge.From]
-						to, toExists := nodeMap[edge.To]
-						if fromExists && toExists {
-							if err := j.addEdge(g, from, to, edge.Label, edge.Properties); err != nil {
-								return err
-							}
-						} else {
-							edgeQueue = append(edgeQueue, edge)
-						}
-					}
-				} else {
-					depth = 1
 				}
-			} else if tok == json.Delim('}') {
-				for _, edge := range edgeQueue {
-					from, ok := nodeMap[edge.From]
-					if !ok {
-						return ErrInvalidGraph{Msg: fmt.Sprintf("Invalid edge.from: %d", edge.From)}
-					}
-					to, ok := nodeMap[edge.To]
-					if !ok {
-						return ErrInvalidGraph{Msg: fmt.Sprintf("Invalid edge.to: %d", edge.To)}
-					}
-					if err := j.addEdge(g, from, to, edge.Label, edge.Properties); err != nil {
-						return err
-					}
+			} else {
+				// Skip the value of an unknown key
+				var skip json.RawMessage
+				if err := input.Decode(&skip); err != nil {
+					return err
 				}
-				return nil
 			}
-		} else {
-			switch tok {
-			case json.Delim('{'), json.Delim('['):
-				depth++
-			case json.Delim('}'), json.Delim(']'):
-				depth--
-			default:
-				depth--
+		} else if tok == json.Delim('}') {
+			for _, edge := range edgeQueue {
+				from, ok := nodeMap[edge.From]
+				if !ok {
+					return ErrInvalidGraph{Msg: fmt.Sprintf("Invalid edge.from: %d", edge.From)}
+				}
+				to, ok := nodeMap[edge.To]
+				if !ok {
+					return ErrInvalidGraph{Msg: fmt.Sprintf("Invalid edge.to: %d", edge.To)}
+				}
+				if err := j.addEdge(g, from, to, edge.Label, edge.Properties); err != nil {
+					return err
+				}
 			}
+			return nil
 		}
 	}
 }
-- 
2.43.0


From b175ab9a87dc89ad9d2d35dafcf4227f9a8ca116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 17/38] fix: encoding reports property values that JSON cannot
 represent

---
 json.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/json.go b/json.go
index 9b019b6..703a469 100644
--- a/json.go
+++ b/json.go
@@ -180,7 +180,10 @@ func (j JSON) Encode(g *Graph, out io.Writer) error {
 		ret := make(map[string]json.RawMessage)
 		for k, v := range in {
 			if j.PropertyMarshaler == nil {
-				d, _ := json.Marshal(v)
+				d, err := json.Marshal(v)
+				if err != nil {
+					return nil, err
+				}
 				ret[k] = d
 			} else {
 				k, d, err := j.PropertyMarshaler(k, v)
-- 
2.43.0


From 68c30efdd2b1c1d5061fba05aa296569486996af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:58 +0000
Subject: [PATCH 18/38] fix: edge labels are escaped in DOT output

---
 dotrenderer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dotrenderer.go b/dotrenderer.go
index 2a0a9fb..326449f 100644
--- a/dotrenderer.go
+++ b/dotrenderer.go
@@ -17,8 +17,12 @@ package lpg
 import (
 	"fmt"
 	"io"
+	"strings"
 )
 
+// dotEscaper escapes strings to be written in double quotes
+var dotEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`)
+
 // DOTRenderer renders a graph in Graphviz dot format
 type DOTRenderer struct {
 	// NodeRenderer renders a node. If the node is to be excluded, returns false.
@@ -57,7 +61,7 @@ func DefaultDOTNodeRender(ID string, node *Node, w io.Writer) error {
 func DefaultDOTEdgeRender(fromNode, toNode string, edge *Edge, w io.Writer) error {
 	lbl := edge.GetLabel()
 	if len(lbl) != 0 {
-		if _, err := fmt.Fprintf(w, "  %s -> %s [label=\"%s\"];\n", fromNode, toNode, lbl); err != nil {
+		if _, err := fmt.Fprintf(w, "  %s -> %s [label=\"%s\"];\n", fromNode, toNode, dotEscaper.Replace(lbl)); err != nil {
 			return err
 		}
 	} else {
-- 
2.43.0


From 357c71fafa0a6270fdf98e13dc5303d18d95dd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 19/38] fix: an undirected pattern item matches a self-loop
 once

---
 planprocessors.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planprocessors.go b/planprocessors.go
index f9b2994..eed5159 100644
--- a/planprocessors.go
+++ b/planprocessors.go
@@ -145,12 +145,12 @@ func (processor *iterateConnectedEdges) init(ctx *MatchContext) {
 func (processor *iterateConnectedEdges) Run(ctx *MatchContext, next matchAccumulator) error {
 	node := processor.source.GetResult().(*Node)
 	processor.edgeItr = edgeIterator{
-		&filterIterator{
+		makeUniqueIterator(&filterIterator{
 			itr: node.GetEdgesWithAnyLabel(processor.dir, processor.patternItem.Labels),
 			filter: func(item interface{}) bool {
 				return processor.edgeFilter(item.(*Edge))
 			},
-		},
+		}),
 	}
 	if processor.edgeItr == nil {
 		return nil
-- 
2.43.0


From 13cbc0c698559d79fbc248abc0848522f3afab32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 20/38] fix: patterns started from an edge try the directions
 the item allows

---
 planprocessors.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/planprocessors.go b/planprocessors.go
index eed5159..f8259b4 100644
--- a/planprocessors.go
+++ b/planprocessors.go
@@ -100,17 +100,21 @@ func (processor *iterateEdges) init(ctx *MatchContext) {
 func (processor *iterateEdges) Run(ctx *MatchContext, next matchAccumulator) error {
 	processor.init(ctx)
 	for processor.itr.Next() {
-		path := &Path{path: []PathElement{{Edge: processor.itr.Edge()}}}
-		// TODO: find edge dir
-		// if  {
-		// 	path.path[0].Reverse = true
-		// }
-		processor.result = path
-		ctx.recordStepResult(processor)
-		if err := next.Run(ctx); err != nil {
-			return err
+		edge := processor.itr.Edge()
+		// The path goes from the node before the edge in the pattern to the node after it
+		reverse := []bool{processor.patternItem.ToLeft}
+		if processor.patternItem.Undirected && !processor.patternItem.ToLeft && edge.GetFrom() != edge.GetTo() {
+			reverse = []bool{false, true}
+		}
+		for _, rev := range reverse {
+			path := &Path{path: []PathElement{{Edge: edge, Reverse: rev}}}
+			processor.result = path
+			ctx.recordStepResult(processor)
+			if err := next.Run(ctx); err != nil {
+				return err
+			}
+			ctx.resetStepResult(processor)
 		}
-		ctx.resetStepResult(processor)
 	}
 	return nil
 }
@@ -242,6 +246,11 @@ func (processor *iterateConnectedNodes) Run(ctx *MatchContext, next matchAccumul
 		case useFromNode:
 			node = edge.GetFrom()
 		case useAnyNode:
+			if processor.prevOrNextNode == nil {
+				// The search starts from the edge before this node
+				node = edges.Last()
+				break
+			}
 			n := processor.prevOrNextNode.GetResult().(*Node)
 			if edge.GetTo() == n {
 				node = edge.GetFrom()
-- 
2.43.0


From d3a799e88e8b722e30f3528f74f32bad6d23370a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 21/38] fix: paths matched going backwards are reported whole
 and in pattern direction

---
 pattern.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/pattern.go b/pattern.go
index e212cd8..a8d396a 100644
--- a/pattern.go
+++ b/pattern.go
@@ -550,21 +550,36 @@ func (plan MatchPlan) GetCurrentPath() *Path {
 	}
 	revPathOut := &Path{}
 	for i := len(plan.steps) - 1; i >= plan.nForward; i-- {
-		if path, ok := plan.steps[i].GetResult().(*Path); ok {
-			revPathOut.Append(PathElement{Edge: path.path[0].Edge, Reverse: !path.path[0].Reverse})
-			// revPathOut.AppendPath(path)
+		if path, ok := plan.getStepResult(i).(*Path); ok {
+			revPathOut.AppendPath(path)
 		}
 	}
 	return revPathOut.AppendPath(out)
 }
 
+// getStepResult returns the result of a step. The paths found by the
+// steps going backwards are reversed, so all paths have the direction
+// of the pattern
+func (plan MatchPlan) getStepResult(i int) interface{} {
+	result := plan.steps[i].GetResult()
+	path, ok := result.(*Path)
+	if !ok || i <= plan.nForward {
+		return result
+	}
+	out := &Path{path: make([]PathElement, 0, len(path.path))}
+	for k := len(path.path) - 1; k >= 0; k-- {
+		out.path = append(out.path, PathElement{Edge: path.path[k].Edge, Reverse: !path.path[k].Reverse})
+	}
+	return out
+}
+
 // CaptureSymbolValues captures the current symbol values as nodes or []Edges
 func (plan MatchPlan) CaptureSymbolValues() map[string]interface{} {
 	ret := make(map[string]interface{})
-	for _, step := range plan.steps {
+	for i, step := range plan.steps {
 		if len(step.GetPatternItem().Name) > 0 {
 			if _, exists := ret[step.GetPatternItem().Name]; !exists {
-				ret[step.GetPatternItem().Name] = step.GetResult()
+				ret[step.GetPatternItem().Name] = plan.getStepResult(i)
 			}
 		}
 	}
-- 
2.43.0


From f7b6698b7814824702b624a2de636088e5eadf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:54 +0000
Subject: [PATCH 22/38] fix: a repeated variable keeps its value when the
 search backtracks

---
 pattern.go        | 14 ++++++++++----
 planprocessors.go | 30 ++++++++++++++++++++----------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/pattern.go b/pattern.go
index a8d396a..695c455 100644
--- a/pattern.go
+++ b/pattern.go
@@ -295,18 +295,24 @@ type MatchContext struct {
 	variablePathNode *Node
 }
 
-// If the current step has a local symbol, it will be recorded in the context
-func (ctx *MatchContext) recordStepResult(step planProcessor) {
+// If the current step has a local symbol, it will be recorded in the
+// context. Returns true if recorded, false if there is no local symbol,
+// or if it is already recorded by an earlier step
+func (ctx *MatchContext) recordStepResult(step planProcessor) bool {
 	name := step.GetPatternItem().Name
 	if len(name) == 0 {
-		return
+		return false
 	}
 	if _, global := ctx.Symbols[name]; global {
-		return
+		return false
+	}
+	if _, exists := ctx.LocalSymbols[name]; exists {
+		return false
 	}
 	result := &PatternSymbol{}
 	result.Add(step.GetResult())
 	ctx.LocalSymbols[name] = result
+	return true
 }
 
 // resetStepResult will remove the step's local symbol from the context
diff --git a/planprocessors.go b/planprocessors.go
index f8259b4..65e5390 100644
--- a/planprocessors.go
+++ b/planprocessors.go
@@ -61,12 +61,14 @@ func (processor *iterateNodes) Run(ctx *MatchContext, next matchAccumulator) err
 	}
 	for processor.itr.Next() {
 		processor.result = processor.itr.Node()
-		ctx.recordStepResult(processor)
+		recorded := ctx.recordStepResult(processor)
 		logf("iterateNodes: %+v\n", processor.result)
 		if err := next.Run(ctx); err != nil {
 			return err
 		}
-		ctx.resetStepResult(processor)
+		if recorded {
+			ctx.resetStepResult(processor)
+		}
 	}
 	return nil
 }
@@ -109,11 +111,13 @@ func (processor *iterateEdges) Run(ctx *MatchContext, next matchAccumulator) err
 		for _, rev := range reverse {
 			path := &Path{path: []PathElement{{Edge: edge, Reverse: rev}}}
 			processor.result = path
-			ctx.recordStepResult(processor)
+			recorded := ctx.recordStepResult(processor)
 			if err := next.Run(ctx); err != nil {
 				return err
 			}
-			ctx.resetStepResult(processor)
+			if recorded {
+				ctx.resetStepResult(processor)
+			}
 		}
 	}
 	return nil
@@ -169,12 +173,14 @@ func (processor *iterateConnectedEdges) Run(ctx *MatchContext, next matchAccumul
 				path.path[0].Reverse = true
 			}
 			processor.result = path
-			ctx.recordStepResult(processor)
+			recorded := ctx.recordStepResult(processor)
 			logf("IterateConnectedEdges len=1 %+v\n", processor.result)
 			if err := next.Run(ctx); err != nil {
 				return err
 			}
-			ctx.resetStepResult(processor)
+			if recorded {
+				ctx.resetStepResult(processor)
+			}
 		}
 		return nil
 	}
@@ -183,13 +189,15 @@ func (processor *iterateConnectedEdges) Run(ctx *MatchContext, next matchAccumul
 	CollectAllPaths(ctx.Graph, node, processor.edgeItr, processor.edgeFilter, processor.dir, processor.patternItem.Min, processor.patternItem.Max, func(path *Path) bool {
 		processor.result = path
 		logf("IterateConnectedEdges testing len=%d %+v\n", len(path.path), processor.result)
-		ctx.recordStepResult(processor)
+		recorded := ctx.recordStepResult(processor)
 		ctx.variablePathNode = path.Last()
 		if err = next.Run(ctx); err != nil {
 			return false
 		}
 		ctx.variablePathNode = nil
-		ctx.resetStepResult(processor)
+		if recorded {
+			ctx.resetStepResult(processor)
+		}
 		return true
 	})
 
@@ -272,12 +280,14 @@ func (processor *iterateConnectedNodes) Run(ctx *MatchContext, next matchAccumul
 		}
 
 		processor.result = node
-		ctx.recordStepResult(processor)
+		recorded := ctx.recordStepResult(processor)
 		logf("Iterate connected nodes goes deeper\n")
 		if err := next.Run(ctx); err != nil {
 			return err
 		}
-		ctx.resetStepResult(processor)
+		if recorded {
+			ctx.resetStepResult(processor)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 55ba50d4ea28ea676affd53c8b0860861790f94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 23/38] fix: edge variables constrain the edges matched

---
 planprocessors.go | 28 ++++++++++++++++++++++------
 sets.go           |  4 ++++
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/planprocessors.go b/planprocessors.go
index 65e5390..cf4b635 100644
--- a/planprocessors.go
+++ b/planprocessors.go
@@ -84,23 +84,30 @@ type iterateEdges struct {
 	initialized bool
 }
 
-func (processor *iterateEdges) init(ctx *MatchContext) {
+func (processor *iterateEdges) init(ctx *MatchContext) error {
 	if !processor.initialized {
 		processor.initialized = true
 		filterFunc := processor.patternItem.getEdgeFilter()
+		edges, err := processor.patternItem.isConstrainedEdges(ctx)
+		if err != nil {
+			return err
+		}
 		processor.itr = edgeIterator{
 			&filterIterator{
 				itr: processor.itr,
 				filter: func(edge interface{}) bool {
-					return filterFunc(edge.(*Edge))
+					return filterFunc(edge.(*Edge)) && (edges == nil || edges.has(edge.(*Edge)))
 				},
 			},
 		}
 	}
+	return nil
 }
 
 func (processor *iterateEdges) Run(ctx *MatchContext, next matchAccumulator) error {
-	processor.init(ctx)
+	if err := processor.init(ctx); err != nil {
+		return err
+	}
 	for processor.itr.Next() {
 		edge := processor.itr.Edge()
 		// The path goes from the node before the edge in the pattern to the node after it
@@ -152,11 +159,21 @@ func (processor *iterateConnectedEdges) init(ctx *MatchContext) {
 
 func (processor *iterateConnectedEdges) Run(ctx *MatchContext, next matchAccumulator) error {
 	node := processor.source.GetResult().(*Node)
+	constraints, err := processor.patternItem.isConstrainedEdges(ctx)
+	if err != nil {
+		return err
+	}
+	edgeFilter := processor.edgeFilter
+	if constraints != nil {
+		edgeFilter = func(edge *Edge) bool {
+			return processor.edgeFilter(edge) && constraints.has(edge)
+		}
+	}
 	processor.edgeItr = edgeIterator{
 		makeUniqueIterator(&filterIterator{
 			itr: node.GetEdgesWithAnyLabel(processor.dir, processor.patternItem.Labels),
 			filter: func(item interface{}) bool {
-				return processor.edgeFilter(item.(*Edge))
+				return edgeFilter(item.(*Edge))
 			},
 		}),
 	}
@@ -185,8 +202,7 @@ func (processor *iterateConnectedEdges) Run(ctx *MatchContext, next matchAccumul
 		return nil
 	}
 	logf("IterateConnectedEdges min=%d max=%d %+v\n", processor.patternItem.Min, processor.patternItem.Max, processor.result)
-	var err error
-	CollectAllPaths(ctx.Graph, node, processor.edgeItr, processor.edgeFilter, processor.dir, processor.patternItem.Min, processor.patternItem.Max, func(path *Path) bool {
+	CollectAllPaths(ctx.Graph, node, processor.edgeItr, edgeFilter, processor.dir, processor.patternItem.Min, processor.patternItem.Max, func(path *Path) bool {
 		processor.result = path
 		logf("IterateConnectedEdges testing len=%d %+v\n", len(path.path), processor.result)
 		recorded := ctx.recordStepResult(processor)
diff --git a/sets.go b/sets.go
index 21d2c93..d2097b1 100644
--- a/sets.go
+++ b/sets.go
@@ -132,6 +132,10 @@ func (set EdgeSet) Remove(edge *Edge) {
 	set.set.remove(edge.id)
 }
 
+func (set EdgeSet) has(edge *Edge) bool {
+	return set.set.has(edge.id)
+}
+
 func (set EdgeSet) Len() int {
 	return set.set.size()
 }
-- 
2.43.0


From c83a995f779f10b8ff1e4e14e1ba1d3194cb7b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 24/38] fix: a bound variable has one value in a match

---
 pattern.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/pattern.go b/pattern.go
index 695c455..2ba7a3b 100644
--- a/pattern.go
+++ b/pattern.go
@@ -289,23 +289,20 @@ type MatchContext struct {
 	// These are symbols that are used as constraints in the matching process.
 	Symbols map[string]*PatternSymbol
 
-	// localSymbols are symbols defined in the pattern.
+	// localSymbols are the current values of the symbols in the pattern.
 	LocalSymbols map[string]*PatternSymbol
 
 	variablePathNode *Node
 }
 
-// If the current step has a local symbol, it will be recorded in the
-// context. Returns true if recorded, false if there is no local symbol,
-// or if it is already recorded by an earlier step
+// If the current step has a symbol, its value will be recorded in the
+// context. Returns true if recorded, false if there is no symbol, or if
+// it is already recorded by an earlier step
 func (ctx *MatchContext) recordStepResult(step planProcessor) bool {
 	name := step.GetPatternItem().Name
 	if len(name) == 0 {
 		return false
 	}
-	if _, global := ctx.Symbols[name]; global {
-		return false
-	}
 	if _, exists := ctx.LocalSymbols[name]; exists {
 		return false
 	}
@@ -315,15 +312,12 @@ func (ctx *MatchContext) recordStepResult(step planProcessor) bool {
 	return true
 }
 
-// resetStepResult will remove the step's local symbol from the context
+// resetStepResult will remove the step's symbol value from the context
 func (ctx *MatchContext) resetStepResult(step planProcessor) {
 	name := step.GetPatternItem().Name
 	if len(name) == 0 {
 		return
 	}
-	if _, global := ctx.Symbols[name]; global {
-		return
-	}
 	delete(ctx.LocalSymbols, name)
 }
 
-- 
2.43.0


From ec11fe75a6a3890ffc46f7e5418c72ef5070dbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:37 +0000
Subject: [PATCH 25/38] fix: a path made from elements does not share the
 caller's slice

---
 path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/path.go b/path.go
index 0c15a8a..a9c2ef0 100644
--- a/path.go
+++ b/path.go
@@ -31,7 +31,7 @@ type PathElement struct {
 }
 
 func NewPathFromElements(elements ...PathElement) *Path {
-	return &Path{path: elements}
+	return &Path{path: append([]PathElement(nil), elements...)}
 }
 
 func NewPathElementsFromEdges(edges []*Edge) []PathElement {
-- 
2.43.0


From 27b13fdc8ab70ec6b7f9d5cb7be8ac50c760116d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:03 +0000
Subject: [PATCH 26/38] fix: patterns use indexes on edge properties

---
 pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pattern.go b/pattern.go
index 2ba7a3b..95d1edf 100644
--- a/pattern.go
+++ b/pattern.go
@@ -191,7 +191,7 @@ func (p PatternItem) estimateEdgeSize(g *Graph, symbols map[string]*PatternSymbo
 			if maxSize == -1 {
 				continue
 			}
-			if maxSize < max {
+			if max == -1 || maxSize < max {
 				max = maxSize
 				ret = itr
 			}
-- 
2.43.0


From 726d0b49d1184c915b678b815d0b16b647447dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:47 +0000
Subject: [PATCH 27/38] fix: hash indexes forget values that no object has any
 more

---
 hashindex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hashindex.go b/hashindex.go
index 930a477..6472b05 100644
--- a/hashindex.go
+++ b/hashindex.go
@@ -91,6 +91,9 @@ func (ix *hashIndex) remove(value interface{}, id int) {
 		return
 	}
 	fs.remove(id)
+	if fs.size() == 0 {
+		delete(ix.values, value)
+	}
 	ix.elements.Remove(el.(*list.Element))
 }
 
-- 
2.43.0


From 340f7e1ace4b3b64286d676d55e883b646d46a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 28/38] fix: Path.Slice panics for equal indexes at the last
 node

---
 path.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/path.go b/path.go
index a9c2ef0..f7847cd 100644
--- a/path.go
+++ b/path.go
@@ -264,14 +264,14 @@ func (p *Path) Slice(startNodeIndex, endNodeIndex int) *Path {
 	if endNodeIndex < startNodeIndex {
 		panic("")
 	}
-	if startNodeIndex == endNodeIndex {
+	if startNodeIndex == p.NumNodes()-1 {
 		return &Path{
-			only: p.path[startNodeIndex].GetSourceNode(),
+			only: p.Last(),
 		}
 	}
-	if startNodeIndex == p.NumNodes()-1 {
+	if startNodeIndex == endNodeIndex {
 		return &Path{
-			only: p.Last(),
+			only: p.path[startNodeIndex].GetSourceNode(),
 		}
 	}
 	pth := make([]PathElement, endNodeIndex-startNodeIndex-1)
-- 
2.43.0


From 43d6e80d47d1daaac88cda559b42c16d52b4ddf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 29/38] fix: hash indexes hold and search for values that
 cannot be compared

Values that are not hashable panicked, also when searching for them, and
values that are not equal to themselves or whose text changes could not be
removed from the index.
---
 hashindex.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/hashindex.go b/hashindex.go
index 6472b05..5586fac 100644
--- a/hashindex.go
+++ b/hashindex.go
@@ -23,6 +23,10 @@ import (
 // listKey is the hash key of a list value
 type listKey string
 
+// otherKey is the hash key of all values that cannot be compared. They
+// are not equal to any value, and they may not be hashable.
+type otherKey struct{}
+
 // hashKey returns the key to use for a value in a hash index. Values
 // that compare equal have the same key: values are replaced by their
 // native values, and lists by a string representation of their
@@ -51,8 +55,10 @@ func hashKey(value interface{}) interface{} {
 			fmt.Fprintf(&sb, "%T:%d:%s,", key, len(str), str)
 		}
 		return listKey(sb.String())
+	case int, string:
+		return value
 	}
-	return value
+	return otherKey{}
 }
 
 // A hashIndex is a hash table index
@@ -98,10 +104,17 @@ func (ix *hashIndex) remove(value interface{}, id int) {
 }
 
 // find returns the iterator and expected size.
-func (ix *hashIndex) find(value interface{}) Iterator {
+func (ix *hashIndex) find(value interface{}) (ret Iterator) {
 	if ix.values == nil {
 		return emptyIterator{}
 	}
+	// A value that cannot be compared is not equal to any value
+	defer func() {
+		if r := recover(); r != nil {
+			ret = emptyIterator{}
+		}
+	}()
+	ComparePropertyValue(value, value)
 	value = hashKey(value)
 	v, found := ix.values[value]
 	if !found {
-- 
2.43.0


From 74ce11440b57008b828a10096e8013f678f1aa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:24 +0000
Subject: [PATCH 30/38] fix: btree indexes hold values of different kinds

Giving an indexed property values of different kinds, or of kinds that cannot
be compared, panicked and left the index inconsistent. Among others, decoding
a graph with numbers in an indexed property panicked.
---
 btreeindex.go | 69 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 68 insertions(+), 1 deletion(-)

diff --git a/btreeindex.go b/btreeindex.go
index 705dbfc..f6e6776 100644
--- a/btreeindex.go
+++ b/btreeindex.go
@@ -25,7 +25,11 @@ type setTree struct {
 
 func (s *setTree) add(key interface{}, id int, item interface{}) {
 	if s.tree == nil {
-		s.tree = btree.NewWith(16, ComparePropertyValue)
+		s.tree = btree.NewWith(16, compareKeys)
+	}
+	if _, kind := keyKind(key); kind == otherKind {
+		// One key stands for all of these, so do not hold on to this one
+		key = nil
 	}
 	v, found := s.tree.Get(key)
 	if !found {
@@ -51,6 +55,67 @@ func (s setTree) remove(key interface{}, id int) {
 	}
 }
 
+// compareKeys orders all values, so that a tree can hold values of
+// different kinds and values that cannot be compared. Values that can
+// be compared are in the order ComparePropertyValue gives, and values
+// that cannot be compared to anything are kept together.
+func compareKeys(a, b interface{}) int {
+	a, aKind := keyKind(a)
+	b, bKind := keyKind(b)
+	if aKind != bKind {
+		return aKind - bKind
+	}
+	switch aKind {
+	case otherKind:
+		return 0
+	case listKind:
+		aLen, aItem := listItems(a)
+		bLen, bItem := listItems(b)
+		for i := 0; i < aLen && i < bLen; i++ {
+			if c := compareKeys(aItem(i), bItem(i)); c != 0 {
+				return c
+			}
+		}
+		return aLen - bLen
+	}
+	return ComparePropertyValue(a, b)
+}
+
+// Kinds of values that can be compared to each other
+const (
+	intKind = iota
+	stringKind
+	listKind
+	otherKind
+)
+
+// keyKind returns the native value and its kind
+func keyKind(value interface{}) (interface{}, int) {
+	switch v := value.(type) {
+	case WithNativeValue:
+		return keyKind(v.GetNativeValue())
+	case int:
+		return value, intKind
+	case string:
+		return value, stringKind
+	case []int, []string, []interface{}:
+		return value, listKind
+	}
+	return value, otherKind
+}
+
+// listItems returns the length of a list, and a function to get an element of it
+func listItems(list interface{}) (int, func(int) interface{}) {
+	switch v := list.(type) {
+	case []int:
+		return len(v), func(i int) interface{} { return v[i] }
+	case []string:
+		return len(v), func(i int) interface{} { return v[i] }
+	}
+	v := list.([]interface{})
+	return len(v), func(i int) interface{} { return v[i] }
+}
+
 // find returns the iterator and expected size. A key that cannot be
 // compared to the indexed values is not found.
 func (s setTree) find(key interface{}) (ret Iterator) {
@@ -62,6 +127,8 @@ func (s setTree) find(key interface{}) (ret Iterator) {
 			ret = emptyIterator{}
 		}
 	}()
+	// A key that cannot be compared is not equal to any value
+	ComparePropertyValue(key, key)
 	v, found := s.tree.Get(key)
 	if !found {
 		return emptyIterator{}
-- 
2.43.0


From 9c0655e29e6c9b8ae8ec6871ff8820994f2f24d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:13 +0000
Subject: [PATCH 31/38] fix: removed nodes and edges stay out of the graph

---
 edge.go  |  3 ++-
 graph.go | 38 +++++++++++++++++++++++++++++++++-----
 node.go  |  1 +
 3 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/edge.go b/edge.go
index 342d176..e9109f1 100644
--- a/edge.go
+++ b/edge.go
@@ -24,7 +24,8 @@ type Edge struct {
 	from, to *Node
 	label    string
 	properties
-	id int
+	id      int
+	removed bool
 	// 0: all edges list
 	// 1: outgoing edges list
 	// 2: incoming edges list
diff --git a/graph.go b/graph.go
index 7181204..183093d 100644
--- a/graph.go
+++ b/graph.go
@@ -90,10 +90,10 @@ func (g *Graph) NewEdge(from, to *Node, label string, props map[string]any) *Edg
 // panics. This version uses the given properties map directly without
 // copying it.
 func (g *Graph) FastNewEdge(from, to *Node, label string, props map[string]any) *Edge {
-	if from.graph != g {
+	if from.graph != g || from.removed {
 		panic("from node is not in graph")
 	}
-	if to.graph != g {
+	if to.graph != g || to.removed {
 		panic("to node is not in graph")
 	}
 	newEdge := &Edge{
@@ -430,12 +430,17 @@ func GetEdgeFilterFunc(labels StringSet, properties map[string]interface{}) func
 }
 
 func (g *Graph) setNodeLabels(node *Node, labels StringSet) {
-	g.index.nodesByLabel.Replace(node, node.GetLabels(), labels)
+	if !node.removed {
+		g.index.nodesByLabel.Replace(node, node.GetLabels(), labels)
+	}
 	node.labels = labels.Clone()
 }
 
 func (g *Graph) setNodeProperty(node *Node, key string, value interface{}) {
 	nix := g.index.isNodePropertyIndexed(key)
+	if node.removed {
+		nix = nil
+	}
 	if node.properties == nil {
 		node.properties = make(properties)
 	} else {
@@ -480,6 +485,9 @@ func (g *Graph) removeNodeProperty(node *Node, key string) {
 		return
 	}
 	nix := g.index.isNodePropertyIndexed(key)
+	if node.removed {
+		nix = nil
+	}
 	if nix != nil {
 		nix.remove(value, node.id)
 	}
@@ -487,19 +495,25 @@ func (g *Graph) removeNodeProperty(node *Node, key string) {
 }
 
 func (g *Graph) detachRemoveNode(node *Node) {
+	if node.removed {
+		return
+	}
 	g.detachNode(node)
+	node.removed = true
 	g.allNodes.remove(node)
 	g.index.removeNodeFromIndex(node, g)
 }
 
 func (g *Graph) detachNode(node *Node) {
 	for _, edge := range EdgeSlice(node.incoming.iterator(2)) {
+		edge.removed = true
 		g.disconnect(edge)
 		g.allEdges.remove(edge, 0)
 		g.index.removeEdgeFromIndex(edge, g)
 	}
 	node.incoming = edgeMap{}
 	for _, edge := range EdgeSlice(node.outgoing.iterator(1)) {
+		edge.removed = true
 		g.disconnect(edge)
 		g.allEdges.remove(edge, 0)
 		g.index.removeEdgeFromIndex(edge, g)
@@ -508,10 +522,10 @@ func (g *Graph) detachNode(node *Node) {
 }
 
 func (g *Graph) cloneEdge(from, to *Node, sourceEdge *Edge, cloneProperty func(string, interface{}) interface{}) *Edge {
-	if from.graph != g {
+	if from.graph != g || from.removed {
 		panic("from node is not in graph")
 	}
-	if to.graph != g {
+	if to.graph != g || to.removed {
 		panic("to node is not in graph")
 	}
 	newEdge := &Edge{
@@ -541,6 +555,10 @@ func (g *Graph) disconnect(edge *Edge) {
 }
 
 func (g *Graph) setEdgeLabel(edge *Edge, label string) {
+	if edge.removed {
+		edge.label = label
+		return
+	}
 	g.disconnect(edge)
 	g.allEdges.remove(edge, 0)
 	edge.label = label
@@ -549,6 +567,10 @@ func (g *Graph) setEdgeLabel(edge *Edge, label string) {
 }
 
 func (g *Graph) removeEdge(edge *Edge) {
+	if edge.removed {
+		return
+	}
+	edge.removed = true
 	g.disconnect(edge)
 	g.allEdges.remove(edge, 0)
 	g.index.removeEdgeFromIndex(edge, g)
@@ -556,6 +578,9 @@ func (g *Graph) removeEdge(edge *Edge) {
 
 func (g *Graph) setEdgeProperty(edge *Edge, key string, value interface{}) {
 	nix := g.index.isEdgePropertyIndexed(key)
+	if edge.removed {
+		nix = nil
+	}
 	if edge.properties == nil {
 		edge.properties = make(properties)
 	} else {
@@ -581,6 +606,9 @@ func (g *Graph) removeEdgeProperty(edge *Edge, key string) {
 		return
 	}
 	nix := g.index.isEdgePropertyIndexed(key)
+	if edge.removed {
+		nix = nil
+	}
 	if nix != nil {
 		nix.remove(oldValue, edge.id)
 	}
diff --git a/node.go b/node.go
index 8de77d4..0c8b230 100644
--- a/node.go
+++ b/node.go
@@ -29,6 +29,7 @@ type Node struct {
 	incoming edgeMap
 	outgoing edgeMap
 	id       int
+	removed  bool
 }
 
 // GetProperty returns the property value in the string table
-- 
2.43.0


From 715d20b214226d6af4fe0fd74765c1a1fb217b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:44 +0000
Subject: [PATCH 32/38] fix: match plans can run again

---
 planprocessors.go | 66 +++++++++++++++++++++++------------------------
 1 file changed, 32 insertions(+), 34 deletions(-)

diff --git a/planprocessors.go b/planprocessors.go
index cf4b635..7da3fa0 100644
--- a/planprocessors.go
+++ b/planprocessors.go
@@ -22,35 +22,34 @@ type iterateNodes struct {
 	itr         NodeIterator
 	patternItem PatternItem
 	result      *Node
-	initialized bool
 }
 
+// init starts a run of the plan. The plan may have run before, and the
+// graph may have changed since the plan was made
 func (processor *iterateNodes) init(ctx *MatchContext) error {
-	if !processor.initialized {
-		nodeFilter := processor.patternItem.getNodeFilter()
+	processor.itr, _ = processor.patternItem.estimateNodeSize(ctx.Graph, ctx.Symbols)
+	nodeFilter := processor.patternItem.getNodeFilter()
+	processor.itr = nodeIterator{
+		&filterIterator{
+			itr: processor.itr,
+			filter: func(item interface{}) bool {
+				return nodeFilter(item.(*Node))
+			},
+		},
+	}
+	nodes, err := processor.patternItem.isConstrainedNodes(ctx)
+	if err != nil {
+		return err
+	}
+	if nodes != nil {
 		processor.itr = nodeIterator{
 			&filterIterator{
 				itr: processor.itr,
 				filter: func(item interface{}) bool {
-					return nodeFilter(item.(*Node))
+					return nodes.Has(item.(*Node))
 				},
 			},
 		}
-		nodes, err := processor.patternItem.isConstrainedNodes(ctx)
-		if err != nil {
-			return err
-		}
-		if nodes != nil {
-			processor.itr = nodeIterator{
-				&filterIterator{
-					itr: processor.itr,
-					filter: func(item interface{}) bool {
-						return nodes.Has(item.(*Node))
-					},
-				},
-			}
-		}
-		processor.initialized = true
 	}
 	return nil
 }
@@ -81,25 +80,24 @@ type iterateEdges struct {
 	itr         EdgeIterator
 	patternItem PatternItem
 	result      *Path
-	initialized bool
 }
 
+// init starts a run of the plan. The plan may have run before, and the
+// graph may have changed since the plan was made
 func (processor *iterateEdges) init(ctx *MatchContext) error {
-	if !processor.initialized {
-		processor.initialized = true
-		filterFunc := processor.patternItem.getEdgeFilter()
-		edges, err := processor.patternItem.isConstrainedEdges(ctx)
-		if err != nil {
-			return err
-		}
-		processor.itr = edgeIterator{
-			&filterIterator{
-				itr: processor.itr,
-				filter: func(edge interface{}) bool {
-					return filterFunc(edge.(*Edge)) && (edges == nil || edges.has(edge.(*Edge)))
-				},
+	processor.itr, _ = processor.patternItem.estimateEdgeSize(ctx.Graph, ctx.Symbols)
+	filterFunc := processor.patternItem.getEdgeFilter()
+	edges, err := processor.patternItem.isConstrainedEdges(ctx)
+	if err != nil {
+		return err
+	}
+	processor.itr = edgeIterator{
+		&filterIterator{
+			itr: processor.itr,
+			filter: func(edge interface{}) bool {
+				return filterFunc(edge.(*Edge)) && (edges == nil || edges.has(edge.(*Edge)))
 			},
-		}
+		},
 	}
 	return nil
 }
-- 
2.43.0


From 83fa914a7f7d3656cb98055ed8ce1abefb699a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:45 +0000
Subject: [PATCH 33/38] fix: node and edge sets hold objects of different
 graphs

---
 sets.go | 54 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/sets.go b/sets.go
index d2097b1..44528ee 100644
--- a/sets.go
+++ b/sets.go
@@ -18,29 +18,33 @@ import (
 	"container/list"
 )
 
-// A fastSet is a set of objects with constant-time
+// A keyedSet is a set of objects identified by a key, with constant-time
 // insertion/deletion, with iterator support
-type fastSet struct {
-	m map[int]*list.Element
+type keyedSet[K comparable] struct {
+	m map[K]*list.Element
 	l *list.List
 }
 
+// A fastSet is a set of objects of one graph, identified by their ids
+type fastSet struct {
+	keyedSet[int]
+}
+
 func newFastSet() *fastSet {
-	return &fastSet{
-		m: make(map[int]*list.Element),
-		l: list.New(),
-	}
+	f := &fastSet{}
+	f.init()
+	return f
 }
 
-func (f *fastSet) init() {
-	f.m = make(map[int]*list.Element)
+func (f *keyedSet[K]) init() {
+	f.m = make(map[K]*list.Element)
 	f.l = list.New()
 }
 
-func (f fastSet) size() int { return len(f.m) }
+func (f keyedSet[K]) size() int { return len(f.m) }
 
 // Add a new item. Returns true if added
-func (f *fastSet) add(id int, item interface{}) bool {
+func (f *keyedSet[K]) add(id K, item interface{}) bool {
 	_, exists := f.m[id]
 	if exists {
 		return false
@@ -50,7 +54,7 @@ func (f *fastSet) add(id int, item interface{}) bool {
 	return true
 }
 
-func (f *fastSet) get(id int) (interface{}, bool) {
+func (f *keyedSet[K]) get(id K) (interface{}, bool) {
 	el, ok := f.m[id]
 	if !ok {
 		return nil, false
@@ -59,7 +63,7 @@ func (f *fastSet) get(id int) (interface{}, bool) {
 }
 
 // Remove an item. Returns true if removed
-func (f *fastSet) remove(id int) bool {
+func (f *keyedSet[K]) remove(id K) bool {
 	el := f.m[id]
 	if el == nil {
 		return false
@@ -69,17 +73,18 @@ func (f *fastSet) remove(id int) bool {
 	return true
 }
 
-func (f fastSet) has(id int) bool {
+func (f keyedSet[K]) has(id K) bool {
 	_, exists := f.m[id]
 	return exists
 }
 
-func (f fastSet) iterator() Iterator {
+func (f keyedSet[K]) iterator() Iterator {
 	return &listIterator{next: f.l.Front(), size: f.size()}
 }
 
+// NodeSet keeps a set of nodes, which may belong to different graphs
 type NodeSet struct {
-	set fastSet
+	set keyedSet[*Node]
 }
 
 func NewNodeSet() *NodeSet {
@@ -89,15 +94,15 @@ func NewNodeSet() *NodeSet {
 }
 
 func (set *NodeSet) Add(node *Node) {
-	set.set.add(node.id, node)
+	set.set.add(node, node)
 }
 
 func (set NodeSet) Remove(node *Node) {
-	set.set.remove(node.id)
+	set.set.remove(node)
 }
 
 func (set NodeSet) Has(node *Node) bool {
-	return set.set.has(node.id)
+	return set.set.has(node)
 }
 
 func (set NodeSet) Len() int {
@@ -113,9 +118,10 @@ func (set NodeSet) Slice() []*Node {
 	return NodeSlice(set.Iterator())
 }
 
-// EdgeSet keeps an unordered set of edges
+// EdgeSet keeps an unordered set of edges, which may belong to
+// different graphs
 type EdgeSet struct {
-	set fastSet
+	set keyedSet[*Edge]
 }
 
 func NewEdgeSet() *EdgeSet {
@@ -125,15 +131,15 @@ func NewEdgeSet() *EdgeSet {
 }
 
 func (set *EdgeSet) Add(edge *Edge) {
-	set.set.add(edge.id, edge)
+	set.set.add(edge, edge)
 }
 
 func (set EdgeSet) Remove(edge *Edge) {
-	set.set.remove(edge.id)
+	set.set.remove(edge)
 }
 
 func (set EdgeSet) has(edge *Edge) bool {
-	return set.set.has(edge.id)
+	return set.set.has(edge)
 }
 
 func (set EdgeSet) Len() int {
-- 
2.43.0


From bf3b9485fc37e4d48b725ddbd7d0a7d12f35d356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:47 +0000
Subject: [PATCH 34/38] fix: patterns match only what is in the graph

---
 planprocessors.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/planprocessors.go b/planprocessors.go
index 7da3fa0..0d57705 100644
--- a/planprocessors.go
+++ b/planprocessors.go
@@ -33,7 +33,9 @@ func (processor *iterateNodes) init(ctx *MatchContext) error {
 		&filterIterator{
 			itr: processor.itr,
 			filter: func(item interface{}) bool {
-				return nodeFilter(item.(*Node))
+				// variables may be bound to nodes that are not in the graph
+				node := item.(*Node)
+				return node.graph == ctx.Graph && !node.removed && nodeFilter(node)
 			},
 		},
 	}
@@ -95,6 +97,10 @@ func (processor *iterateEdges) init(ctx *MatchContext) error {
 		&filterIterator{
 			itr: processor.itr,
 			filter: func(edge interface{}) bool {
+				// variables may be bound to edges that are not in the graph
+				if e := edge.(*Edge); e.from.graph != ctx.Graph || e.removed {
+					return false
+				}
 				return filterFunc(edge.(*Edge)) && (edges == nil || edges.has(edge.(*Edge)))
 			},
 		},
-- 
2.43.0


From 0e1a85af7abe8d72872ba7d40cf7717079e289a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:48 +0000
Subject: [PATCH 35/38] fix: a graph can be copied into itself

---
 clone.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clone.go b/clone.go
index 7f7911f..18dc563 100644
--- a/clone.go
+++ b/clone.go
@@ -32,15 +32,15 @@ func CopyGraph(source, target *Graph, clonePropertyFunc func(string, interface{}
 // copying a node
 func CopyGraphf(source *Graph, copyNodeFunc func(*Node, map[*Node]*Node) *Node, copyEdgeFunc func(*Edge, map[*Node]*Node) *Edge) map[*Node]*Node {
 	nodeMap := make(map[*Node]*Node)
-	for nodes := source.GetNodes(); nodes.Next(); {
-		node := nodes.Node()
+	// source may be the target of the copy
+	nodes, edges := NodeSlice(source.GetNodes()), EdgeSlice(source.GetEdges())
+	for _, node := range nodes {
 		newNode := copyNodeFunc(node, nodeMap)
 		if newNode != nil {
 			nodeMap[node] = newNode
 		}
 	}
-	for edges := source.GetEdges(); edges.Next(); {
-		edge := edges.Edge()
+	for _, edge := range edges {
 		if _, fromExists := nodeMap[edge.GetFrom()]; !fromExists {
 			continue
 		}
-- 
2.43.0


From 6f7d27f70e45c08107e2b92066a4e734353058af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:49 +0000
Subject: [PATCH 36/38] fix: a refused Append leaves the path as it was

---
 path.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/path.go b/path.go
index f7847cd..e28f337 100644
--- a/path.go
+++ b/path.go
@@ -128,15 +128,13 @@ func (p *Path) Append(path ...PathElement) *Path {
 		fmt.Println(p.String())
 		panic("Appended edge is disconnected from path")
 	}
-	if p.only != nil {
-		p.only = nil
-	}
 	for _, pe := range path {
 		if pe.GetSourceNode() != last {
 			panic("Appended edges are disconnected")
 		}
 		last = pe.GetTargetNode()
 	}
+	p.only = nil
 	p.path = append(p.path, path...)
 	return p
 }
-- 
2.43.0


From 8241be548d77debabc6490ca608666383879f5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:03 +0000
Subject: [PATCH 37/38] fix: patterns may end with an edge

---
 pattern.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pattern.go b/pattern.go
index 95d1edf..f9e70ce 100644
--- a/pattern.go
+++ b/pattern.go
@@ -382,6 +382,10 @@ func (pattern Pattern) GetSymbolNames() StringSet {
 
 // GetPlan returns a match execution plan
 func (pattern Pattern) GetPlan(graph *Graph, symbols map[string]*PatternSymbol) (MatchPlan, error) {
+	if len(pattern) > 0 && len(pattern)%2 == 0 {
+		// The pattern ends with an edge, which leads to any node
+		pattern = append(pattern[:len(pattern):len(pattern)], PatternItem{})
+	}
 	itr, index := pattern.getFastestElement(graph, symbols)
 	plan := MatchPlan{}
 	processors := make([]planProcessor, len(pattern))
-- 
2.43.0


From a8ca434772938cc1a572d048e434fe25a15a56b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:31 +0000
Subject: [PATCH 38/38] fix: edges copied while a property copier adds to the
 graph get ids of their own

---
 graph.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index 183093d..552e793 100644
--- a/graph.go
+++ b/graph.go
@@ -532,11 +532,12 @@ func (g *Graph) cloneEdge(from, to *Node, sourceEdge *Edge, cloneProperty func(s
 		from:  from,
 		to:    to,
 		label: sourceEdge.label,
-		id:    g.idBase,
 	}
 	if sourceEdge.properties != nil {
 		newEdge.properties = sourceEdge.properties.clone(to.graph, g, cloneProperty)
 	}
+	// cloneProperty may have added to the graph
+	newEdge.id = g.idBase
 	g.idBase++
 	g.allEdges.add(newEdge, 0)
 	g.connect(newEdge)
-- 
2.43.0

