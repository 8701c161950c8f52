package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"time"

	"github.com/cloudprivacylabs/lpg/v2"
)

// C27: operations that select or touch a few objects of a large graph are
// timed against a plain walk over all objects. An operation is fast enough as
// soon as one of many attempts takes less than a tenth of the walk (at least
// costFloor), so neither the load of the machine nor the garbage collector
// makes a violation; needing time in proportion to the graph does.

const (
	costNodes  = 120000
	costRatio  = 10
	costFloor  = 100 * time.Microsecond
	costTries  = 60
	costRounds = 3
)

type costWorld struct {
	g         *lpg.Graph
	ch        *Ch
	st        *Stats
	nodes     []*lpg.Node
	rare      []*lpg.Node
	hub       *lpg.Node
	rareE     []*lpg.Edge // edges labelled r, some at the hub
	hubE      *lpg.Edge   // an edge of the hub
	indexed   string
	keepN     *lpg.Node
	walkN     time.Duration
	walkE     time.Duration
	hubOut    int
	rareAtHub int
	commonE   []*lpg.Edge
	at        int // a unique value
}

func (c *costWorld) build() {
	ch := c.ch
	c.g = lpg.NewGraph()
	kind := lpg.BtreeIndex
	c.indexed = "btree"
	if ch.P(1, 2) {
		kind, c.indexed = lpg.HashIndex, "hash"
	}
	early := ch.P(1, 2)
	declare := func() {
		for _, k := range []string{"few", "many", "all", "uniq"} {
			c.g.AddNodePropertyIndex(k, kind)
			c.g.AddEdgePropertyIndex(k, kind)
		}
	}
	if early {
		declare()
	}
	rareAt := map[int]bool{}
	for len(rareAt) < 4 {
		rareAt[1+ch.N(costNodes-2)+len(rareAt)%2] = true
		if ch.Done() && len(rareAt) > 0 {
			rareAt[len(rareAt)+7] = true
		}
	}
	for i := 0; i < costNodes; i++ {
		ls := []string{"Common"}
		if i%2 == 0 {
			ls = append(ls, "Half")
		}
		p := map[string]interface{}{"all": i % 50, "plain": i % 7, "uniq": i}
		if i%2 == 1 {
			p["many"] = "v"
		}
		if rareAt[i] {
			ls = append(ls, "Rare")
			p["few"] = "w"
			p["all"] = 99
		}
		n := c.g.NewNode(ls, p)
		c.nodes = append(c.nodes, n)
		if rareAt[i] {
			c.rare = append(c.rare, n)
		}
	}
	c.hub = c.nodes[0]
	edge := func(from, to *lpg.Node, l string, p map[string]interface{}) *lpg.Edge {
		return c.g.NewEdge(from, to, l, p)
	}
	for i := 1; i < costNodes; i++ {
		p := map[string]interface{}{"all": i % 50, "plain": i % 7, "uniq": i}
		if i%2 == 1 {
			p["many"] = "v"
		}
		if i%4001 == 0 {
			p["few"] = "w"
		}
		if i%5003 == 0 {
			p["all"] = 99
		}
		switch {
		case rareAt[i] || rareAt[i-1] || i%2 == 0: // a chain
			c.commonE = append(c.commonE, edge(c.nodes[i], c.nodes[i-1], "c", p))
		case i%4 == 1: // out of the hub
			e := edge(c.hub, c.nodes[i], "h", p)
			if c.hubE == nil && i > costNodes/3 {
				c.hubE = e
			}
			c.hubOut++
		default: // into the hub
			edge(c.nodes[i], c.hub, "h", p)
		}
	}
	for i, n := range c.rare {
		from, to := n, c.nodes[(i*977+13)%costNodes]
		if to == c.hub {
			to = c.rare[0]
		}
		c.rareE = append(c.rareE, edge(from, to, "r", map[string]interface{}{"few": "w", "all": 99}))
	}
	for i := 0; i < 3; i++ {
		c.rareE = append(c.rareE, edge(c.hub, c.nodes[(i*101+costNodes/2)%costNodes], "r", map[string]interface{}{"few": "w", "all": 99}))
		c.rareAtHub++
	}
	if !early {
		declare()
	}
	c.keepN = c.nodes[len(c.nodes)/2+3]
	c.at = 1 + ch.N(costNodes-2)
	runtime.GC()
}

func (c *costWorld) walks() {
	c.walkN, c.walkE = time.Hour, time.Hour
	for i := 0; i < 5; i++ {
		t := time.Now()
		n := 0
		for it := c.g.GetNodes(); it.Next(); {
			if it.Node() != nil {
				n++
			}
		}
		if d := time.Since(t); d < c.walkN {
			c.walkN = d
		}
		t = time.Now()
		for it := c.g.GetEdges(); it.Next(); {
			if it.Edge() != nil {
				n++
			}
		}
		if d := time.Since(t); d < c.walkE {
			c.walkE = d
		}
	}
}

type costOp struct {
	name string
	want int
	f    func() int
}

func countN(it lpg.NodeIterator) int {
	n := 0
	for it.Next() {
		n++
	}
	return n
}

func countE(it lpg.EdgeIterator) int {
	n := 0
	for it.Next() {
		n++
	}
	return n
}

func (c *costWorld) ops() []costOp {
	g, ch := c.g, c.ch
	set := lpg.NewStringSet
	rare := len(c.rare)
	props := func(kv ...interface{}) map[string]interface{} {
		m := map[string]interface{}{}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1]
		}
		return m
	}
	few := 0
	for _, k := range []string{"few"} {
		for it := g.GetEdges(); it.Next(); {
			if _, ok := it.Edge().GetProperty(k); ok {
				few++
			}
		}
	}
	all99 := 0
	for it := g.GetEdges(); it.Next(); {
		if v, _ := it.Edge().GetProperty("all"); v == 99 {
			all99++
		}
	}
	pat := func(p lpg.Pattern) func() int {
		return func() int {
			acc := &lpg.DefaultMatchAccumulator{}
			if err := p.Run(g, nil, acc); err != nil {
				return -1
			}
			return len(acc.Paths)
		}
	}
	node := c.nodes[1+ch.N(len(c.nodes)-1)]
	rn := c.rare[ch.N(len(c.rare))]
	outRare := countE(rn.GetEdges(lpg.OutgoingEdge))
	anyRare := 0
	for _, n := range c.rare {
		anyRare += countE(n.GetEdges(lpg.OutgoingEdge))
	}
	first := func() int {
		it := g.GetNodes()
		it.Next()
		e := g.GetEdges()
		e.Next()
		l := g.GetNodesWithAllLabels(set("Common"))
		l.Next()
		m := g.GetEdgesWithAnyLabel(set("c"))
		m.Next()
		h := c.hub.GetEdges(lpg.AnyEdge)
		h.Next()
		p := g.GetNodesWithProperty("many")
		p.Next()
		f := g.FindNodes(set("Common"), props("all", 3))
		f.Next()
		u := g.GetNodesWithProperty("uniq")
		u.Next()
		v := g.GetEdgesWithProperty("uniq")
		v.Next()
		if u.Node() == nil || v.Edge() == nil {
			return 0
		}
		if it.Node() == nil || e.Edge() == nil || l.Node() == nil || m.Edge() == nil || h.Edge() == nil || p.Node() == nil || f.Node() == nil {
			return 0
		}
		it.MaxSize()
		e.MaxSize()
		return 1
	}
	r := []costOp{
		{"NumNodes and NumEdges", 2 * (len(c.nodes) + len(c.commonE)), func() int { g.NumNodes(); g.NumEdges(); return 2 * (len(c.nodes) + len(c.commonE)) }},
		{"first elements of iterators", 1, first},
		{"nodes with a rare label", rare, func() int { return countN(g.GetNodesWithAllLabels(set("Rare"))) }},
		{"nodes with a rare and a common label", rare, func() int { return countN(g.GetNodesWithAllLabels(set("Rare", "Common"))) }},
		{"nodes with an absent label", 0, func() int { return countN(g.GetNodesWithAllLabels(set("None", "Common"))) }},
		{"edges with a rare label", len(c.rareE), func() int { return countE(g.GetEdgesWithAnyLabel(set("r", "none"))) }},
		{"edges with an absent label", 0, func() int { return countE(g.GetEdgesWithAnyLabel(set("none"))) }},
		{"rare edges of a large node", c.rareAtHub, func() int { return countE(c.hub.GetEdgesWithLabel(lpg.OutgoingEdge, "r")) }},
		{"rare edges of a large node, any label", c.rareAtHub, func() int { return countE(c.hub.GetEdgesWithAnyLabel(lpg.OutgoingEdge, set("r", "none"))) }},
		{"rare edges of a large node, both directions", c.rareAtHub, func() int { return countE(c.hub.GetEdgesWithLabel(lpg.AnyEdge, "r")) }},
		{"edges of a small node", outRare, func() int { return countE(rn.GetEdges(lpg.OutgoingEdge)) }},
		{"nodes having a rare indexed property", rare, func() int { return countN(g.GetNodesWithProperty("few")) }},
		{"edges having a rare indexed property", few, func() int { return countE(g.GetEdgesWithProperty("few")) }},
		{"nodes by a rare indexed value", rare, func() int { return countN(g.FindNodes(set(), props("all", 99))) }},
		{"nodes by an absent indexed value", 0, func() int { return countN(g.FindNodes(set(), props("all", 1234))) }},
		{"nodes by a rare value and a common label", rare, func() int { return countN(g.FindNodes(set("Common"), props("all", 99))) }},
		{"nodes by a rare and a common value", rare, func() int { return countN(g.FindNodes(set(), props("all", 99, "few", "w"))) }},
		{"nodes by a rare value and an unindexed one", -2, func() int { countN(g.FindNodes(set(), props("all", 99, "plain", 3))); return -2 }},
		{"nodes by a rare label", rare, func() int { return countN(g.FindNodes(set("Rare"), nil)) }},
		{"nodes by a rare label and a common value", -2, func() int { countN(g.FindNodes(set("Rare"), props("many", "v"))); return -2 }},
		{"nodes by a rare label and an unindexed value", -2, func() int { countN(g.FindNodes(set("Rare", "Common"), props("plain", 3))); return -2 }},
		{"a node by a unique value", 1, func() int { return countN(g.FindNodes(set("Common"), props("uniq", c.at))) }},
		{"edges by a unique value", -2, func() int { countE(g.FindEdges(set("c", "h", "r"), props("uniq", c.at))); return -2 }},
		{"change a unique value", 1, func() int {
			c.keepN.SetProperty("uniq", -1)
			c.keepN.RemoveProperty("uniq")
			c.keepN.SetProperty("uniq", len(c.nodes)/2+3)
			c.hubE.SetProperty("uniq", -1)
			return 1
		}},
		{"edges by a rare indexed value", all99, func() int { return countE(g.FindEdges(set(), props("all", 99))) }},
		{"edges by a rare value and a common label", -2, func() int { countE(g.FindEdges(set("c", "h"), props("all", 99))); return -2 }},
		{"edges by an absent indexed value", 0, func() int { return countE(g.FindEdges(set("c"), props("all", 1234))) }},
		{"edges by a rare label", len(c.rareE), func() int { return countE(g.FindEdges(set("r"), nil)) }},
		{"edges by a rare label and an unindexed value", 0, func() int { return countE(g.FindEdges(set("r"), props("plain", 3))) }},
		{"add and remove a node", 1, func() int {
			n := g.NewNode([]string{"Common", "Rare"}, props("all", 99, "few", "w", "many", "v", "plain", 1))
			n.DetachAndRemove()
			return 1
		}},
		{"add and remove a bare node", 1, func() int {
			n := g.FastNewNode(set(), nil)
			n.DetachAndRemove()
			return 1
		}},
		{"add and remove an edge", 1, func() int {
			e := g.NewEdge(node, rn, "c", props("all", 3, "many", "v"))
			e.Remove()
			return 1
		}},
		{"add and remove an edge of a large node", 1, func() int {
			e := g.NewEdge(c.hub, c.keepN, "h", nil)
			f := g.NewEdge(c.keepN, c.hub, "h", props("few", "w"))
			e.Remove()
			f.Remove()
			return 1
		}},
		{"move an old edge of a large node", 1, func() int {
			from, to := c.hubE.GetFrom(), c.hubE.GetTo()
			c.hubE.Remove()
			c.hubE = g.NewEdge(from, to, "h", props("all", 7, "many", "v", "plain", 2))
			return 1
		}},
		{"add and remove a node at a large node", 1, func() int {
			n := g.NewNode([]string{"Common"}, props("all", 5))
			g.NewEdge(n, c.hub, "h", nil)
			g.NewEdge(c.hub, n, "h", nil)
			n.DetachAndRemove()
			return 1
		}},
		{"detach a node from a large node", 1, func() int {
			n := g.NewNode([]string{"Common"}, props("all", 5))
			g.NewEdge(n, c.hub, "h", nil)
			g.NewEdge(c.hub, n, "h", nil)
			n.Detach()
			n.DetachAndRemove()
			return 1
		}},
		{"relabel an edge of a large node", 1, func() int {
			c.hubE.SetLabel("c")
			c.hubE.SetLabel("h")
			return 1
		}},
		{"relabel a node", 1, func() int {
			old := node.GetLabels()
			node.SetLabels(set("Half", "Rare"))
			node.SetLabels(set())
			node.SetLabels(old)
			return 1
		}},
		{"change properties of a node", 1, func() int {
			for _, k := range []string{"all", "many", "plain"} {
				v, ok := node.GetProperty(k)
				if k == "many" {
					node.SetProperty(k, "z")
				} else {
					node.SetProperty(k, 98)
				}
				node.RemoveProperty(k)
				if ok {
					node.SetProperty(k, v)
				}
			}
			return 1
		}},
		{"change properties of an edge", 1, func() int {
			for _, k := range []string{"all", "many", "plain"} {
				v, ok := c.hubE.GetProperty(k)
				if k == "many" {
					c.hubE.SetProperty(k, "z")
				} else {
					c.hubE.SetProperty(k, 98)
				}
				c.hubE.RemoveProperty(k)
				if ok {
					c.hubE.SetProperty(k, v)
				}
			}
			return 1
		}},
		{"read a node next to a large node", 1, func() int {
			n := c.hubE.GetTo()
			n.GetLabels()
			n.GetProperty("all")
			n.GetGraph()
			n.ForEachProperty(func(string, interface{}) bool { return true })
			countE(n.GetEdges(lpg.AnyEdge))
			lpg.PrevNodesWith(n, "h")
			lpg.NextNodesWith(n, "c")
			lpg.EdgesBetweenNodes(n, c.hub)
			return 1
		}},
		{"walk with a cursor", 1, func() int {
			cur := (&lpg.Cursor{}).Set(rn)
			cur.StartPath()
			for it := cur.Forward(); it.Next(); {
				cur.PushToPath(it.Edge())
				cur.PopFromPath()
			}
			countN(cur.Nodes(lpg.OutgoingEdge))
			return 1
		}},
		{"pattern from a rare label", rare, pat(lpg.Pattern{{Labels: set("Rare")}})},
		{"pattern from a rare label along edges", anyRare, pat(lpg.Pattern{{Labels: set("Rare")}, {Min: 1, Max: 1}, {}})},
		{"pattern to a rare label", anyRare, pat(lpg.Pattern{{Labels: set("Common")}, {Min: 1, Max: 1, ToLeft: true}, {Labels: set("Rare")}})},
		{"pattern with a rare edge value", all99, pat(lpg.Pattern{{}, {Min: 1, Max: 1, Properties: props("all", 99)}, {}})},
		{"pattern with a rare value", anyRare, pat(lpg.Pattern{{Properties: props("all", 99)}, {Min: 1, Max: 1}, {}})},
	}
	// containers of all nodes and edges, and a long path
	ns, es, nm := lpg.NewNodeSet(), lpg.NewEdgeSet(), lpg.NewNodeMap()
	for i, n := range c.nodes {
		if i > 0 {
			ns.Add(n)
			nm.Add(n)
		}
	}
	for _, e := range c.commonE {
		es.Add(e)
	}
	e := g.NewEdge(c.keepN, c.keepN, "c", nil)
	var el []lpg.PathElement
	for i := 0; i < 60000; i++ {
		el = append(el, lpg.PathElement{Edge: e})
	}
	long := lpg.NewPathFromElements(el...)
	small := lpg.NewGraph()
	s1, s2 := small.NewNode([]string{"Common"}, props("all", 4)), small.NewNode(nil, nil)
	small.NewEdge(s1, s2, "c", props("many", "v"))
	r = append(r,
		costOp{"use of a large node set", 1, func() int {
			if ns.Has(c.hub) || ns.Len() != len(c.nodes)-1 {
				return 0
			}
			ns.Add(c.hub)
			ns.Add(c.keepN)
			ns.Remove(c.keepN)
			ns.Add(c.keepN)
			ns.Remove(c.hub)
			it := ns.Iterator()
			it.Next()
			return 1
		}},
		costOp{"use of a large edge set", len(c.commonE), func() int {
			es.Add(e)
			es.Remove(e)
			es.Remove(c.commonE[len(c.commonE)/2])
			es.Add(c.commonE[len(c.commonE)/2])
			return es.Len()
		}},
		costOp{"use of a large node map", 1, func() int {
			nm.Add(c.hub)
			nm.Remove(c.hub)
			nm.Replace(c.keepN, set("Common"), set("Half"))
			nm.Replace(c.keepN, set("Half"), set("Common"))
			return 1
		}},
		costOp{"use of a long path", 60000, func() int {
			long.Append(lpg.PathElement{Edge: e})
			long.RemoveLast()
			long.RemoveFirst()
			long.Append(lpg.PathElement{Edge: e})
			if long.First() != c.keepN || long.Last() != c.keepN || long.GetNode(5000) != c.keepN || long.GetEdge(3) != e || long.IsEmpty() {
				return -1
			}
			return long.NumEdges()
		}},
		costOp{"copy a small graph into a large one", 2, func() int {
			m := lpg.CopyGraph(small, g, ident)
			for _, n := range m {
				n.DetachAndRemove()
			}
			return len(m)
		}},
		costOp{"stop visiting nodes at once", 1, func() int {
			k := 0
			lpg.ForEachNode(g, func(*lpg.Node) bool { k++; return false })
			return k
		}},
		costOp{"paths of one edge from a small node", outRare, func() int {
			k := 0
			lpg.CollectAllPaths(g, rn, rn.GetEdges(lpg.OutgoingEdge), func(*lpg.Edge) bool { return true }, lpg.OutgoingEdge, 1, 1, func(*lpg.Path) bool { k++; return true })
			return k
		}},
		costOp{"pattern from a bound variable", outRare, func() int {
			sym := &lpg.PatternSymbol{}
			sym.Add(rn)
			acc := &lpg.DefaultMatchAccumulator{}
			p := lpg.Pattern{{Name: "x"}, {Min: 1, Max: 1}, {}}
			if err := p.Run(g, map[string]*lpg.PatternSymbol{"x": sym}, acc); err != nil {
				return -1
			}
			return len(acc.Paths)
		}},
		costOp{"declare an index again", 1, func() int {
			g.AddNodePropertyIndex("all", lpg.BtreeIndex)
			g.AddEdgePropertyIndex("all", lpg.HashIndex)
			return 1
		}},
	)
	return r
}

func runC27(c *Case, st *Stats) error {
	w := &costWorld{ch: &Ch{v: c.Q}, st: st}
	w.build()
	ops := w.ops()
	// in another order each time, since updates change the layout
	for i := range ops {
		j := i + w.ch.N(len(ops)-i)
		ops[i], ops[j] = ops[j], ops[i]
	}
	w.walks()
	st.Logf("%d nodes, %d edges, %s indexes; walks take %v and %v", w.g.NumNodes(), w.g.NumEdges(), w.indexed, w.walkN, w.walkE)
	for _, op := range ops {
		best := time.Hour
		fast := false
		for round := 0; round < costRounds && !fast; round++ {
			if round > 0 {
				runtime.GC()
				time.Sleep(50 * time.Millisecond)
				w.walks()
				best = time.Hour
			}
			limit := w.walkN / costRatio
			if w.walkE/costRatio < limit {
				limit = w.walkE / costRatio
			}
			if limit < costFloor {
				limit = costFloor
			}
			for try := 0; try < costTries; try++ {
				t := time.Now()
				got := op.f()
				d := time.Since(t)
				if got != op.want {
					return fmt.Errorf("%s: %d, expected %d", op.name, got, op.want)
				}
				if d < best {
					best = d
				}
				st.Inc("timed operations", 1)
				if d < limit {
					fast = true
					break
				}
			}
		}
		if os.Getenv("COST_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "%-50s %v\n", op.name, best)
		}
		if !fast {
			return fmt.Errorf("%s takes %v at best in a graph of %d nodes and %d edges (%s indexes); walking over all nodes takes %v, over all edges %v", op.name, best, w.g.NumNodes(), w.g.NumEdges(), w.indexed, w.walkN, w.walkE)
		}
		st.Inc("operations independent of the size", 1)
		st.Inc("op: "+op.name, 1)
	}
	if w.walkN < 2*costFloor || w.walkE < 2*costFloor {
		st.Inc("walks too short to compare", 1)
	} else {
		st.Inc("walks long enough to compare", 1)
	}
	st.Inc(w.indexed+" indexes", 1)
	st.Sig(hashCase(c))
	return nil
}

func init() {
	register(&Check{ID: "C27", Quick: 30, Thorough: 600, Run: runC27, Jobs: 2, NoShrink: true,
		Gen:      func(r *rand.Rand, idx int) *Case { return &Case{Idx: idx, Q: randQ(r, 80)} },
		Required: []string{"operations independent of the size", "walks long enough to compare", "btree indexes", "hash indexes"},
		Rule:     "graphs of 120000 nodes with rare and common labels, indexed values and a node with 60000 edges; every operation that selects or touches a few objects, in random order; always non-trivial"})
}
