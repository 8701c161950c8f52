package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"time"

	"github.com/cloudprivacylabs/lpg/v2"
)

// C31: work on everything is timed on a graph and on one scaleRatio times as
// large. Linear work takes scaleRatio times as long, give or take caches and
// logarithms, quadratic work the square of that. One of many attempts within
// the limit is enough, so a loaded machine does not make a violation.

const (
	scaleSmall = 3000
	scaleRatio = 8
	scaleLimit = 3 * scaleRatio
	scaleFloor = 300 * time.Microsecond // times below this count as this
	scaleTries = 12
)

type scaleWorld struct {
	r     *Rnd
	kind  lpg.IndexType
	names [2]string // property keys; the first is indexed
	vals  int       // number of distinct values, 0 if all are distinct
	late  bool
}

type scaleOp struct {
	name string
	// prep builds what is needed for size n and returns the work, which
	// returns how many things it has processed
	prep func(n int) func() int
	want func(n int) int
}

func (s *scaleWorld) graph() *lpg.Graph {
	g := lpg.NewGraph()
	if !s.late {
		s.declare(g)
	}
	return g
}

func (s *scaleWorld) declare(g *lpg.Graph) {
	g.AddNodePropertyIndex("p", s.kind)
	g.AddEdgePropertyIndex("p", s.kind)
}

func (s *scaleWorld) props(i int) map[string]interface{} {
	v := i
	if s.vals > 0 {
		v = i % s.vals
	}
	return map[string]interface{}{"p": v, "q": "text"}
}

func (s *scaleWorld) nodes(g *lpg.Graph, n int) []*lpg.Node {
	l := []string{"A", "B", "C"}
	r := make([]*lpg.Node, 0, n)
	for i := 0; i < n; i++ {
		r = append(r, g.NewNode(l[:i%4], s.props(i)))
	}
	return r
}

// shapes of graphs with n nodes and about n edges
var shapes = []string{"chain", "backward chain", "star", "inward star", "random", "parallel edges", "loops", "binary tree"}

func (s *scaleWorld) edges(g *lpg.Graph, ns []*lpg.Node, shape string) []*lpg.Edge {
	var r []*lpg.Edge
	n := len(ns)
	ls := []string{"x", "y", "z"}
	for i := 1; i < n; i++ {
		a, b := ns[i-1], ns[i]
		switch shape {
		case "backward chain":
			a, b = b, a
		case "star":
			a = ns[0]
		case "inward star":
			a, b = b, ns[0]
		case "random":
			a, b = ns[s.r.N(n)], ns[s.r.N(n)]
		case "parallel edges":
			a, b = ns[0], ns[1]
		case "loops":
			a, b = ns[0], ns[0]
		case "binary tree":
			a, b = ns[(i-1)/2], ns[i]
		}
		r = append(r, g.NewEdge(a, b, ls[i%3], s.props(i)))
	}
	return r
}

type countWriter int

func (c *countWriter) Write(p []byte) (int, error) { *c += countWriter(len(p)); return len(p), nil }

func (s *scaleWorld) ops() []scaleOp {
	all := func(n int) int { return n }
	less := func(n int) int { return n - 1 }
	both := func(n int) int { return 2*n - 1 }
	one := func(int) int { return 1 }
	shape := shapes[s.r.N(len(shapes))]
	whole := func(f func(g *lpg.Graph, ns []*lpg.Node, es []*lpg.Edge) int) func(int) func() int {
		return func(n int) func() int {
			g := s.graph()
			ns := s.nodes(g, n)
			es := s.edges(g, ns, shape)
			return func() int { return f(g, ns, es) }
		}
	}
	perm := func(n int) []int {
		p := make([]int, n)
		for i := range p {
			p[i] = i
		}
		switch s.r.N(3) {
		case 0:
			for i := range p {
				j := i + s.r.N(n-i)
				p[i], p[j] = p[j], p[i]
			}
		case 1:
			for i := range p {
				p[i] = n - 1 - i
			}
		}
		return p
	}
	set := lpg.NewStringSet
	ops := []scaleOp{
		{"create nodes", func(n int) func() int {
			return func() int { return len(s.nodes(s.graph(), n)) }
		}, all},
		{"create edges", func(n int) func() int {
			g := s.graph()
			ns := s.nodes(g, n)
			return func() int { return len(s.edges(g, ns, shape)) }
		}, less},
		{"declare indexes", whole(func(g *lpg.Graph, ns []*lpg.Node, es []*lpg.Edge) int {
			g.AddNodePropertyIndex("q", s.kind)
			g.AddEdgePropertyIndex("q", s.kind)
			s.declare(g)
			return 1
		}), one},
		{"visit all nodes and their edges", whole(func(g *lpg.Graph, ns []*lpg.Node, es []*lpg.Edge) int {
			k := 0
			for it := g.GetNodes(); it.Next(); {
				for e := it.Node().GetEdges(lpg.OutgoingEdge); e.Next(); {
					k++
				}
				for e := it.Node().GetEdgesWithAnyLabel(lpg.IncomingEdge, set("x", "y")); e.Next(); {
				}
			}
			return k
		}), less},
		{"visit all edges", whole(func(g *lpg.Graph, ns []*lpg.Node, es []*lpg.Edge) int {
			k := countE(g.GetEdges())
			countE(g.GetEdgesWithAnyLabel(set("x", "y", "z")))
			return k
		}), less},
		{"look up nodes by a common label", whole(func(g *lpg.Graph, ns []*lpg.Node, es []*lpg.Edge) int {
			countN(g.GetNodesWithAllLabels(set("A", "B")))
			return countN(g.GetNodesWithAllLabels(set()))
		}), all},
		{"look up by presence", whole(func(g *lpg.Graph, ns []*lpg.Node, es []*lpg.Edge) int {
			return countN(g.GetNodesWithProperty("p")) + countE(g.GetEdgesWithProperty("p"))
		}), both},
		{"search by a common value", whole(func(g *lpg.Graph, ns []*lpg.Node, es []*lpg.Edge) int {
			return countN(g.FindNodes(set(), map[string]interface{}{"q": "text"})) + countE(g.FindEdges(set("x", "y", "z"), map[string]interface{}{"q": "text"}))
		}), both},
		{"search every value", whole(func(g *lpg.Graph, ns []*lpg.Node, es []*lpg.Edge) int {
			if s.late {
				s.declare(g)
			}
			vals := len(ns)
			if s.vals > 0 {
				vals = s.vals
			}
			k := 0
			for v := 0; v < vals; v++ {
				q := map[string]interface{}{"p": v}
				k += countN(g.FindNodes(set(), q)) + countE(g.FindEdges(set(), q))
			}
			return k
		}), both},
		{"sources and sinks", whole(func(g *lpg.Graph, ns []*lpg.Node, es []*lpg.Edge) int {
			lpg.Sources(g)
			lpg.Sinks(g)
			k := 0
			lpg.ForEachNode(g, func(*lpg.Node) bool { k++; return true })
			return k
		}), all},
		{"lists of nodes and edges", whole(func(g *lpg.Graph, ns []*lpg.Node, es []*lpg.Edge) int {
			lpg.TargetNodes(g.GetEdges())
			lpg.SourceNodes(g.GetEdges())
			lpg.NextNodesWith(ns[0], "x")
			lpg.PrevNodesWith(ns[0], "x")
			lpg.EdgesBetweenNodes(ns[0], ns[1])
			return len(lpg.NodeSlice(g.GetNodes())) + len(lpg.EdgeSlice(g.GetEdges()))
		}), both},
		{"neighbours by cursor", whole(func(g *lpg.Graph, ns []*lpg.Node, es []*lpg.Edge) int {
			c := &lpg.Cursor{}
			for _, n := range ns {
				c.Set(n)
				if n == ns[0] || n == ns[1] || s.r.P(1, 2) {
					countN(c.NextNodes())
					countN(c.PrevNodesWith("x"))
				}
			}
			return 1
		}), one},
		{"copy the graph", whole(func(g *lpg.Graph, ns []*lpg.Node, es []*lpg.Edge) int {
			t := s.graph()
			lpg.CopyGraph(g, t, ident)
			return t.NumNodes() + t.NumEdges()
		}), both},
		{"copy the graph by functions", whole(func(g *lpg.Graph, ns []*lpg.Node, es []*lpg.Edge) int {
			t := s.graph()
			lpg.CopyGraphf(g, func(n *lpg.Node, _ map[*lpg.Node]*lpg.Node) *lpg.Node { return lpg.CopyNode(n, t, ident) },
				func(e *lpg.Edge, m map[*lpg.Node]*lpg.Node) *lpg.Edge { return lpg.CopyEdge(e, t, ident, m) })
			return t.NumNodes() + t.NumEdges()
		}), both},
		{"copy what can be reached", func(n int) func() int {
			g := s.graph()
			ns := s.nodes(g, n)
			sh := shape
			if sh == "random" || sh == "backward chain" || sh == "inward star" || sh == "parallel edges" || sh == "loops" {
				sh = "chain"
			}
			s.edges(g, ns, sh)
			return func() int {
				t := s.graph()
				lpg.CopySubgraph(ns[0], t, ident, map[*lpg.Node]*lpg.Node{})
				return t.NumNodes() + t.NumEdges()
			}
		}, both},
		{"encode", whole(func(g *lpg.Graph, ns []*lpg.Node, es []*lpg.Edge) int {
			var c countWriter
			if err := (lpg.JSON{MarshalEdgesSeparately: s.late}).Encode(g, &c); err != nil || c == 0 {
				return 0
			}
			return 1
		}), one},
		{"decode", func(n int) func() int {
			g := s.graph()
			s.edges(g, s.nodes(g, n), shape)
			var b bytes.Buffer
			if err := (lpg.JSON{MarshalEdgesSeparately: s.late}).Encode(g, &b); err != nil {
				panic(harnessBug{"encode"})
			}
			return func() int {
				t := lpg.NewGraph()
				if err := (lpg.JSON{}).Decode(t, json.NewDecoder(bytes.NewReader(b.Bytes()))); err != nil {
					return 0
				}
				return t.NumNodes() + t.NumEdges()
			}
		}, both},
		{"render", whole(func(g *lpg.Graph, ns []*lpg.Node, es []*lpg.Edge) int {
			if err := (lpg.DOTRenderer{}).Render(g, "g", io.Discard); err != nil {
				return 0
			}
			return 1
		}), one},
		{"remove all nodes", whole(func(g *lpg.Graph, ns []*lpg.Node, es []*lpg.Edge) int {
			for _, i := range perm(len(ns)) {
				ns[i].DetachAndRemove()
			}
			return len(ns) - g.NumNodes() - g.NumEdges()
		}), all},
		{"remove all nodes in a loop", whole(func(g *lpg.Graph, ns []*lpg.Node, es []*lpg.Edge) int {
			for it := g.GetNodes(); it.Next(); {
				it.Node().DetachAndRemove()
			}
			return len(ns) - g.NumNodes() - g.NumEdges()
		}), all},
		{"remove all edges", whole(func(g *lpg.Graph, ns []*lpg.Node, es []*lpg.Edge) int {
			for _, i := range perm(len(es)) {
				es[i].Remove()
			}
			return len(es) - g.NumEdges()
		}), less},
		{"detach all nodes", whole(func(g *lpg.Graph, ns []*lpg.Node, es []*lpg.Edge) int {
			for _, i := range perm(len(ns)) {
				ns[i].Detach()
			}
			return len(ns) - g.NumEdges()
		}), all},
		{"relabel all", whole(func(g *lpg.Graph, ns []*lpg.Node, es []*lpg.Edge) int {
			for _, i := range perm(len(ns)) {
				ns[i].SetLabels(set("D"))
			}
			for _, i := range perm(len(es)) {
				es[i].SetLabel("w")
			}
			return countN(g.GetNodesWithAllLabels(set("D"))) + countE(g.GetEdgesWithAnyLabel(set("w")))
		}), both},
		{"update all values", whole(func(g *lpg.Graph, ns []*lpg.Node, es []*lpg.Edge) int {
			for _, i := range perm(len(ns)) {
				ns[i].SetProperty("p", -1)
			}
			for _, i := range perm(len(es)) {
				es[i].SetProperty("p", -i)
			}
			for _, i := range perm(len(ns)) {
				ns[i].RemoveProperty("p")
			}
			for _, i := range perm(len(es)) {
				es[i].RemoveProperty("p")
			}
			return 1
		}), one},
		{"match all edges", whole(func(g *lpg.Graph, ns []*lpg.Node, es []*lpg.Edge) int {
			acc, err := lpg.Pattern{{Name: "a"}, {Min: 1, Max: 1, Name: "e"}, {Name: "b"}}.FindPaths(g, nil)
			if err != nil {
				return 0
			}
			acc.GetHeadNodes()
			acc.GetTailNodes()
			return len(acc.Paths)
		}), less},
		{"match two steps of a tree", func(n int) func() int {
			g := s.graph()
			s.edges(g, s.nodes(g, n), []string{"chain", "backward chain"}[s.r.N(2)])
			return func() int {
				acc, err := lpg.Pattern{{}, {Min: 1, Max: 2}, {}}.FindPaths(g, nil)
				if err != nil {
					return 0
				}
				return len(acc.Paths) + 4
			}
		}, func(n int) int { return 2*n + 1 }},
		{"match everything around a hub", func(n int) func() int {
			g := s.graph()
			ns := s.nodes(g, n)
			ns[0].SetLabels(set("hub"))
			sh := []string{"star", "inward star"}[s.r.N(2)]
			s.edges(g, ns, sh)
			root := g.NewNode([]string{"root"}, nil)
			g.NewEdge(root, ns[0], "in", nil)
			e := lpg.PatternItem{Min: 1, Max: 1, ToLeft: sh == "inward star"}
			v := lpg.PatternItem{Min: 1, Max: 2, ToLeft: e.ToLeft}
			if s.r.P(1, 2) {
				e.Undirected, v.Undirected, e.ToLeft, v.ToLeft = true, true, false, false
			}
			if s.r.P(1, 2) {
				e.Name, v.Name = "e", "e"
			}
			if s.r.P(1, 2) {
				e.Labels, v.Labels = set("x", "y", "z"), set("x", "y", "z")
			}
			hub := lpg.PatternItem{Labels: set("hub")}
			return func() int {
				k := 0
				for _, p := range []lpg.Pattern{{hub, e, {}}, {hub, v, {}}, {{Labels: set("root")}, {Min: 1, Max: 1}, {}, e, {}}, {{}, e, hub, e, {Labels: set("root")}}} {
					acc, err := p.FindPaths(g, nil)
					if err != nil {
						return -1
					}
					k += len(acc.Paths)
				}
				sym := &lpg.PatternSymbol{}
				for _, x := range ns {
					sym.Add(x)
				}
				acc, err := lpg.Pattern{hub, e, {Name: "v"}}.FindPaths(g, map[string]*lpg.PatternSymbol{"v": sym})
				if err != nil {
					return -1
				}
				k += len(acc.Paths)
				if k < 4*(n-1) || k > 5*n+5 {
					return -k
				}
				return 1
			}
		}, one},
		{"visit all edges of each node in both directions", whole(func(g *lpg.Graph, ns []*lpg.Node, es []*lpg.Edge) int {
			k := 0
			for _, n := range ns {
				for e := n.GetEdges(lpg.AnyEdge); e.Next(); {
					k++
					if e.Edge().GetFrom() == e.Edge().GetTo() {
						k++
					}
				}
				k += len(lpg.EdgeSlice(n.GetEdgesWithLabel(lpg.IncomingEdge, "none")))
			}
			lpg.EdgesBetweenNodes(ns[0], ns[1])
			if k < 2*(len(ns)-1) {
				return -k
			}
			return 1
		}), one},
		{"collect paths through a hub", func(n int) func() int {
			g := s.graph()
			ns := s.nodes(g, n)
			s.edges(g, ns, "star")
			root := g.NewNode(nil, nil)
			g.NewEdge(root, ns[0], "in", nil)
			dir := []lpg.EdgeDir{lpg.OutgoingEdge, lpg.AnyEdge}[s.r.N(2)]
			return func() int {
				k := 0
				lpg.CollectAllPaths(g, root, root.GetEdges(lpg.OutgoingEdge), func(*lpg.Edge) bool { return true }, dir, 2, -1, func(*lpg.Path) bool { k++; return true })
				return k
			}
		}, less},
		{"collect paths from a node", func(n int) func() int {
			g := s.graph()
			ns := s.nodes(g, n)
			s.edges(g, ns, []string{"star", "binary tree"}[s.r.N(2)])
			return func() int {
				k := 0
				lpg.CollectAllPaths(g, ns[0], ns[0].GetEdges(lpg.OutgoingEdge), func(*lpg.Edge) bool { return true }, lpg.OutgoingEdge, 1, -1, func(*lpg.Path) bool { k++; return true })
				return k
			}
		}, less},
		// each change of a set copies it, so only changes of the whole set count
		{"a large set of strings", func(n int) func() int {
			names := make([]string, n)
			for i := range names {
				names[i] = fmt.Sprintf("l%d", i)
			}
			return func() int {
				l := set(names...)
				m := l.Clone()
				m.Add(names...)
				k := l.Len()
				if !l.HasAllSet(m) || !l.IsEqual(m) || !l.HasAll(names...) || len(l.SortedSlice()) != k {
					return 0
				}
				l.AddSet(m)
				l.Remove("l0", "l1")
				return l.Len() + 2
			}
		}, all},
		{"fill and empty sets", whole(func(g *lpg.Graph, ns []*lpg.Node, es []*lpg.Edge) int {
			a, b, m := lpg.NewNodeSet(), lpg.NewEdgeSet(), lpg.NewNodeMap()
			for _, n := range ns {
				a.Add(n)
				m.Add(n)
			}
			for _, e := range es {
				b.Add(e)
			}
			k := len(a.Slice()) + len(b.Slice())
			countN(m.Iterator())
			for _, i := range perm(len(ns)) {
				a.Remove(ns[i])
				m.Remove(ns[i])
			}
			for _, i := range perm(len(es)) {
				b.Remove(es[i])
			}
			return k - a.Len() - b.Len()
		}), both},
		{"build and take apart a path", func(n int) func() int {
			g := s.graph()
			es := s.edges(g, s.nodes(g, n), "chain")
			return func() int {
				p := &lpg.Path{}
				for _, e := range es {
					p.Append(lpg.PathElement{Edge: e})
				}
				k := p.NumEdges()
				for i, e := range es {
					if p.GetEdge(i) != e || p.GetNode(i) != e.GetFrom() {
						return 0
					}
				}
				q := p.Clone()
				if !p.HasPrefixPath(q) {
					return 0
				}
				if q.Slice(0, k/2+1).AppendPath(q.Slice(k/2, -1)).NumEdges() != k {
					return 0
				}
				_ = len(q.String())
				for i := 0; i < k/2; i++ {
					p.RemoveFirst()
					q.RemoveLast()
				}
				return k
			}
		}, less},
		{"walk a chain and back", func(n int) func() int {
			g := s.graph()
			ns := s.nodes(g, n)
			s.edges(g, ns, "chain")
			return func() int {
				c := (&lpg.Cursor{}).Set(ns[0]).StartPath()
				k := 0
				for {
					it := c.Forward()
					if !it.Next() {
						break
					}
					c.PushToPath(it.Edge())
					k++
				}
				for i := 0; i < k/2; i++ {
					c.PopFromPath()
				}
				return k
			}
		}, less},
		{"text of large nodes", func(n int) func() int {
			g := s.graph()
			p := map[string]interface{}{}
			var ls []string
			for i := 0; i < n; i++ {
				p[fmt.Sprintf("k%d", i)] = i
				ls = append(ls, fmt.Sprintf("l%d", i))
			}
			nd := g.NewNode(ls, p)
			return func() int {
				k := 0
				nd.ForEachProperty(func(string, interface{}) bool { k++; return true })
				if len(nd.String()) < n {
					return 0
				}
				nd.SetLabels(set(append(ls, "new")...))
				return k
			}
		}, all},
	}
	return ops
}

func runC31(c *Case, st *Stats) error {
	ch := &Ch{v: c.Q}
	s := &scaleWorld{r: &Rnd{uint64(ch.U()) | uint64(ch.U())<<32}}
	s.kind = []lpg.IndexType{lpg.BtreeIndex, lpg.HashIndex}[ch.N(2)]
	s.late = ch.P(1, 2)
	s.vals = []int{0, 1, 7, 500}[ch.N(4)]
	for _, op := range s.ops() {
		run := func(n int) (time.Duration, error) {
			f := op.prep(n)
			t := time.Now()
			got := f()
			d := time.Since(t)
			if want := op.want(n); got != want {
				return 0, fmt.Errorf("%s, size %d: %d, expected %d", op.name, n, got, want)
			}
			return d, nil
		}
		small, large := time.Hour, time.Hour
		ok := false
		var spent time.Duration
		for try := 0; try < scaleTries && !ok && (try < 3 || spent < 15*time.Second); try++ {
			if try > 0 {
				runtime.GC()
			}
			// the small one is the larger of two, so that a lucky run does not matter
			var d time.Duration
			for i := 0; i < 2; i++ {
				x, err := run(scaleSmall)
				if err != nil {
					return err
				}
				if x > d {
					d = x
				}
			}
			if d < scaleFloor {
				d = scaleFloor
			}
			if try == 0 || d > small {
				small = d
			}
			x, err := run(scaleSmall * scaleRatio)
			if err != nil {
				return err
			}
			spent += x
			if x < large {
				large = x
			}
			ok = large < scaleLimit*small
			st.Inc("timed runs", 3)
		}
		if path := os.Getenv("SCALE_DEBUG"); path != "" {
			if f, err := os.OpenFile(path, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644); err == nil {
				fmt.Fprintf(f, "%.1f\t%v\t%v\t%s\n", float64(large)/float64(small), small, large, op.name)
				f.Close()
			}
		}
		if !ok {
			return fmt.Errorf("%s takes %v for size %d, but %v for size %d, at best", op.name, small, scaleSmall, large, scaleSmall*scaleRatio)
		}
		st.Inc("operations in proportion to the size", 1)
		st.Inc("op: "+op.name, 1)
	}
	st.Sig(hashCase(c))
	return nil
}

func init() {
	register(&Check{ID: "C31", Quick: 24, Thorough: 500, Run: runC31, Jobs: 4, NoShrink: true,
		Gen:      func(r *rand.Rand, idx int) *Case { return &Case{Idx: idx, Q: randQ(r, 8)} },
		Required: []string{"operations in proportion to the size"},
		Rule:     "every kind of work on a whole graph, set or path, of size 3000 and 24000, shapes, values, indexes and orders drawn at random; always non-trivial"})
}
