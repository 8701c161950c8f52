package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"weak"

	"github.com/cloudprivacylabs/lpg/v2"
)

// C28: what was removed is not kept alive by the graph. The monitor holds weak
// pointers only, and asks the garbage collector.

type blob struct {
	x [8]int
}

type memWorld struct {
	g         *lpg.Graph
	r         *Rnd
	st        *Stats
	nodes     []*lpg.Node
	edges     []*lpg.Edge
	deadN     []weak.Pointer[lpg.Node]
	deadE     []weak.Pointer[lpg.Edge]
	deadV     []weak.Pointer[blob]
	whatN     []string
	whatE     []string
	serial    int
	freshVals bool
}

//go:noinline
func (m *memWorld) props() map[string]interface{} {
	p := map[string]interface{}{}
	if m.r.P(2, 3) {
		p["b"] = &blob{}
	}
	for _, k := range []string{"i", "j", "u"} {
		if m.r.P(1, 2) {
			p[k] = m.value(k)
		}
	}
	return p
}

func (m *memWorld) value(k string) interface{} {
	x := m.r.N(6)
	if m.freshVals {
		m.serial++
		x = m.serial
	}
	if k == "j" {
		return fmt.Sprintf("v%d", x)
	}
	return x
}

func (m *memWorld) labels() []string {
	if m.freshVals && m.r.P(1, 3) {
		m.serial++
		return []string{"A", fmt.Sprintf("L%d", m.serial)}
	}
	return pickSome(m.r, []string{"A", "B", "C", "D"}, 0, 2)
}

func (m *memWorld) label() string {
	if m.freshVals && m.r.P(1, 3) {
		m.serial++
		return fmt.Sprintf("e%d", m.serial)
	}
	return []string{"x", "y", "z"}[m.r.N(3)]
}

func valueOf(get func(string) (interface{}, bool)) (weak.Pointer[blob], bool) {
	v, ok := get("b")
	if !ok {
		return weak.Pointer[blob]{}, false
	}
	return weak.Make(v.(*blob)), true
}

//go:noinline
func (m *memWorld) dropEdge(i int, how string) {
	e := m.edges[i]
	m.deadE = append(m.deadE, weak.Make(e))
	m.whatE = append(m.whatE, how)
	if w, ok := valueOf(e.GetProperty); ok {
		m.deadV = append(m.deadV, w)
	}
	last := len(m.edges) - 1
	m.edges[i] = m.edges[last]
	m.edges[last] = nil
	m.edges = m.edges[:last]
}

//go:noinline
func (m *memWorld) step() {
	r := m.r
	edgeOf := func(n *lpg.Node, how string) {
		for i := 0; i < len(m.edges); {
			if m.edges[i].GetFrom() == n || m.edges[i].GetTo() == n {
				m.dropEdge(i, how)
			} else {
				i++
			}
		}
	}
	switch k := r.N(20); k {
	case 0, 1, 2, 3:
		if r.P(1, 2) {
			m.nodes = append(m.nodes, m.g.NewNode(m.labels(), m.props()))
		} else {
			m.nodes = append(m.nodes, m.g.FastNewNode(lpg.NewStringSet(m.labels()...), m.props()))
		}
	case 4, 5, 6, 7, 8:
		if len(m.nodes) > 0 {
			a, b := m.nodes[r.N(len(m.nodes))], m.nodes[r.N(len(m.nodes))]
			l := []string{"x", "y", "z"}[r.N(3)]
			if r.P(1, 2) {
				m.edges = append(m.edges, m.g.NewEdge(a, b, l, m.props()))
			} else {
				m.edges = append(m.edges, m.g.FastNewEdge(a, b, l, m.props()))
			}
		}
	case 9, 10:
		if len(m.edges) > 0 {
			i := r.N(len(m.edges))
			e := m.edges[i]
			m.dropEdge(i, "Remove")
			e.Remove()
		}
	case 11, 12:
		if len(m.nodes) > 0 {
			i := r.N(len(m.nodes))
			n := m.nodes[i]
			edgeOf(n, "removal of its node")
			m.deadN = append(m.deadN, weak.Make(n))
			m.whatN = append(m.whatN, "DetachAndRemove")
			if w, ok := valueOf(n.GetProperty); ok {
				m.deadV = append(m.deadV, w)
			}
			n.DetachAndRemove()
			last := len(m.nodes) - 1
			m.nodes[i] = m.nodes[last]
			m.nodes[last] = nil
			m.nodes = m.nodes[:last]
		}
	case 13:
		if len(m.nodes) > 0 {
			n := m.nodes[r.N(len(m.nodes))]
			edgeOf(n, "Detach")
			n.Detach()
		}
	case 14, 15:
		if len(m.nodes) > 0 {
			m.nodes[r.N(len(m.nodes))].SetLabels(lpg.NewStringSet(m.labels()...))
		}
	case 16:
		if len(m.edges) > 0 {
			m.edges[r.N(len(m.edges))].SetLabel([]string{"x", "y", "z"}[r.N(3)])
		}
	case 17, 18, 19:
		key := []string{"b", "i", "j", "u"}[r.N(4)]
		if len(m.nodes) > 0 && r.P(1, 2) {
			n := m.nodes[r.N(len(m.nodes))]
			if w, ok := valueOf(n.GetProperty); ok && key == "b" {
				m.deadV = append(m.deadV, w)
			}
			if k == 17 {
				n.RemoveProperty(key)
			} else if key == "b" {
				n.SetProperty(key, &blob{})
			} else {
				n.SetProperty(key, m.value(key))
			}
		} else if len(m.edges) > 0 {
			e := m.edges[r.N(len(m.edges))]
			if w, ok := valueOf(e.GetProperty); ok && key == "b" {
				m.deadV = append(m.deadV, w)
			}
			if k == 17 {
				e.RemoveProperty(key)
			} else if key == "b" {
				e.SetProperty(key, &blob{})
			} else {
				e.SetProperty(key, m.value(key))
			}
		}
	}
}

// use reads the graph in all ways, so that whatever is built lazily or cached
// by reading is there.
//
//go:noinline
func (m *memWorld) use() {
	n := 0
	for it := m.g.GetNodes(); it.Next(); {
		for et := it.Node().GetEdges(lpg.AnyEdge); et.Next(); {
			n++
		}
	}
	for it := m.g.GetNodesWithAllLabels(lpg.NewStringSet("A")); it.Next(); {
		n++
	}
	for it := m.g.FindNodes(lpg.StringSet{}, map[string]interface{}{"i": m.r.N(6)}); it.Next(); {
		n++
	}
	for it := m.g.FindEdges(lpg.NewStringSet("x", "y"), map[string]interface{}{"j": "v1"}); it.Next(); {
		n++
	}
	for it := m.g.GetNodesWithProperty("j"); it.Next(); {
		n++
	}
	for it := m.g.GetEdgesWithProperty("i"); it.Next(); {
		n++
	}
	lpg.Sources(m.g)
	max := 2
	if m.freshVals {
		max = 1 // there may be a hub
	}
	p := lpg.Pattern{{Labels: lpg.NewStringSet("A"), Name: "n"}, {Min: 1, Max: max}, {}}
	acc, _ := p.FindPaths(m.g, nil)
	m.st.Inc("matches looked at", len(acc.Paths))
	m.st.Inc("objects looked at", n)
}

func collect() {
	runtime.GC()
	runtime.GC()
}

func (m *memWorld) audit() error {
	collect()
	for i, w := range m.deadN {
		if w.Value() != nil {
			return fmt.Errorf("a node that was removed (%s) is still reachable: %d nodes and %d edges remain", m.whatN[i], len(m.nodes), len(m.edges))
		}
	}
	for i, w := range m.deadE {
		if w.Value() != nil {
			return fmt.Errorf("an edge that was removed (%s) is still reachable: %d nodes and %d edges remain", m.whatE[i], len(m.nodes), len(m.edges))
		}
	}
	for _, w := range m.deadV {
		if w.Value() != nil {
			return fmt.Errorf("the value of a property that was overwritten or removed is still reachable")
		}
	}
	m.st.Inc("removed nodes released", len(m.deadN))
	m.st.Inc("removed edges released", len(m.deadE))
	m.st.Inc("replaced values released", len(m.deadV))
	m.deadN, m.deadE, m.deadV, m.whatN, m.whatE = nil, nil, nil, nil, nil
	return nil
}

// copies makes a copy of the graph and drops the original.
func (m *memWorld) copies() error {
	var wn []weak.Pointer[lpg.Node]
	var we []weak.Pointer[lpg.Edge]
	wg := weak.Make(m.g)
	for _, n := range m.nodes {
		wn = append(wn, weak.Make(n))
	}
	for _, e := range m.edges {
		we = append(we, weak.Make(e))
	}
	g := m.duplicate()
	m.g, m.nodes, m.edges = g, nil, nil
	collect()
	if wg.Value() != nil {
		return fmt.Errorf("a copy keeps the graph it was made from alive")
	}
	for _, w := range wn {
		if w.Value() != nil {
			return fmt.Errorf("a copy keeps a node of the original alive")
		}
	}
	for _, w := range we {
		if w.Value() != nil {
			return fmt.Errorf("a copy keeps an edge of the original alive")
		}
	}
	m.st.Inc("originals released", 1)
	for it := g.GetNodes(); it.Next(); {
		m.nodes = append(m.nodes, it.Node())
	}
	for it := g.GetEdges(); it.Next(); {
		m.edges = append(m.edges, it.Edge())
	}
	return nil
}

//go:noinline
func (m *memWorld) duplicate() *lpg.Graph {
	g := lpg.NewGraph()
	m.indexes(g)
	clone := func(k string, v interface{}) interface{} {
		if k == "b" {
			return &blob{}
		}
		return v
	}
	switch m.r.N(3) {
	case 0:
		lpg.CopyGraph(m.g, g, clone)
	case 1:
		lpg.CopyGraphf(m.g, func(n *lpg.Node, _ map[*lpg.Node]*lpg.Node) *lpg.Node { return lpg.CopyNode(n, g, clone) },
			func(e *lpg.Edge, nm map[*lpg.Node]*lpg.Node) *lpg.Edge { return lpg.CopyEdge(e, g, clone, nm) })
	case 2:
		nm := map[*lpg.Node]*lpg.Node{}
		for _, n := range m.nodes {
			if nm[n] == nil {
				lpg.CopySubgraph(n, g, clone, nm)
			}
		}
	}
	return g
}

func (m *memWorld) indexes(g *lpg.Graph) {
	for _, k := range []string{"i", "j"} {
		if m.r.P(2, 3) {
			g.AddNodePropertyIndex(k, []lpg.IndexType{lpg.BtreeIndex, lpg.HashIndex}[m.r.N(2)])
		}
		if m.r.P(2, 3) {
			g.AddEdgePropertyIndex(k, []lpg.IndexType{lpg.BtreeIndex, lpg.HashIndex}[m.r.N(2)])
		}
	}
}

//go:noinline
func (m *memWorld) clear() {
	for len(m.edges) > 0 && m.r.P(9, 10) {
		i := m.r.N(len(m.edges))
		e := m.edges[i]
		m.dropEdge(i, "Remove")
		e.Remove()
	}
	for _, n := range m.nodes {
		n.DetachAndRemove()
	}
	m.nodes, m.edges = m.nodes[:0], m.edges[:0]
	for i := range m.nodes[:cap(m.nodes)] {
		m.nodes[:cap(m.nodes)][i] = nil
	}
	for i := range m.edges[:cap(m.edges)] {
		m.edges[:cap(m.edges)][i] = nil
	}
	m.deadN, m.deadE, m.deadV, m.whatN, m.whatE = nil, nil, nil, nil, nil
}

const (
	leakObjects = 1500
	leakCycles  = 6
	leakBytes   = 12 // per object and cycle
)

// growth adds and removes objects over and over; the heap must not grow.
// In half of the runs a few nodes and edges stay all along, among them a hub
// to which part of the others connect, and take ever new labels and values.
func (m *memWorld) growth() error {
	m.freshVals = true
	var residents []*lpg.Node
	var resEdges []*lpg.Edge
	if m.r.P(1, 2) {
		for i := 0; i < 5; i++ {
			residents = append(residents, m.g.NewNode([]string{"A"}, map[string]interface{}{"i": -i, "j": "stays"}))
		}
		for i := 1; i < 5; i++ {
			resEdges = append(resEdges, m.g.NewEdge(residents[0], residents[i], "x", map[string]interface{}{"i": i}),
				m.g.NewEdge(residents[i], residents[0], "y", nil))
		}
	}
	hub := func() {
		n, h := m.nodes[m.r.N(len(m.nodes))], residents[m.r.N(2)]
		if m.r.P(1, 2) {
			n, h = h, n
		}
		m.edges = append(m.edges, m.g.NewEdge(n, h, m.label(), m.props()))
	}
	cycle := func() {
		for i := 0; residents != nil && i < leakObjects/4; i++ {
			n, e := residents[m.r.N(5)], resEdges[m.r.N(len(resEdges))]
			k := []string{"i", "j", "u"}[m.r.N(3)]
			n.SetProperty(k, m.value(k))
			e.SetProperty(k, m.value(k))
			n.SetLabels(lpg.NewStringSet(m.labels()...))
			e.SetLabel(m.label())
		}
		for i := 0; i < leakObjects; i++ {
			m.nodes = append(m.nodes, m.g.NewNode(m.labels(), m.props()))
			if residents != nil && m.r.P(1, 2) {
				hub()
			} else if len(m.nodes) > 1 {
				m.edges = append(m.edges, m.g.NewEdge(m.nodes[m.r.N(len(m.nodes))], m.nodes[m.r.N(len(m.nodes))], m.label(), m.props()))
			}
		}
		for i := 0; i < leakObjects; i++ {
			n, e := m.nodes[m.r.N(len(m.nodes))], m.edges[m.r.N(len(m.edges))]
			k := []string{"i", "j", "u"}[m.r.N(3)]
			n.SetProperty(k, m.value(k))
			e.SetProperty(k, m.value(k))
			n.RemoveProperty([]string{"i", "j", "u"}[m.r.N(3)])
			if i%3 == 0 {
				n.SetLabels(lpg.NewStringSet(m.labels()...))
				e.SetLabel(m.label())
			}
		}
		m.use()
		m.clear()
	}
	heap := func() int64 {
		collect()
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		return int64(ms.HeapAlloc)
	}
	for i := 0; i < 3; i++ {
		cycle()
	}
	best := int64(1) << 62
	for try := 0; try < 3; try++ {
		before := heap()
		for i := 0; i < leakCycles; i++ {
			cycle()
		}
		if d := heap() - before; d < best {
			best = d
		}
		m.st.Inc("cycles of filling and emptying a graph", leakCycles)
		if best < leakBytes*leakObjects*leakCycles {
			m.st.Inc("graphs filled and emptied without growth", 1)
			if residents != nil {
				m.st.Inc("graphs partly emptied without growth", 1)
			}
			return nil
		}
	}
	if m.g.NumNodes() != len(residents) || m.g.NumEdges() != len(resEdges) {
		return fmt.Errorf("%d nodes and %d edges remain, expected %d and %d", m.g.NumNodes(), m.g.NumEdges(), len(residents), len(resEdges))
	}
	return fmt.Errorf("the heap grows by at least %d bytes when a graph is filled with %d nodes and edges and emptied %d times", best, 2*leakObjects, leakCycles)
}

func runC28(c *Case, st *Stats) error {
	ch := &Ch{v: c.Q}
	r := &Rnd{uint64(ch.U()) | uint64(ch.U())<<32}
	m := &memWorld{g: lpg.NewGraph(), r: r, st: st}
	defer runtime.KeepAlive(m)
	m.indexes(m.g)
	st.Sig(hashCase(c))
	if ch.P(1, 40) {
		return m.growth()
	}
	for round := 0; round < 3; round++ {
		for i := 5 + ch.N([]int{20, 60, 400}[ch.N(3)]); i > 0; i-- {
			m.step()
		}
		if ch.P(1, 2) {
			m.use()
		}
		if err := m.audit(); err != nil {
			return fmt.Errorf("round %d: %w", round, err)
		}
		if ch.P(1, 4) {
			if err := m.copies(); err != nil {
				return err
			}
		}
	}
	if m.g.NumNodes() != len(m.nodes) || m.g.NumEdges() != len(m.edges) {
		return fmt.Errorf("%d nodes and %d edges, expected %d and %d", m.g.NumNodes(), m.g.NumEdges(), len(m.nodes), len(m.edges))
	}
	return nil
}

func init() {
	register(&Check{ID: "C28", Quick: 3000, Thorough: 45000, Run: runC28,
		Gen:      func(r *rand.Rand, idx int) *Case { return &Case{Idx: idx, Q: randQ(r, 16)} },
		Required: []string{"removed nodes released", "removed edges released", "replaced values released", "originals released", "graphs filled and emptied without growth", "graphs partly emptied without growth"},
		Rule:     "histories with removals, after which the garbage collector must have released every removed node, edge and replaced value (seen through weak pointers); graphs filled and emptied repeatedly, whose heap must not grow; always non-trivial"})
}
