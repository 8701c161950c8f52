package main

import (
	"fmt"
	"math/rand"
	"sort"

	"github.com/cloudprivacylabs/lpg/v2"
)

// C09: copies between three graphs with histories of their own.

// copier is a property copier that changes values within their kind.
func copier(mode int) func(string, interface{}) interface{} {
	return func(k string, v interface{}) interface{} {
		switch x := v.(type) {
		case int:
			if mode&1 != 0 {
				return x + 100
			}
		case string:
			if mode&2 != 0 {
				return x + "'"
			}
		case []int:
			if mode&1 != 0 {
				return append([]int{}, x...)
			}
		}
		return v
	}
}

func mapProps(p map[string]interface{}, f func(string, interface{}) interface{}) map[string]interface{} {
	r := map[string]interface{}{}
	for k, v := range p {
		r[k] = f(k, v)
	}
	return r
}

func edgeDesc(from, to *MN, label string, props map[string]interface{}) string {
	return fmt.Sprintf("%s-%q%s->%s", from.name, label, fmtProps(props), to.name)
}

// adopt finds, among the edges of the target that its model does not know, one
// for each expected edge, and adds them to the model.
func (w *World) adopt(want []*ME) error {
	known := map[*lpg.Edge]bool{}
	for _, m := range w.edges {
		known[m.e] = true
	}
	byNode := map[*lpg.Node]*MN{}
	for _, m := range w.nodes {
		byNode[m.n] = m
	}
	all, ended := drainEdges(w.g.GetEdges(), len(w.edges)+len(want))
	if !ended {
		return fmt.Errorf("too many edges in the target: %d known, %d copied", len(w.edges), len(want))
	}
	byDesc := map[string][]*ME{}
	var ws []string
	for _, m := range want {
		d := edgeDesc(m.from, m.to, m.label, m.props)
		byDesc[d] = append(byDesc[d], m)
		ws = append(ws, d)
	}
	var gs []string
	n := 0
	for _, e := range all {
		if known[e] {
			continue
		}
		known[e] = true
		p := map[string]interface{}{}
		e.ForEachProperty(func(k string, v interface{}) bool { p[k] = v; return true })
		f, t := byNode[e.GetFrom()], byNode[e.GetTo()]
		if f == nil || t == nil {
			return fmt.Errorf("an edge of the target has an endpoint that is not a node of the target")
		}
		d := edgeDesc(f, t, e.GetLabel(), p)
		gs = append(gs, d)
		if l := byDesc[d]; len(l) > 0 {
			m := l[0]
			byDesc[d] = l[1:]
			w.addME(e, m.from, m.to, m.label, m.props)
			n++
		}
	}
	if n != len(want) || len(gs) != n {
		sort.Strings(ws)
		sort.Strings(gs)
		return fmt.Errorf("edges added to the target: %v, expected %v", gs, ws)
	}
	return nil
}

func reach(a adj, roots []*MN) map[*MN]bool {
	seen := map[*MN]bool{}
	var rec func(m *MN)
	rec = func(m *MN) {
		if seen[m] {
			return
		}
		seen[m] = true
		for _, e := range a.dir(m, lpg.OutgoingEdge) {
			rec(e.to)
		}
	}
	for _, m := range roots {
		rec(m)
	}
	return seen
}

func copyStep(src, dst *World, r *Rnd, st *Stats) error {
	mode := r.N(4)
	f := copier(mode)
	if r.P(1, 3) {
		f = func(_ string, v interface{}) interface{} { return v }
		mode = 0
	}
	byNode := map[*lpg.Node]*MN{}
	for _, m := range src.nodes {
		byNode[m.n] = m
	}
	byEdge := map[*lpg.Edge]*ME{}
	for _, m := range src.edges {
		byEdge[m.e] = m
	}
	copies := map[*MN]*MN{}
	// register adds the copies of sel, as reported, to the model.
	register := func(nm map[*lpg.Node]*lpg.Node, sel map[*MN]bool) error {
		if len(nm) != len(sel) {
			return fmt.Errorf("%d nodes reported as copied, expected %d", len(nm), len(sel))
		}
		seen := map[*lpg.Node]bool{}
		for _, m := range src.nodes {
			if !sel[m] {
				continue
			}
			c := nm[m.n]
			if c == nil {
				return fmt.Errorf("no copy reported of %s", m.name)
			}
			if seen[c] {
				return fmt.Errorf("two nodes were given the same copy")
			}
			seen[c] = true
			if c.GetGraph() != dst.g {
				return fmt.Errorf("the copy of %s is not in the target graph", m.name)
			}
			copies[m] = dst.addMN(c, toSet(setKeys(m.labels)), mapProps(m.props, f))
		}
		return nil
	}
	between := func(sel map[*MN]bool) []*ME {
		var want []*ME
		for _, e := range src.edges {
			if sel[e.from] && sel[e.to] {
				want = append(want, &ME{from: copies[e.from], to: copies[e.to], label: e.label, props: mapProps(e.props, f)})
			}
		}
		return want
	}
	all := map[*MN]bool{}
	for _, m := range src.nodes {
		all[m] = true
	}
	kind := r.N(5)
	var sel map[*MN]bool
	switch kind {
	case 0: // CopyGraph
		sel = all
		nm := lpg.CopyGraph(src.g, dst.g, f)
		if err := register(nm, sel); err != nil {
			return fmt.Errorf("CopyGraph: %w", err)
		}
		if err := dst.adopt(between(sel)); err != nil {
			return fmt.Errorf("CopyGraph: %w", err)
		}
		st.Inc("CopyGraph", 1)
	case 1: // CopyGraphf
		sel = map[*MN]bool{}
		for _, m := range src.nodes {
			if r.P(3, 4) {
				sel[m] = true
			}
		}
		offeredN, offeredE := map[*MN]int{}, map[*ME]int{}
		drop := r.P(1, 3)
		var bad error
		made := map[*lpg.Node]*lpg.Node{}
		nm := lpg.CopyGraphf(src.g, func(n *lpg.Node, nm map[*lpg.Node]*lpg.Node) *lpg.Node {
			m := byNode[n]
			if m == nil {
				bad = fmt.Errorf("a node that is not in the source was offered")
				return nil
			}
			offeredN[m]++
			if !sel[m] {
				return nil
			}
			made[n] = lpg.CopyNode(n, dst.g, f)
			return made[n]
		}, func(e *lpg.Edge, nm map[*lpg.Node]*lpg.Node) *lpg.Edge {
			m := byEdge[e]
			if m == nil {
				bad = fmt.Errorf("an edge that is not in the source was offered")
				return nil
			}
			offeredE[m]++
			for _, x := range []*MN{m.from, m.to} {
				if nm[x.n] == nil || nm[x.n] != made[x.n] {
					bad = fmt.Errorf("an edge was offered without the copies of its endpoints")
					return nil
				}
			}
			if drop && m.id%2 == 0 {
				return nil
			}
			return lpg.CopyEdge(e, dst.g, f, nm)
		})
		if bad != nil {
			return fmt.Errorf("CopyGraphf: %w", bad)
		}
		for _, m := range src.nodes {
			if offeredN[m] != 1 {
				return fmt.Errorf("CopyGraphf offered node %s %d times", m.name, offeredN[m])
			}
		}
		if err := register(nm, sel); err != nil {
			return fmt.Errorf("CopyGraphf: %w", err)
		}
		for n, c := range nm {
			if made[n] != c {
				return fmt.Errorf("CopyGraphf reports another copy than the one made")
			}
		}
		var want []*ME
		for _, e := range src.edges {
			x := 0
			if sel[e.from] && sel[e.to] {
				x = 1
				if !(drop && e.id%2 == 0) {
					want = append(want, &ME{from: copies[e.from], to: copies[e.to], label: e.label, props: mapProps(e.props, f)})
				}
			}
			if offeredE[e] != x {
				return fmt.Errorf("CopyGraphf offered edge %s %d times, expected %d", e.name, offeredE[e], x)
			}
		}
		if err := dst.adopt(want); err != nil {
			return fmt.Errorf("CopyGraphf: %w", err)
		}
		st.Inc("CopyGraphf", 1)
	case 2: // CopySubgraph from one or more roots
		var roots []*MN
		for k := 1 + r.N(2); k > 0; k-- {
			if m := src.node(r); m != nil {
				roots = append(roots, m)
			}
		}
		a := src.adjacency()
		nm := map[*lpg.Node]*lpg.Node{}
		for i, m := range roots {
			lpg.CopySubgraph(m.n, dst.g, f, nm)
			if want := reach(a, roots[:i+1]); len(nm) != len(want) {
				return fmt.Errorf("CopySubgraph from %s: %d nodes copied, expected %d", m.name, len(nm), len(want))
			}
		}
		sel = reach(a, roots)
		if err := register(nm, sel); err != nil {
			return fmt.Errorf("CopySubgraph: %w", err)
		}
		if err := dst.adopt(between(sel)); err != nil {
			return fmt.Errorf("CopySubgraph: %w", err)
		}
		if len(sel) < len(src.nodes) {
			st.Inc("CopySubgraph of a part", 1)
		}
		st.Inc("CopySubgraph", 1)
	case 3: // nodes one by one, then edges one by one
		sel = map[*MN]bool{}
		nm := map[*lpg.Node]*lpg.Node{}
		for _, m := range src.nodes {
			if r.P(2, 3) {
				sel[m] = true
				nm[m.n] = lpg.CopyNode(m.n, dst.g, f)
			}
		}
		if err := register(nm, sel); err != nil {
			return fmt.Errorf("CopyNode: %w", err)
		}
		for _, e := range append([]*ME{}, src.edges...) {
			if sel[e.from] && sel[e.to] && r.P(2, 3) {
				c := lpg.CopyEdge(e.e, dst.g, f, nm)
				if c == nil {
					return fmt.Errorf("CopyEdge returned nothing")
				}
				dst.addME(c, copies[e.from], copies[e.to], e.label, mapProps(e.props, f))
			}
		}
		st.Inc("CopyNode and CopyEdge", 1)
	case 4: // edges cloned between other nodes of the target
		sel = map[*MN]bool{}
		for _, e := range append([]*ME{}, src.edges...) {
			if len(dst.nodes) > 0 && r.P(1, 2) && len(dst.edges) < 60 {
				from, to := dst.node(r), dst.node(r)
				c := lpg.CloneEdge(from.n, to.n, e.e, dst.g, f)
				dst.addME(c, from, to, e.label, mapProps(e.props, f))
				st.Inc("CloneEdge", 1)
			}
		}
	}
	st.Inc("nodes copied", len(sel))
	st.Inc("copies", 1)
	if len(dst.nodes) > len(sel) {
		st.Inc("copies into a non-empty graph", 1)
	}
	if st.logging {
		st.Logf("copy kind %d, %d of %d nodes", kind, len(sel), len(src.nodes))
	}
	return nil
}

// copyLarge copies graphs of hundreds of objects, or objects with dozens of
// labels and properties.
func copyLarge(ch *Ch, st *Stats) error {
	dom := wideDom(ch)
	dom.MaxNodes, dom.MaxEdges = 9999, 9999
	r := &Rnd{uint64(ch.U()) | uint64(ch.U())<<32}
	src, dst := newWorld(dom, st), newWorld(dom, st)
	n := 20 + r.N(400)
	if dom.Fat {
		n = 2 + r.N(20)
	}
	for i := 0; i < n; i++ {
		ls, p := src.pickLabels(r), src.pickProps(r)
		src.addMN(src.g.NewNode(ls, p), toSet(ls), copyProps(p))
	}
	link := func(a, b *MN) {
		l, p := dom.EdgeLabels[r.N(len(dom.EdgeLabels))], src.pickProps(r)
		src.addME(src.g.NewEdge(a.n, b.n, l, p), a, b, l, copyProps(p))
	}
	shape := r.N(4) // a chain, a tree, a hub, random
	for i := 1; i < n; i++ {
		switch shape {
		case 0:
			link(src.nodes[i-1], src.nodes[i])
		case 1:
			link(src.nodes[(i-1)/2], src.nodes[i])
		case 2:
			link(src.nodes[0], src.nodes[i])
		default:
			link(src.nodes[r.N(n)], src.nodes[r.N(n)])
		}
	}
	if r.P(1, 2) {
		link(src.nodes[n-1], src.nodes[0])
	}
	st.Inc("copies of large graphs", 1)
	for k := 0; k < 2; k++ {
		if err := copyStep(src, dst, r, st); err != nil {
			return fmt.Errorf("copying a graph of %d nodes: %w", n, err)
		}
		for i, w := range []*World{src, dst} {
			if err := w.auditAll(r, 3); err != nil {
				return fmt.Errorf("after copying a graph of %d nodes, the %s graph: %w", n, []string{"first", "second"}[i], err)
			}
		}
	}
	return nil
}

func runC09(c *Case, st *Stats) error {
	ch := &Ch{v: c.Q}
	if c.Idx%53 == 52 {
		return copyLarge(ch, st)
	}
	dom := domFromCh(ch, true)
	r := &Rnd{uint64(ch.U()) | uint64(ch.U())<<32}
	var ws [3]*World
	names := []string{"first", "second", "third"}
	for i := range ws {
		ws[i] = newWorld(dom, st)
	}
	audit := func(full bool, after string) error {
		for i, w := range ws {
			var err error
			if full {
				err = w.auditAll(r, 3)
			} else {
				if err = w.auditC01(); err == nil {
					if err = w.auditC02(w.nodes); err == nil {
						if err = w.auditC04(); err == nil {
							err = w.auditC07()
						}
					}
				}
			}
			if err != nil {
				return fmt.Errorf("%s, the %s graph: %w", after, names[i], err)
			}
		}
		return nil
	}
	copied := 0
	for i, o := range c.Ops {
		// grow the first graph first
		k := int(o.P[5] % 3)
		if i < len(c.Ops)/3 {
			k = 0
		}
		w := ws[k]
		if st.logging {
			st.Logf("%s:", names[k])
		}
		if err := w.apply(o); err != nil {
			return err
		}
		if i >= len(c.Ops)/4 && r.P(1, 7) || i == len(c.Ops)/2 {
			s := r.N(3)
			if r.P(2, 3) {
				for j := range ws {
					if len(ws[j].nodes) > len(ws[s].nodes) {
						s = j
					}
				}
			}
			d := (s + 1 + r.N(2)) % 3
			if i == len(c.Ops)/2 && copied == 0 {
				s, d = 0, 1
			}
			if r.P(1, 6) {
				d = s
				st.Inc("copies into the graph itself", 1)
			}
			if len(ws[d].nodes)+len(ws[s].nodes) < 40 && len(ws[d].edges)+len(ws[s].edges) < 60 {
				if st.logging {
					st.Logf("%s -> %s", names[s], names[d])
				}
				if err := copyStep(ws[s], ws[d], r, st); err != nil {
					return fmt.Errorf("%s -> %s: %w", names[s], names[d], err)
				}
				if len(ws[s].nodes) > 0 {
					copied++
				}
				if err := audit(true, fmt.Sprintf("after copying %s to %s", names[s], names[d])); err != nil {
					return err
				}
			}
		} else if copied > 0 && w.changed {
			st.Inc("updates after copying", 1)
			if err := audit(false, fmt.Sprintf("after an update of the %s graph", names[k])); err != nil {
				return err
			}
		}
	}
	if copied > 0 {
		st.Sig(hashCase(c))
		return audit(true, "at the end")
	}
	return nil
}

func init() {
	register(&Check{ID: "C09", Quick: 17600, Thorough: 220000, Run: runC09,
		Gen: func(r *rand.Rand, idx int) *Case {
			return &Case{Idx: idx, Q: randQ(r, 8), Ops: genOps(r, 18+r.Intn(40), map[int]int{opSetLabels: 1, opSetNodeProp: 1, opSetEdgeProp: 1, opNewEdge: 3, opIndexNode: 1, opIndexEdge: 1}, 8+r.Intn(10))}
		},
		Required: []string{"CopyGraph", "CopyGraphf", "CopySubgraph", "CopySubgraph of a part", "CopyNode and CopyEdge", "CloneEdge", "copies into a non-empty graph", "copies into the graph itself", "updates after copying", "copies of large graphs"},
		Rule:     "three graphs updated and copied into each other, or into themselves, at random moments of random histories, with property copiers that change values; every copy and every later update is followed by an audit of all three graphs; non-trivial if a non-empty graph was copied"})
}
