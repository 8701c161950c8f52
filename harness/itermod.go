package main

import (
	"fmt"
	"math/rand"

	"github.com/cloudprivacylabs/lpg/v2"
)

// C30: what may be done to the element an iteration has just returned. The
// selection is computed from the model when the iteration begins; every update
// made on the way goes to the model as well, and all views are audited at the
// end.

type iterMod struct {
	w       *World
	r       *Rnd
	st      *Stats
	avoid   map[string]bool // properties the loop over nodes selects by
	actions int
}

func (x *iterMod) removeEdge(m *ME) {
	x.w.logf("  %s.Remove()", m.name)
	m.e.Remove()
	x.w.dropEdge(m)
	x.st.Inc("edges removed by the loop", 1)
}

func (x *iterMod) edgeProp(m *ME, avoid map[string]bool) {
	k := x.w.dom.Keys[x.r.N(len(x.w.dom.Keys))]
	if x.r.P(1, 3) || avoid[k] {
		x.w.logf("  %s.RemoveProperty(%s)", m.name, k)
		m.e.RemoveProperty(k)
		delete(m.props, k)
	} else {
		v := genValue(x.r, k, x.w.dom.Wide)
		x.w.logf("  %s.SetProperty(%s,%s)", m.name, k, fmtVal(v))
		m.e.SetProperty(k, v)
		m.props[k] = v
	}
	x.st.Inc("edge properties changed by the loop", 1)
}

func (x *iterMod) nodeProp(m *MN, avoid map[string]bool) {
	k := x.w.dom.Keys[x.r.N(len(x.w.dom.Keys))]
	if x.r.P(1, 3) || avoid[k] {
		x.w.logf("  %s.RemoveProperty(%s)", m.name, k)
		m.n.RemoveProperty(k)
		delete(m.props, k)
	} else {
		v := genValue(x.r, k, x.w.dom.Wide)
		x.w.logf("  %s.SetProperty(%s,%s)", m.name, k, fmtVal(v))
		m.n.SetProperty(k, v)
		m.props[k] = v
	}
	x.st.Inc("node properties changed by the loop", 1)
}

// nodeAction does something to the node just returned.
func (x *iterMod) nodeAction(m *MN, avoid map[string]bool, removals int) error {
	w, r := x.w, x.r
	if !r.P(removals, 4) {
		return nil
	}
	x.actions++
	switch r.N(9) {
	case 0, 1, 2:
		w.logf("  %s.DetachAndRemove()", m.name)
		for _, e := range w.incident(m) {
			w.dropEdge(e)
		}
		m.n.DetachAndRemove()
		w.dropNode(m)
		x.st.Inc("nodes removed by the loop", 1)
	case 3:
		w.logf("  %s.Detach()", m.name)
		for _, e := range w.incident(m) {
			w.dropEdge(e)
		}
		m.n.Detach()
	case 4:
		ls := w.pickLabels(r)
		w.logf("  %s.SetLabels(%q)", m.name, ls)
		m.n.SetLabels(lpg.NewStringSet(ls...))
		m.labels = toSet(ls)
		x.st.Inc("nodes relabelled by the loop", 1)
	case 5:
		x.nodeProp(m, avoid)
	case 6:
		if to := w.node(r); to != nil && len(w.edges) < 400 {
			l := w.dom.EdgeLabels[r.N(len(w.dom.EdgeLabels))]
			p := copyProps(w.pickProps(r))
			w.logf("  NewEdge(%s,%s,%q)", m.name, to.name, l)
			w.addME(w.g.NewEdge(m.n, to.n, l, copyProps(p)), m, to, l, p)
			x.st.Inc("edges added by the loop", 1)
		}
	default:
		return x.edgesOf(m, 3)
	}
	return nil
}

// edgesOf iterates over edges of a node.
func (x *iterMod) edgesOf(m *MN, removals int) error {
	w, r := x.w, x.r
	d := dirs[r.N(len(dirs))]
	a := w.adjacency()
	if d == lpg.AnyEdge {
		// a self-loop is listed twice
		for _, e := range a.in[m] {
			if e.from == m {
				d = lpg.OutgoingEdge
			}
		}
	}
	var ls []string
	if r.P(1, 2) {
		ls = pickSome(r, w.dom.EdgeLabels, 1, 3)
	}
	var want []*ME
	for _, e := range a.dir(m, d) {
		if len(ls) == 0 || inStrs(e.label, ls) {
			want = append(want, e)
		}
	}
	var it lpg.EdgeIterator
	what := fmt.Sprintf("%s.GetEdges(%s)", m.name, dirName(d))
	switch {
	case len(ls) == 0:
		it = m.n.GetEdges(d)
	case len(ls) == 1 && r.P(1, 2):
		what = fmt.Sprintf("%s.GetEdgesWithLabel(%s,%q)", m.name, dirName(d), ls[0])
		it = m.n.GetEdgesWithLabel(d, ls[0])
	default:
		what = fmt.Sprintf("%s.GetEdgesWithAnyLabel(%s,%q)", m.name, dirName(d), ls)
		it = m.n.GetEdgesWithAnyLabel(d, lpg.NewStringSet(ls...))
	}
	return x.loopE(what, it, want, ls, nil, removals)
}

// loopE runs an iteration over edges. Edges may be given a label only if that
// takes them out of the selection, or leaves them where they are.
func (x *iterMod) loopE(what string, it lpg.EdgeIterator, want []*ME, labels []string, avoid map[string]bool, removals int) error {
	w, r := x.w, x.r
	w.logf("for %s: %d edges", what, len(want))
	left := map[*ME]bool{}
	for _, m := range want {
		left[m] = true
	}
	stop := -1
	if r.P(1, 8) {
		stop = r.N(len(want) + 1)
	}
	for i := 0; i != stop && it.Next(); i++ {
		m := w.edgeIDs[it.Edge().GetID()]
		if m == nil || m.e != it.Edge() || !left[m] {
			return fmt.Errorf("%s while the edges returned are changed: %s is returned as the %d. of %d edges, but was not selected, or was returned before", what, w.nameE(it.Edge()), i+1, len(want))
		}
		delete(left, m)
		if !r.P(removals, 4) {
			continue
		}
		x.actions++
		switch r.N(5) {
		case 0, 1, 2:
			x.removeEdge(m)
		case 3:
			x.edgeProp(m, avoid)
		case 4:
			l := w.dom.EdgeLabels[r.N(len(w.dom.EdgeLabels))]
			if len(labels) == 0 || inStrs(l, labels) {
				l = m.label
			}
			if l != m.label {
				w.logf("  %s.SetLabel(%q)", m.name, l)
				m.e.SetLabel(l)
				m.label = l
				x.st.Inc("edges relabelled by the loop", 1)
			}
		}
		if x.avoid == nil && r.P(1, 6) {
			x.nodeProp([]*MN{m.from, m.to}[r.N(2)], nil)
		}
	}
	if stop == -1 {
		for _, m := range want {
			if left[m] {
				return fmt.Errorf("%s while the edges returned are changed: it ended without %s, %d of %d edges missing", what, m.name, len(left), len(want))
			}
		}
		if it.Next() {
			return fmt.Errorf("%s: goes on after its end", what)
		}
	}
	x.st.Inc("loops over edges", 1)
	if len(want) > 1 {
		x.st.Inc("loops over several edges", 1)
	}
	return nil
}

func (x *iterMod) loopN(what string, next func() *lpg.Node, want []*MN, avoid map[string]bool, removals int) error {
	w, r := x.w, x.r
	w.logf("for %s: %d nodes", what, len(want))
	x.avoid = avoid
	defer func() { x.avoid = nil }()
	left := map[*MN]bool{}
	for _, m := range want {
		left[m] = true
	}
	stop := -1
	if r.P(1, 8) {
		stop = r.N(len(want) + 1)
	}
	for i := 0; i != stop; i++ {
		n := next()
		if n == nil {
			break
		}
		m := w.nodeIDs[n.GetID()]
		if m == nil || m.n != n || !left[m] {
			return fmt.Errorf("%s while the nodes returned are changed: %s is returned as the %d. of %d nodes, but was not selected, or was returned before", what, w.nameN(n), i+1, len(want))
		}
		delete(left, m)
		if err := x.nodeAction(m, avoid, removals); err != nil {
			return err
		}
	}
	if stop == -1 {
		for _, m := range want {
			if left[m] {
				return fmt.Errorf("%s while the nodes returned are changed: it ended without %s, %d of %d nodes missing", what, m.name, len(left), len(want))
			}
		}
		if next() != nil {
			return fmt.Errorf("%s: goes on after its end", what)
		}
	}
	x.st.Inc("loops over nodes", 1)
	if len(want) > 1 {
		x.st.Inc("loops over several nodes", 1)
	}
	return nil
}

func nextOf(it lpg.NodeIterator) func() *lpg.Node {
	return func() *lpg.Node {
		if !it.Next() {
			return nil
		}
		return it.Node()
	}
}

func (x *iterMod) loop() error {
	w, r := x.w, x.r
	removals := 1 + r.N(4)
	switch r.N(11) {
	case 0, 1:
		return x.loopN("GetNodes", nextOf(w.g.GetNodes()), append([]*MN{}, w.nodes...), nil, removals)
	case 2, 3:
		ls := pickSome(r, w.dom.Labels, 1, 2)
		want := w.filterN(func(m *MN) bool { return hasAllLabels(m, ls) })
		return x.loopN(fmt.Sprintf("GetNodesWithAllLabels(%q)", ls), nextOf(w.g.GetNodesWithAllLabels(lpg.NewStringSet(ls...))), want, nil, removals)
	case 4:
		var ls []string
		if r.P(1, 3) {
			ls = pickSome(r, w.dom.Labels, 1, 2)
		}
		var from map[string]interface{}
		if len(w.nodes) > 0 {
			from = w.node(r).props
		}
		q := w.genPropQuery(r, from)
		if len(ls)+len(q) == 0 {
			return nil
		}
		want := w.filterN(func(m *MN) bool { return hasAllLabels(m, ls) && matchProps(m.props, q) })
		avoid := map[string]bool{}
		for k := range q {
			avoid[k] = true
		}
		x.st.Inc("loops over searches", 1)
		return x.loopN(fmt.Sprintf("FindNodes(%q,%s)", ls, fmtProps(q)), nextOf(w.g.FindNodes(lpg.NewStringSet(ls...), q)), want, avoid, removals)
	case 5:
		k := w.dom.Keys[r.N(len(w.dom.Keys))]
		if t, ok := w.idxN[k]; ok && t == lpg.BtreeIndex {
			return nil
		}
		want := w.filterN(func(m *MN) bool { _, ok := m.props[k]; return ok })
		return x.loopN(fmt.Sprintf("GetNodesWithProperty(%s) [%s]", k, idxName(w.idxN, k)), nextOf(w.g.GetNodesWithProperty(k)), want, map[string]bool{k: true}, removals)
	case 6:
		return x.loopE("GetEdges", w.g.GetEdges(), append([]*ME{}, w.edges...), nil, nil, removals)
	case 7:
		ls := pickSome(r, w.dom.EdgeLabels, 1, 3)
		want := w.filterE(func(m *ME) bool { return inStrs(m.label, ls) })
		return x.loopE(fmt.Sprintf("GetEdgesWithAnyLabel(%q)", ls), w.g.GetEdgesWithAnyLabel(lpg.NewStringSet(ls...)), want, ls, nil, removals)
	case 8:
		var ls []string
		if r.P(1, 2) {
			ls = pickSome(r, w.dom.EdgeLabels, 1, 3)
		}
		var from map[string]interface{}
		if len(w.edges) > 0 {
			from = w.edge(r).props
		}
		q := w.genPropQuery(r, from)
		want := w.filterE(func(m *ME) bool { return (len(ls) == 0 || inStrs(m.label, ls)) && matchProps(m.props, q) })
		avoid := map[string]bool{}
		for k := range q {
			avoid[k] = true
		}
		x.st.Inc("loops over searches", 1)
		return x.loopE(fmt.Sprintf("FindEdges(%q,%s)", ls, fmtProps(q)), w.g.FindEdges(lpg.NewStringSet(ls...), q), want, ls, avoid, removals)
	case 9:
		k := w.dom.Keys[r.N(len(w.dom.Keys))]
		if t, ok := w.idxE[k]; ok && t == lpg.BtreeIndex {
			return nil
		}
		want := w.filterE(func(m *ME) bool { _, ok := m.props[k]; return ok })
		return x.loopE(fmt.Sprintf("GetEdgesWithProperty(%s) [%s]", k, idxName(w.idxE, k)), w.g.GetEdgesWithProperty(k), want, nil, map[string]bool{k: true}, removals)
	default:
		m := w.node(r)
		if m == nil {
			return nil
		}
		return x.edgesOf(m, removals)
	}
}

func runC30(c *Case, st *Stats) error {
	ch := &Ch{v: c.Q}
	wide := ch.U()%2 == 1
	var dom *Dom
	if wide {
		dom = wideDom(ch)
		dom.Index = true
	} else {
		dom = domFromCh(ch, true)
	}
	w := newWorld(dom, st)
	r := &Rnd{uint64(ch.U()) | uint64(ch.U())<<32}
	x := &iterMod{w: w, r: r, st: st}
	every := 8
	if wide {
		every = 100
	}
	loops := func(n int) error {
		for ; n > 0; n-- {
			if err := x.loop(); err != nil {
				return err
			}
		}
		if wide {
			if err := w.auditC01(); err != nil {
				return err
			}
			if err := w.auditC02(w.some(r, false)); err != nil {
				return err
			}
			return w.auditC05(r, 4)
		}
		return w.auditAll(r, 2)
	}
	for i, o := range c.Ops {
		if err := w.apply(o); err != nil {
			return err
		}
		if i%every == every-1 {
			if err := loops(1); err != nil {
				return err
			}
		}
	}
	if err := loops(2); err != nil {
		return err
	}
	if x.actions > 0 {
		st.Sig(hashCase(c))
	}
	return nil
}

func init() {
	register(&Check{ID: "C30", Quick: 60000, Thorough: 800000, Run: runC30,
		Gen: func(r *rand.Rand, idx int) *Case {
			boost := map[int]int{opNewEdge: 4, opParallel: 2, opNewNode: 2}
			q := randQ(r, 10)
			if idx%wideEvery == wideEvery-1 {
				q[0] = q[0]/2*2 + 1
				return &Case{Q: q, Ops: genOps(r, 200+r.Intn(400), boost, 100+r.Intn(200))}
			}
			q[0] = q[0] / 2 * 2
			return &Case{Q: q, Ops: genOps(r, 10+r.Intn(50), boost, 8+r.Intn(16))}
		},
		Required: []string{"loops over several nodes", "loops over several edges", "loops over searches", "nodes removed by the loop", "edges removed by the loop",
			"nodes relabelled by the loop", "edges relabelled by the loop", "node properties changed by the loop", "edge properties changed by the loop", "edges added by the loop"},
		Rule: "update histories interrupted by loops over nodes, edges, label lookups, searches and adjacency whose body removes, detaches, relabels or changes the element just returned; what is returned is compared with the selection at the start, and all views are audited afterwards; a case is non-trivial if a loop changed something"})
}
