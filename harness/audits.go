package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// Audits compare one view of the graph with the model.

func (w *World) auditNodes() error {
	g := w.g
	if err := w.checkNodeIt("GetNodes", g.GetNodes(), w.nodes); err != nil {
		return err
	}
	if n := g.NumNodes(); n != len(w.nodes) {
		return fmt.Errorf("NumNodes=%d, expected %d", n, len(w.nodes))
	}
	return nil
}

func (w *World) auditNodeAttrs(m *MN) error {
	got := m.n.GetLabels()
	ls := append([]string{}, got.Slice()...)
	sort.Strings(ls)
	want := setKeys(m.labels)
	if strings.Join(ls, "\x00|") != strings.Join(want, "\x00|") || len(ls) != len(want) {
		return fmt.Errorf("labels of %s: got %q, expected %q", m.name, ls, want)
	}
	for _, l := range w.dom.Labels {
		if m.n.HasLabel(l) != m.labels[l] {
			return fmt.Errorf("%s.HasLabel(%q)=%v, expected %v", m.name, l, m.n.HasLabel(l), m.labels[l])
		}
	}
	return w.auditProps(m.name, m.n, m.props)
}

type propHolder interface {
	GetProperty(string) (interface{}, bool)
	ForEachProperty(func(string, interface{}) bool) bool
}

func (w *World) auditProps(name string, h propHolder, props map[string]interface{}) error {
	for _, k := range w.dom.Keys {
		v, ok := h.GetProperty(k)
		x, want := props[k]
		if ok != want || (ok && !sameVal(v, x)) {
			return fmt.Errorf("%s.GetProperty(%s)=(%s,%v), expected (%s,%v)", name, k, fmtVal(v), ok, fmtVal(x), want)
		}
		w.st.Inc("property reads", 1)
	}
	seen := map[string]interface{}{}
	n := 0
	all := h.ForEachProperty(func(k string, v interface{}) bool {
		seen[k] = v
		n++
		return n < len(props)+8
	})
	if !all || n != len(props) || len(seen) != len(props) {
		return fmt.Errorf("%s.ForEachProperty visited %d (%s), expected %s, returned %v", name, n, fmtProps(seen), fmtProps(props), all)
	}
	for k, v := range seen {
		if x, ok := props[k]; !ok || !sameVal(v, x) {
			return fmt.Errorf("%s.ForEachProperty saw %s, expected %s", name, fmtProps(seen), fmtProps(props))
		}
	}
	return nil
}

func (w *World) auditC01() error {
	if err := w.auditNodes(); err != nil {
		return err
	}
	var seen []*lpg.Node
	ended := lpg.ForEachNode(w.g, func(n *lpg.Node) bool {
		seen = append(seen, n)
		return len(seen) < len(w.nodes)+8
	})
	if err := w.cmpNodes("ForEachNode", seen, ended || len(seen) < len(w.nodes)+8, w.nodes); err != nil {
		return err
	}
	for _, m := range w.nodes {
		if err := w.auditNodeAttrs(m); err != nil {
			return err
		}
	}
	return nil
}

func (w *World) auditEdgesGlobal() error {
	if err := w.checkEdgeIt("GetEdges", w.g.GetEdges(), w.edges); err != nil {
		return err
	}
	if n := w.g.NumEdges(); n != len(w.edges) {
		return fmt.Errorf("NumEdges=%d, expected %d", n, len(w.edges))
	}
	return nil
}

type adj struct{ in, out map[*MN][]*ME }

func (w *World) adjacency() adj {
	a := adj{map[*MN][]*ME{}, map[*MN][]*ME{}}
	for _, e := range w.edges {
		a.out[e.from] = append(a.out[e.from], e)
		a.in[e.to] = append(a.in[e.to], e)
	}
	return a
}

func (a adj) dir(m *MN, d lpg.EdgeDir) []*ME {
	switch d {
	case lpg.IncomingEdge:
		return a.in[m]
	case lpg.OutgoingEdge:
		return a.out[m]
	}
	return append(append([]*ME{}, a.in[m]...), a.out[m]...)
}

var dirs = []lpg.EdgeDir{lpg.IncomingEdge, lpg.OutgoingEdge, lpg.AnyEdge}

func dirName(d lpg.EdgeDir) string { return []string{"Incoming", "Any", "Outgoing"}[int(d)+1] }

func (w *World) auditAdjacency(nodes []*MN) error {
	a := w.adjacency()
	for _, m := range nodes {
		for _, d := range dirs {
			if err := w.checkEdgeIt(m.name+".GetEdges("+dirName(d)+")", m.n.GetEdges(d), a.dir(m, d)); err != nil {
				return err
			}
		}
	}
	return nil
}

func (w *World) auditEdgeAttrs(m *ME) error {
	if m.e.GetFrom() != m.from.n || m.e.GetTo() != m.to.n {
		return fmt.Errorf("%s runs from %s to %s, expected %s to %s", m.name, w.nameN(m.e.GetFrom()), w.nameN(m.e.GetTo()), m.from.name, m.to.name)
	}
	if m.e.GetLabel() != m.label {
		return fmt.Errorf("%s has label %q, expected %q", m.name, m.e.GetLabel(), m.label)
	}
	return w.auditProps(m.name, m.e, m.props)
}

func (w *World) auditC02(nodes []*MN) error {
	if err := w.auditEdgesGlobal(); err != nil {
		return err
	}
	if err := w.auditAdjacency(nodes); err != nil {
		return err
	}
	for _, m := range w.edges {
		if err := w.auditEdgeAttrs(m); err != nil {
			return err
		}
	}
	return nil
}

func hasAllLabels(m *MN, ls []string) bool {
	for _, l := range ls {
		if !m.labels[l] {
			return false
		}
	}
	return true
}

func inStrs(s string, ls []string) bool {
	for _, l := range ls {
		if l == s {
			return true
		}
	}
	return false
}

// labelQueries are the label sets looked up at an audit: each label alone, the
// empty set in both representations, an absent label, and random subsets.
func labelQueries(r *Rnd, pool []string, extra int) [][]string {
	q := [][]string{{}, {"absent"}}
	for _, l := range pool {
		if len(pool) > 9 && !r.P(1, 4) {
			continue
		}
		q = append(q, []string{l})
	}
	for i := 0; i < extra; i++ {
		var s []string
		n := 1 + r.N(3)
		if r.P(1, 4) {
			n = 4 + r.N(len(pool)+2)
		}
		for ; n > 0; n-- {
			if r.P(1, 8) {
				s = append(s, "absent")
			} else {
				s = append(s, pool[r.N(len(pool))])
			}
		}
		q = append(q, s)
	}
	return q
}

func mkSet(r *Rnd, ls []string) lpg.StringSet {
	if len(ls) == 0 && r.P(1, 2) {
		return lpg.StringSet{}
	}
	return lpg.NewStringSet(ls...)
}

func (w *World) auditC03(r *Rnd, nodes []*MN) error {
	queries := labelQueries(r, w.dom.Labels, 3)
	if m := w.node(r); m != nil {
		// many of the labels of one of the nodes
		var ls []string
		for _, l := range setKeys(m.labels) {
			if r.P(7, 8) {
				ls = append(ls, l)
			}
		}
		queries = append(queries, ls)
	}
	for _, ls := range queries {
		want := w.filterN(func(m *MN) bool { return hasAllLabels(m, ls) })
		if err := w.checkNodeIt(fmt.Sprintf("GetNodesWithAllLabels(%q)", ls), w.g.GetNodesWithAllLabels(mkSet(r, ls)), want); err != nil {
			return err
		}
	}
	a := w.adjacency()
	for _, ls := range labelQueries(r, w.dom.EdgeLabels, 3) {
		want := w.filterE(func(m *ME) bool { return inStrs(m.label, ls) })
		if err := w.checkEdgeIt(fmt.Sprintf("GetEdgesWithAnyLabel(%q)", ls), w.g.GetEdgesWithAnyLabel(mkSet(r, ls)), want); err != nil {
			return err
		}
		for _, m := range nodes {
			for _, d := range dirs {
				var want []*ME
				for _, e := range a.dir(m, d) {
					if len(ls) == 0 || inStrs(e.label, ls) {
						want = append(want, e)
					}
				}
				if err := w.checkEdgeIt(fmt.Sprintf("%s.GetEdgesWithAnyLabel(%s,%q)", m.name, dirName(d), ls), m.n.GetEdgesWithAnyLabel(d, mkSet(r, ls)), want); err != nil {
					return err
				}
				if len(ls) == 1 {
					if err := w.checkEdgeIt(fmt.Sprintf("%s.GetEdgesWithLabel(%s,%q)", m.name, dirName(d), ls[0]), m.n.GetEdgesWithLabel(d, ls[0]), want); err != nil {
						return err
					}
				}
			}
		}
	}
	return nil
}

func (w *World) auditC04() error {
	for _, k := range append([]string{"absent"}, w.dom.Keys...) {
		want := w.filterN(func(m *MN) bool { _, ok := m.props[k]; return ok })
		if err := w.checkNodeIt(fmt.Sprintf("GetNodesWithProperty(%s) [%s]", k, idxName(w.idxN, k)), w.g.GetNodesWithProperty(k), want); err != nil {
			return err
		}
		wantE := w.filterE(func(m *ME) bool { _, ok := m.props[k]; return ok })
		if err := w.checkEdgeIt(fmt.Sprintf("GetEdgesWithProperty(%s) [%s]", k, idxName(w.idxE, k)), w.g.GetEdgesWithProperty(k), wantE); err != nil {
			return err
		}
		w.st.Inc("presence lookups "+idxName(w.idxN, k), 1)
		w.st.Inc("presence lookups "+idxName(w.idxE, k), 1)
	}
	return nil
}

func idxName(m map[string]lpg.IndexType, k string) string {
	t, ok := m[k]
	if !ok {
		return "no index"
	}
	if t == lpg.BtreeIndex {
		return "btree"
	}
	return "hash"
}

func matchProps(props, q map[string]interface{}) bool {
	for k, v := range q {
		x, ok := props[k]
		if !ok || !refEq(v, x) {
			return false
		}
	}
	return true
}

// genPropQuery makes the property part of a search, often satisfied by some
// object and often spelled differently from the stored value.
func (w *World) genPropQuery(r *Rnd, from map[string]interface{}) map[string]interface{} {
	q := map[string]interface{}{}
	for n := r.N(3); n > 0; n-- {
		ks := propKeys(from)
		if len(ks) > 0 && r.P(3, 4) {
			k := ks[r.N(len(ks))]
			if _, _, ok := refNorm(from[k]); ok {
				q[k] = respell(r, from[k])
				continue
			}
		}
		k := w.dom.Keys[r.N(len(w.dom.Keys))]
		if r.P(1, 20) {
			q["absent"] = 1
			continue
		}
		q[k] = genQueryValue(r, k, w.dom.Wide)
	}
	return q
}

// respell returns an equal value in another representation.
func respell(r *Rnd, v interface{}) interface{} {
	if r.P(1, 3) {
		return v
	}
	switch x := v.(type) {
	case Native:
		if r.P(1, 2) {
			return x.V
		}
		return v
	case *Counted:
		return x.V
	case int, string:
		if r.P(1, 2) {
			return Native{v}
		}
	case []int:
		l := make([]interface{}, len(x))
		for i := range x {
			l[i] = x[i]
		}
		return l
	case []string:
		l := make([]interface{}, len(x))
		for i := range x {
			l[i] = x[i]
		}
		return l
	case []interface{}:
		if len(x) == 0 {
			return v
		}
		if _, ok := x[0].(int); ok {
			l := make([]int, len(x))
			for i := range x {
				y, ok := x[i].(int)
				if !ok {
					return v
				}
				l[i] = y
			}
			return l
		}
		if _, ok := x[0].(string); ok {
			l := make([]string, len(x))
			for i := range x {
				y, ok := x[i].(string)
				if !ok {
					return v
				}
				l[i] = y
			}
			return l
		}
	}
	return v
}

func (w *World) auditC05(r *Rnd, queries int) error {
	for i := 0; i < queries; i++ {
		var ls []string
		var from map[string]interface{}
		if m := w.node(r); m != nil {
			from = m.props
			if r.P(1, 2) {
				for l := range m.labels {
					_ = l
				}
				for _, l := range setKeys(m.labels) {
					if r.P(1, 2) {
						ls = append(ls, l)
					}
				}
			} else if r.P(1, 2) {
				ls = w.pickLabels(r)
			}
		} else {
			ls = w.pickLabels(r)
		}
		q := w.genPropQuery(r, from)
		if len(q) == 0 && r.P(1, 2) {
			q = nil
		}
		want := w.filterN(func(m *MN) bool { return hasAllLabels(m, ls) && matchProps(m.props, q) })
		what := fmt.Sprintf("FindNodes(%q,%s) [node indexes %s]", ls, fmtProps(q), idxList(w.idxN))
		if err := w.checkNodeIt(what, w.g.FindNodes(mkSet(r, ls), q), want); err != nil {
			return err
		}
		w.st.Inc("node searches", 1)
		if len(want) > 0 {
			w.st.Inc("node searches with matches", 1)
		}
		f := lpg.GetNodeFilterFunc(mkSet(r, ls), q)
		var got []*lpg.Node
		for _, m := range w.nodes {
			if f(m.n) {
				got = append(got, m.n)
			}
		}
		if err := w.cmpNodes(fmt.Sprintf("GetNodeFilterFunc(%q,%s)", ls, fmtProps(q)), got, true, want); err != nil {
			return err
		}

		ls, from = nil, nil
		if m := w.edge(r); m != nil {
			from = m.props
			if r.P(1, 2) {
				ls = append(ls, m.label)
			}
		}
		for n := r.N(3); n > 0; n-- {
			ls = append(ls, w.dom.EdgeLabels[r.N(len(w.dom.EdgeLabels))])
		}
		if r.P(1, 8) {
			ls = append(ls, "absent")
		}
		q = w.genPropQuery(r, from)
		wantE := w.filterE(func(m *ME) bool { return (len(ls) == 0 || inStrs(m.label, ls)) && matchProps(m.props, q) })
		what = fmt.Sprintf("FindEdges(%q,%s) [edge indexes %s]", ls, fmtProps(q), idxList(w.idxE))
		if err := w.checkEdgeIt(what, w.g.FindEdges(mkSet(r, ls), q), wantE); err != nil {
			return err
		}
		w.st.Inc("edge searches", 1)
		if len(wantE) > 0 {
			w.st.Inc("edge searches with matches", 1)
		}
		fe := lpg.GetEdgeFilterFunc(mkSet(r, ls), q)
		var gotE []*lpg.Edge
		for _, m := range w.edges {
			if fe(m.e) {
				gotE = append(gotE, m.e)
			}
		}
		if err := w.cmpEdges(fmt.Sprintf("GetEdgeFilterFunc(%q,%s)", ls, fmtProps(q)), gotE, true, wantE); err != nil {
			return err
		}
	}
	return nil
}

func idxList(m map[string]lpg.IndexType) string {
	var r []string
	for k := range m {
		r = append(r, k+":"+idxName(m, k))
	}
	sort.Strings(r)
	return "[" + strings.Join(r, " ") + "]"
}

// checkSizeN drains an iterator under the monitor of C06.
func (w *World) sizeN(what string, it lpg.NodeIterator) error {
	max := it.MaxSize()
	n := 0
	for it.Next() {
		n++
		x := it.Node()
		if x == nil {
			return fmt.Errorf("%s: positioned on a nil node", what)
		}
		if v, ok := it.Value().(*lpg.Node); !ok || v != x {
			return fmt.Errorf("%s: Value and Node differ", what)
		}
		if n > len(w.nodes)+8 {
			return fmt.Errorf("%s does not end", what)
		}
	}
	return w.sizeEnd(what, max, n, it.Next, len(w.nodes))
}

func (w *World) sizeEnd(what string, max, n int, next func() bool, total int) error {
	if max != -1 && max < n {
		return fmt.Errorf("%s announced at most %d elements and produced %d", what, max, n)
	}
	for i := 0; i < 3; i++ {
		if next() {
			return fmt.Errorf("%s: Next reported an element after reporting the end", what)
		}
	}
	w.st.Inc("iterators drained", 1)
	if max == -1 {
		w.st.Inc("size unknown", 1)
	} else if max == n {
		w.st.Inc("size exact", 1)
	} else {
		w.st.Inc("size overestimated", 1)
	}
	if n > 0 {
		w.st.Inc("non-empty iterators", 1)
	}
	return nil
}

func (w *World) sizeE(what string, it lpg.EdgeIterator) error {
	max := it.MaxSize()
	n := 0
	for it.Next() {
		n++
		x := it.Edge()
		if x == nil {
			return fmt.Errorf("%s: positioned on a nil edge", what)
		}
		if v, ok := it.Value().(*lpg.Edge); !ok || v != x {
			return fmt.Errorf("%s: Value and Edge differ", what)
		}
		if n > 2*len(w.edges)+8 {
			return fmt.Errorf("%s does not end", what)
		}
	}
	return w.sizeEnd(what, max, n, it.Next, len(w.edges))
}

func (w *World) auditC06(r *Rnd, nodes []*MN) error {
	g := w.g
	var err error
	n := func(what string, it lpg.NodeIterator) {
		if err == nil {
			err = w.sizeN(what, it)
		}
	}
	e := func(what string, it lpg.EdgeIterator) {
		if err == nil {
			err = w.sizeE(what, it)
		}
	}
	n("GetNodes", g.GetNodes())
	e("GetEdges", g.GetEdges())
	n("SourcesItr", lpg.SourcesItr(g))
	n("SinksItr", lpg.SinksItr(g))
	for _, ls := range labelQueries(r, w.dom.Labels, 2) {
		n(fmt.Sprintf("GetNodesWithAllLabels(%q)", ls), g.GetNodesWithAllLabels(mkSet(r, ls)))
		q := w.genPropQuery(r, w.someProps(r))
		n(fmt.Sprintf("FindNodes(%q,%s) [%s]", ls, fmtProps(q), idxList(w.idxN)), g.FindNodes(mkSet(r, ls), q))
	}
	for _, ls := range labelQueries(r, w.dom.EdgeLabels, 2) {
		e(fmt.Sprintf("GetEdgesWithAnyLabel(%q)", ls), g.GetEdgesWithAnyLabel(mkSet(r, ls)))
		var from map[string]interface{}
		if m := w.edge(r); m != nil {
			from = m.props
		}
		q := w.genPropQuery(r, from)
		e(fmt.Sprintf("FindEdges(%q,%s) [%s]", ls, fmtProps(q), idxList(w.idxE)), g.FindEdges(mkSet(r, ls), q))
		for _, m := range nodes {
			for _, d := range dirs {
				e(fmt.Sprintf("%s.GetEdgesWithAnyLabel(%s,%q)", m.name, dirName(d), ls), m.n.GetEdgesWithAnyLabel(d, mkSet(r, ls)))
				if len(ls) == 1 {
					e(fmt.Sprintf("%s.GetEdgesWithLabel(%s,%q)", m.name, dirName(d), ls[0]), m.n.GetEdgesWithLabel(d, ls[0]))
				}
			}
		}
	}
	for _, k := range append([]string{"absent"}, w.dom.Keys...) {
		n(fmt.Sprintf("GetNodesWithProperty(%s) [%s]", k, idxName(w.idxN, k)), g.GetNodesWithProperty(k))
		e(fmt.Sprintf("GetEdgesWithProperty(%s) [%s]", k, idxName(w.idxE, k)), g.GetEdgesWithProperty(k))
	}
	for _, m := range nodes {
		for _, d := range dirs {
			e(m.name+".GetEdges("+dirName(d)+")", m.n.GetEdges(d))
			var c lpg.Cursor
			c.Set(m.n)
			l := w.dom.EdgeLabels[r.N(len(w.dom.EdgeLabels))]
			e(m.name+" cursor Edges("+dirName(d)+")", c.Edges(d))
			e(m.name+" cursor EdgesWith("+dirName(d)+")", c.EdgesWith(d, l))
			n(m.name+" cursor Nodes("+dirName(d)+")", c.Nodes(d))
			n(m.name+" cursor NodesWith("+dirName(d)+")", c.NodesWith(d, l))
		}
	}
	ns, es := lpg.NewNodeSet(), lpg.NewEdgeSet()
	nm := lpg.NewNodeMap()
	for _, m := range w.nodes {
		if r.P(1, 2) {
			ns.Add(m.n)
			nm.Add(m.n)
		}
	}
	for _, m := range w.edges {
		if r.P(1, 2) {
			es.Add(m.e)
		}
	}
	n("NodeSet.Iterator", ns.Iterator())
	e("EdgeSet.Iterator", es.Iterator())
	n("NodeMap.Iterator", nm.Iterator())
	n("NodeMap.IteratorAllLabels", nm.IteratorAllLabels(mkSet(r, w.pickLabels(r))))
	if err == nil {
		it := lpg.MultiIterator(g.GetNodes(), ns.Iterator(), g.GetNodes())
		max, k := it.MaxSize(), 0
		for it.Next() {
			k++
			if _, ok := it.Value().(*lpg.Node); !ok {
				return fmt.Errorf("MultiIterator: not positioned on a node")
			}
			if k > 3*len(w.nodes)+8 {
				return fmt.Errorf("MultiIterator does not end")
			}
		}
		if k != 2*len(w.nodes)+ns.Len() {
			return fmt.Errorf("MultiIterator produced %d elements, its parts have %d", k, 2*len(w.nodes)+ns.Len())
		}
		err = w.sizeEnd("MultiIterator", max, k, it.Next, 0)
	}
	if err == nil {
		err = w.interleaved(r)
	}
	return err
}

// interleaved steps several iterators in turn; each produces what the same
// call produces when drained alone.
func (w *World) interleaved(r *Rnd) error {
	g := w.g
	type maker struct {
		what string
		mk   func() lpg.Iterator
	}
	var all []maker
	add := func(what string, mk func() lpg.Iterator) { all = append(all, maker{what, mk}) }
	for i := 0; i < 3; i++ {
		switch r.N(10) {
		case 0:
			add("GetNodes", func() lpg.Iterator { return g.GetNodes() })
		case 1:
			add("GetEdges", func() lpg.Iterator { return g.GetEdges() })
		case 2:
			ls := w.pickLabels(r)
			add(fmt.Sprintf("GetNodesWithAllLabels(%q)", ls), func() lpg.Iterator { return g.GetNodesWithAllLabels(mkSet(r, ls)) })
		case 3:
			ls := labelQueries(r, w.dom.EdgeLabels, 1)[0]
			add(fmt.Sprintf("GetEdgesWithAnyLabel(%q)", ls), func() lpg.Iterator { return g.GetEdgesWithAnyLabel(mkSet(r, ls)) })
		case 4:
			q := w.genPropQuery(r, w.someProps(r))
			add("FindNodes("+fmtProps(q)+")", func() lpg.Iterator { return g.FindNodes(lpg.StringSet{}, q) })
		case 5:
			q := w.genPropQuery(r, w.someProps(r))
			add("FindEdges("+fmtProps(q)+")", func() lpg.Iterator { return g.FindEdges(lpg.StringSet{}, q) })
		case 6:
			k := w.dom.Keys[r.N(len(w.dom.Keys))]
			add("GetNodesWithProperty("+k+")", func() lpg.Iterator { return g.GetNodesWithProperty(k) })
		case 7:
			k := w.dom.Keys[r.N(len(w.dom.Keys))]
			add("GetEdgesWithProperty("+k+")", func() lpg.Iterator { return g.GetEdgesWithProperty(k) })
		default:
			if m := w.node(r); m != nil {
				d := dirs[r.N(len(dirs))]
				if r.P(1, 2) {
					add(m.name+".GetEdges("+dirName(d)+")", func() lpg.Iterator { return m.n.GetEdges(d) })
				} else {
					ls := labelQueries(r, w.dom.EdgeLabels, 1)[0]
					add(fmt.Sprintf("%s.GetEdgesWithAnyLabel(%s,%q)", m.name, dirName(d), ls), func() lpg.Iterator { return m.n.GetEdgesWithAnyLabel(d, mkSet(r, ls)) })
				}
			}
		}
	}
	limit := 4*(len(w.nodes)+len(w.edges)) + 8
	type open struct {
		maker
		it   lpg.Iterator
		left map[interface{}]int
		n    int
	}
	var its []*open
	for _, m := range all {
		alone := map[interface{}]int{}
		n := 0
		for it := m.mk(); it.Next(); {
			alone[it.Value()]++
			if n++; n > limit {
				return fmt.Errorf("%s does not end", m.what)
			}
		}
		for k := 0; k < 2; k++ {
			left := map[interface{}]int{}
			for x, c := range alone {
				left[x] = c
			}
			its = append(its, &open{m, m.mk(), left, n})
		}
	}
	for len(its) > 0 {
		i := r.N(len(its))
		o := its[i]
		if !o.it.Next() {
			if o.n != 0 {
				return fmt.Errorf("%s, stepped in turn with other iterators, ends with %d elements to go", o.what, o.n)
			}
			its = append(its[:i], its[i+1:]...)
			w.st.Inc("iterators stepped in turn", 1)
			continue
		}
		v := o.it.Value()
		if o.left[v]--; o.left[v] < 0 {
			return fmt.Errorf("%s, stepped in turn with other iterators, produces another element", o.what)
		}
		o.n--
	}
	return nil
}

func (w *World) someProps(r *Rnd) map[string]interface{} {
	if m := w.node(r); m != nil {
		return m.props
	}
	return nil
}

func (w *World) auditC07() error {
	if w.idErr != nil {
		return w.idErr
	}
	for _, m := range w.nodes {
		if m.n.GetID() != m.id {
			return fmt.Errorf("id of %s changed from %d to %d", m.name, m.id, m.n.GetID())
		}
		if m.n.GetGraph() != w.g {
			return fmt.Errorf("%s.GetGraph() is not the graph it was created in", m.name)
		}
	}
	for _, m := range w.edges {
		if m.e.GetID() != m.id {
			return fmt.Errorf("id of %s changed from %d to %d", m.name, m.id, m.e.GetID())
		}
		if m.e.GetGraph() != w.g {
			return fmt.Errorf("%s.GetGraph() is not the graph it was created in", m.name)
		}
	}
	w.st.Inc("ids checked", len(w.nodes)+len(w.edges))
	// what the graph itself enumerates carries distinct ids too
	ids := map[int]bool{}
	nodes, _ := drainNodes(w.g.GetNodes(), len(w.nodes))
	for _, n := range nodes {
		if ids[n.GetID()] {
			return fmt.Errorf("two listed nodes carry id %d", n.GetID())
		}
		ids[n.GetID()] = true
	}
	ids = map[int]bool{}
	edges, _ := drainEdges(w.g.GetEdges(), len(w.edges))
	for _, n := range edges {
		if ids[n.GetID()] {
			return fmt.Errorf("two listed edges carry id %d", n.GetID())
		}
		ids[n.GetID()] = true
	}
	return nil
}

func (w *World) auditC24(r *Rnd) error {
	a := w.adjacency()
	sources := w.filterN(func(m *MN) bool { return len(a.in[m]) == 0 })
	sinks := w.filterN(func(m *MN) bool { return len(a.out[m]) == 0 })
	if err := w.cmpNodes("Sources", lpg.Sources(w.g), true, sources); err != nil {
		return err
	}
	if err := w.cmpNodes("Sinks", lpg.Sinks(w.g), true, sinks); err != nil {
		return err
	}
	if err := w.checkNodeIt("SourcesItr", lpg.SourcesItr(w.g), sources); err != nil {
		return err
	}
	if err := w.checkNodeIt("SinksItr", lpg.SinksItr(w.g), sinks); err != nil {
		return err
	}
	w.st.Inc("sources", len(sources))
	w.st.Inc("sinks", len(sinks))
	for _, x := range w.nodes {
		for _, y := range w.nodes {
			want := w.filterE(func(e *ME) bool { return e.from == x && e.to == y })
			if err := w.cmpEdges(fmt.Sprintf("EdgesBetweenNodes(%s,%s)", x.name, y.name), lpg.EdgesBetweenNodes(x.n, y.n), true, want); err != nil {
				return err
			}
			if len(want) > 1 {
				w.st.Inc("pairs with parallel edges", 1)
			}
			if x == y && len(want) > 0 {
				w.st.Inc("self-loops seen", 1)
			}
		}
	}
	var seen []*lpg.Node
	full := lpg.ForEachNode(w.g, func(n *lpg.Node) bool { seen = append(seen, n); return len(seen) < len(w.nodes)+8 })
	if err := w.cmpNodes("ForEachNode", seen, full, w.nodes); err != nil {
		return err
	}
	if !full {
		return fmt.Errorf("ForEachNode reported an early end although it was not told to stop")
	}
	if len(w.nodes) > 0 {
		stop := 1 + r.N(len(w.nodes))
		k := 0
		full := lpg.ForEachNode(w.g, func(n *lpg.Node) bool { k++; return k != stop })
		if full || k != stop {
			return fmt.Errorf("ForEachNode told to stop at node %d of %d visited %d and returned %v", stop, len(w.nodes), k, full)
		}
		w.st.Inc("visits stopped", 1)
	}
	return nil
}

func (w *World) auditCallers() error {
	for _, c := range w.callers {
		if c.m != nil {
			if len(c.m) != len(c.copy) {
				return fmt.Errorf("%s changed: %s, was %s", c.what, fmtProps(c.m), fmtProps(c.copy))
			}
			for k, v := range c.copy {
				if x, ok := c.m[k]; !ok || !sameVal(x, v) {
					return fmt.Errorf("%s changed: %s, was %s", c.what, fmtProps(c.m), fmtProps(c.copy))
				}
			}
		}
		if c.set.M != nil {
			s := c.set.SortedSlice()
			if strings.Join(s, "\x00|") != strings.Join(c.want, "\x00|") || len(s) != len(c.want) {
				return fmt.Errorf("%s changed: %q, was %q", c.what, s, c.want)
			}
		}
		w.st.Inc("caller data compared", 1)
	}
	for _, c := range w.got {
		s := c.set.SortedSlice()
		if strings.Join(s, "\x00|") != strings.Join(c.want, "\x00|") || len(s) != len(c.want) {
			return fmt.Errorf("%s changed: %q, was %q", c.what, s, c.want)
		}
	}
	return nil
}

// auditAll is the conjunction used after removals (C08) and on copies (C09).
func (w *World) auditAll(r *Rnd, queries int) error {
	if err := w.auditC01(); err != nil {
		return err
	}
	if err := w.auditC02(w.nodes); err != nil {
		return err
	}
	if err := w.auditC03(r, w.nodes); err != nil {
		return err
	}
	if err := w.auditC04(); err != nil {
		return err
	}
	return w.auditC05(r, queries)
}
