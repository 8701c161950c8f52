package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// C17, C18, C19: paths, path collection, cursors.

// pathWorld makes a small random multigraph.
func pathWorld(ch *Ch, st *Stats, minNodes, maxNodes, maxEdges int) *World {
	dom := &Dom{Labels: []string{"A", "B"}, EdgeLabels: []string{"x", "y", ""}, Keys: []string{"i0"}, MaxNodes: 20, MaxEdges: 40}
	w := newWorld(dom, st)
	n := minNodes + ch.N(maxNodes-minNodes+1)
	for i := 0; i < n; i++ {
		w.addMN(w.g.NewNode([]string{"A"}, nil), toSet([]string{"A"}), map[string]interface{}{})
	}
	if n == 0 {
		return w
	}
	for k := ch.N(maxEdges + 1); k > 0; k-- {
		a, b := w.nodes[ch.N(n)], w.nodes[ch.N(n)]
		l := dom.EdgeLabels[ch.N(3)]
		w.addME(w.g.NewEdge(a.n, b.n, l, nil), a, b, l, map[string]interface{}{})
	}
	if st.logging {
		st.Logf("graph %s", w.describe())
	}
	return w
}

// largeWorld makes a graph with long trails or with nodes of many edges: a
// chain, a ring or a hub with spokes, with a few random edges added.
func largeWorld(ch *Ch, st *Stats, most int) *World {
	dom := &Dom{Labels: []string{"A", "B"}, EdgeLabels: []string{"x", "y", ""}, Keys: []string{"i0"}, MaxNodes: 500, MaxEdges: 1000}
	w := newWorld(dom, st)
	n := 6 + ch.N(most-5)
	for i := 0; i < n; i++ {
		w.addMN(w.g.NewNode([]string{"A"}, nil), toSet([]string{"A"}), map[string]interface{}{})
	}
	r := &Rnd{uint64(ch.U())}
	edge := func(i, j int) {
		if r.P(1, 3) {
			i, j = j, i
		}
		a, b := w.nodes[i], w.nodes[j]
		l := dom.EdgeLabels[0]
		if r.P(1, 4) {
			l = dom.EdgeLabels[r.N(3)]
		}
		w.addME(w.g.NewEdge(a.n, b.n, l, nil), a, b, l, map[string]interface{}{})
	}
	straight := func(i, j int) {
		a, b := w.nodes[i], w.nodes[j]
		w.addME(w.g.NewEdge(a.n, b.n, "x", nil), a, b, "x", map[string]interface{}{})
	}
	switch ch.N(5) {
	case 0, 1: // all in one direction
		for i := 1; i < n; i++ {
			straight(i-1, i)
		}
		if r.P(1, 3) {
			straight(n-1, 0)
		}
	case 2: // in both
		for i := 1; i < n; i++ {
			edge(i-1, i)
		}
	default:
		for i := 1; i < n; i++ {
			edge(0, i)
		}
		if r.P(1, 2) {
			for i := 1; i < n; i++ { // all parallel, half of the time
				edge(0, 1)
			}
		}
	}
	for k := r.N(4); k > 0; k-- {
		edge(r.N(n), r.N(n))
	}
	st.Inc("large graphs", 1)
	if st.logging {
		st.Logf("graph %s", w.describe())
	}
	return w
}

func (w *World) describe() string {
	var sb strings.Builder
	for i, m := range w.nodes {
		if i > 0 {
			sb.WriteString(" ")
		}
		sb.WriteString("(" + m.name)
		for _, l := range setKeys(m.labels) {
			fmt.Fprintf(&sb, ":%q", l)
		}
		if len(m.props) > 0 {
			sb.WriteString(" " + fmtProps(m.props))
		}
		sb.WriteString(")")
	}
	for _, m := range w.edges {
		fmt.Fprintf(&sb, " %s:%s-%q", m.name, m.from.name, m.label)
		if len(m.props) > 0 {
			sb.WriteString(fmtProps(m.props))
		}
		sb.WriteString("->" + m.to.name)
	}
	return sb.String()
}

// ---- reference trails -------------------------------------------------------

type step struct {
	e   *ME
	rev bool
}

func (s step) target() *MN {
	if s.rev {
		return s.e.from
	}
	return s.e.to
}

// stepsFrom lists the steps leaving m in a direction; a self-loop is one step,
// never marked as reversed.
func (a adj) stepsFrom(m *MN, d lpg.EdgeDir) []step {
	var r []step
	if d == lpg.OutgoingEdge || d == lpg.AnyEdge {
		for _, e := range a.out[m] {
			r = append(r, step{e, false})
		}
	}
	if d == lpg.IncomingEdge || d == lpg.AnyEdge {
		for _, e := range a.in[m] {
			if e.from == e.to {
				if d == lpg.IncomingEdge {
					r = append(r, step{e, false})
				}
				continue
			}
			r = append(r, step{e, true})
		}
	}
	return r
}

// refTrails enumerates the trails of at least one edge from m whose first step
// is accepted by first and later ones by ok; false when there are more than cap.
func (a adj) refTrails(m *MN, d lpg.EdgeDir, min, max, limit int, first, ok func(*ME) bool) ([][]step, bool) {
	var out [][]step
	var cur []step
	used := map[*ME]bool{}
	work := 0
	var rec func(at *MN) bool
	rec = func(at *MN) bool {
		work++
		if work > 20*limit {
			return false
		}
		if len(cur) > 0 && (min == -1 || len(cur) >= min) && (max == -1 || len(cur) <= max) {
			out = append(out, append([]step{}, cur...))
			if len(out) > limit {
				return false
			}
		}
		if max != -1 && len(cur) >= max {
			return true
		}
		for _, s := range a.stepsFrom(at, d) {
			if used[s.e] || (len(cur) == 0 && !first(s.e)) || (len(cur) > 0 && !ok(s.e)) {
				continue
			}
			used[s.e] = true
			cur = append(cur, s)
			r := rec(s.target())
			cur = cur[:len(cur)-1]
			delete(used, s.e)
			if !r {
				return false
			}
		}
		return true
	}
	complete := rec(m)
	return out, complete
}

func stepKey(start *MN, ss []step) string {
	var sb strings.Builder
	sb.WriteString(start.name)
	for _, s := range ss {
		if s.rev {
			sb.WriteString("<" + s.e.name)
		} else {
			sb.WriteString(">" + s.e.name)
		}
	}
	return sb.String()
}

// pathKey renders a path in the same form, from nothing but what the path
// reports; the reverse mark of a self-loop is not significant.
func (w *World) pathKey(p *lpg.Path) (string, error) {
	if p == nil {
		return "", fmt.Errorf("nil path")
	}
	if p.NumNodes() == 0 {
		return "empty", nil
	}
	var sb strings.Builder
	sb.WriteString(w.nameN(p.First()))
	if p.GetNode(0) != p.First() {
		return "", fmt.Errorf("GetNode(0) is not First()")
	}
	if p.NumNodes() != p.NumEdges()+1 {
		return "", fmt.Errorf("path of %d nodes and %d edges", p.NumNodes(), p.NumEdges())
	}
	at := p.First()
	for i := 0; i < p.NumEdges(); i++ {
		e := p.GetEdge(i)
		if e == nil {
			return "", fmt.Errorf("edge %d of a path of %d is nil", i, p.NumEdges())
		}
		next := p.GetNode(i + 1)
		switch {
		case e.GetFrom() == at && e.GetTo() == next:
			sb.WriteString(">" + w.nameE(e))
		case e.GetTo() == at && e.GetFrom() == next:
			sb.WriteString("<" + w.nameE(e))
		default:
			return "", fmt.Errorf("path broken at edge %d: %s (%s to %s) does not connect %s and %s after %s", i, w.nameE(e), w.nameN(e.GetFrom()), w.nameN(e.GetTo()), w.nameN(at), w.nameN(next), sb.String())
		}
		at = next
	}
	if p.Last() != at {
		return "", fmt.Errorf("Last() is %s, the path ends at %s", w.nameN(p.Last()), w.nameN(at))
	}
	return sb.String(), nil
}

func runC17(c *Case, st *Stats) error {
	ch := &Ch{v: c.Q}
	large := c.Idx%61 == 60
	var w *World
	if large {
		w = largeWorld(ch, st, 100)
	} else {
		w = pathWorld(ch, st, 1, 5, 8)
	}
	a := w.adjacency()
	start := w.nodes[ch.N(len(w.nodes))]
	d := dirs[ch.N(3)]
	min := []int{-1, 0, 1, 1, 2, 3}[ch.N(6)]
	max := []int{-1, -1, 1, 2, 3, 4, 0}[ch.N(7)]
	if large {
		if ch.P(2, 3) {
			start = w.nodes[ch.N(3)]
		}
		n := len(w.nodes)
		min = []int{-1, 1, n / 2, n - 3, ch.N(n)}[ch.N(5)]
		max = []int{-1, -1, n, n - 2, n / 2, ch.N(n)}[ch.N(6)]
	}
	okLabels := toSet([][]string{{"x", "y", ""}, {"x", "y", ""}, {"x"}, {"x", ""}, {}}[ch.N(5)])
	var ban *ME
	if len(w.edges) > 0 && ch.P(1, 4) {
		ban = w.edges[ch.N(len(w.edges))]
	}
	ok := func(m *ME) bool { return okLabels[m.label] && m != ban }
	firstOK := ok
	if ch.P(1, 4) && len(w.edges) > 0 {
		f := w.edges[ch.N(len(w.edges))]
		firstOK = func(m *ME) bool { return ok(m) && m == f }
	}
	byEdge := map[*lpg.Edge]*ME{}
	for _, m := range w.edges {
		byEdge[m.e] = m
	}
	const limit = 3000
	want, all := a.refTrails(start, d, min, max, limit, firstOK, ok)
	stopAt := 0
	for most := 3; !all; most-- {
		if most == 0 {
			panic(harnessBug{"too many trails"})
		}
		max = most
		if large {
			min = 1
			want, all = a.refTrails(start, d, min, max, 12000, firstOK, ok)
		} else {
			want, all = a.refTrails(start, d, min, max, 200000, firstOK, ok)
		}
	}
	if len(want) > 0 && ch.P(1, 4) {
		stopAt = 1 + ch.N(len(want))
	}
	if st.logging {
		st.Logf("from %s %s min %d max %d accepted labels %q, not %v; stop after %d", start.name, dirName(d), min, max, setKeys(okLabels), ban, stopAt)
	}
	// the first leg: an iterator over the accepted edges in the direction
	first := &predEdges{it: start.n.GetEdges(d), ok: func(e *lpg.Edge) bool { return byEdge[e] != nil && firstOK(byEdge[e]) }}
	wantSet := map[string]bool{}
	for _, t := range want {
		wantSet[stepKey(start, t)] = true
	}
	var got []*lpg.Path
	var keys []string
	seen := map[string]bool{}
	var failed error
	stopped := false
	lpg.CollectAllPaths(w.g, start.n, first, func(e *lpg.Edge) bool { return byEdge[e] != nil && ok(byEdge[e]) }, d, min, max, func(p *lpg.Path) bool {
		if stopped {
			if failed == nil {
				failed = fmt.Errorf("a path was reported after the receiver declined")
			}
			return false
		}
		k, err := w.pathKey(p)
		if err == nil {
			switch {
			case seen[k]:
				err = fmt.Errorf("path %s reported twice", k)
			case !wantSet[k]:
				err = fmt.Errorf("path %s reported, which is not a trail within the bounds", k)
			}
		}
		if err != nil {
			failed, stopped = err, true
			return false
		}
		seen[k] = true
		got = append(got, p)
		keys = append(keys, k)
		if len(got) == stopAt {
			stopped = true
			return false
		}
		return true
	})
	if failed != nil {
		return failed
	}
	if stopAt > 0 {
		st.Inc("receivers that declined", 1)
		if len(got) != stopAt {
			return fmt.Errorf("%d paths reported, the receiver declined at %d", len(got), stopAt)
		}
	} else if len(got) != len(want) {
		for _, t := range want {
			if k := stepKey(start, t); !seen[k] {
				return fmt.Errorf("%d of %d paths reported; %s is missing", len(got), len(want), k)
			}
		}
	}
	for i, p := range got {
		if p.NumEdges() > 20 {
			st.Inc("paths of more than 20 edges", 1)
		}
		k, err := w.pathKey(p)
		if err != nil || k != keys[i] {
			return fmt.Errorf("path %s changed after it was reported: %s %v", keys[i], k, err)
		}
	}
	st.Inc("paths reported", len(got))
	st.Inc("searches "+dirName(d), 1)
	if len(got) > 0 {
		st.Sig(hashCase(c))
	}
	for _, k := range keys {
		if strings.Contains(k, "<") && strings.Contains(k, ">") {
			st.Inc("paths of mixed direction", 1)
		}
	}
	if err := w.auditC02(w.nodes); err != nil {
		return fmt.Errorf("the search changed the graph: %w", err)
	}
	return nil
}

type predEdges struct {
	it lpg.EdgeIterator
	ok func(*lpg.Edge) bool
}

func (p *predEdges) Next() bool {
	for p.it.Next() {
		if p.ok(p.it.Edge()) {
			return true
		}
	}
	return false
}
func (p *predEdges) Value() interface{} { return p.it.Value() }
func (p *predEdges) Edge() *lpg.Edge    { return p.it.Edge() }
func (p *predEdges) MaxSize() int       { return p.it.MaxSize() }

// ---- path algebra -----------------------------------------------------------

type mpath struct {
	p     *lpg.Path
	start *MN // nil: empty
	ss    []step
	name  string
}

func (m *mpath) nodes() []*MN {
	if m.start == nil {
		return nil
	}
	r := []*MN{m.start}
	for _, s := range m.ss {
		r = append(r, s.target())
	}
	return r
}

func (m *mpath) last() *MN {
	n := m.nodes()
	if len(n) == 0 {
		return nil
	}
	return n[len(n)-1]
}

func elems(ss []step) []lpg.PathElement {
	r := make([]lpg.PathElement, len(ss))
	for i, s := range ss {
		r[i] = lpg.PathElement{Edge: s.e.e, Reverse: s.rev}
	}
	return r
}

func (m *mpath) check(w *World) error {
	ns := m.nodes()
	p := m.p
	if p.NumNodes() != len(ns) || p.NumEdges() != len(m.ss) || p.IsEmpty() != (len(ns) == 0) {
		return fmt.Errorf("%s: %d nodes, %d edges, empty=%v; expected %d and %d", m.name, p.NumNodes(), p.NumEdges(), p.IsEmpty(), len(ns), len(m.ss))
	}
	if len(ns) == 0 {
		if p.First() != nil || p.Last() != nil || p.GetEdge(0) != nil {
			return fmt.Errorf("%s: empty path with a first or last node or an edge", m.name)
		}
		if _, did := panics(func() { p.GetNode(0) }); !did {
			return fmt.Errorf("%s: an empty path has a node 0", m.name)
		}
		return nil
	}
	if _, did := panics(func() { p.GetNode(len(ns)) }); !did {
		return fmt.Errorf("%s: a path of %d nodes has a node %d", m.name, len(ns), len(ns))
	}
	if p.First() != ns[0].n || p.Last() != ns[len(ns)-1].n {
		return fmt.Errorf("%s: runs from %s to %s, expected %s to %s", m.name, w.nameN(p.First()), w.nameN(p.Last()), ns[0].name, ns[len(ns)-1].name)
	}
	for i, n := range ns {
		if p.GetNode(i) != n.n {
			return fmt.Errorf("%s: GetNode(%d)=%s, expected %s", m.name, i, w.nameN(p.GetNode(i)), n.name)
		}
	}
	for i, s := range m.ss {
		if p.GetEdge(i) != s.e.e {
			return fmt.Errorf("%s: GetEdge(%d)=%s, expected %s", m.name, i, w.nameE(p.GetEdge(i)), s.e.name)
		}
	}
	if p.GetEdge(len(m.ss)) != nil {
		return fmt.Errorf("%s: GetEdge(%d) of %d edges is not nil", m.name, len(m.ss), len(m.ss))
	}
	return nil
}

func isPrefix(p, q *mpath) bool {
	if q.start == nil {
		return true
	}
	if p.start != q.start || len(q.ss) > len(p.ss) {
		return false
	}
	for i := range q.ss {
		if p.ss[i] != q.ss[i] {
			return false
		}
	}
	return true
}

func runC18(c *Case, st *Stats) error {
	ch := &Ch{v: c.Q}
	w := pathWorld(ch, st, 1, 4, 8)
	a := w.adjacency()
	// how long paths get, and how much longer in one step
	most, joined, grow, ops := 8, 12, 4, 30
	long := c.Idx%61 == 60
	if long {
		most = 20 + ch.N(280)
		joined, grow, ops = 2*most, most, 16
	}
	var pool []*mpath
	serial := 0
	add := func(p *lpg.Path, start *MN, ss []step) *mpath {
		serial++
		m := &mpath{p: p, start: start, ss: append([]step{}, ss...), name: fmt.Sprintf("p%d", serial)}
		if len(pool) < 7 {
			pool = append(pool, m)
		} else {
			pool[ch.N(len(pool))] = m
		}
		return m
	}
	walk := func(from *MN, n int) []step {
		var ss []step
		pick := ch.N
		if n > 8 {
			pick = (&Rnd{uint64(ch.U())}).N
		}
		for ; n > 0; n-- {
			next := a.stepsFrom(from, lpg.AnyEdge)
			if len(next) == 0 {
				break
			}
			s := next[pick(len(next))]
			ss = append(ss, s)
			from = s.target()
		}
		return ss
	}
	node := func() *MN { return w.nodes[ch.N(len(w.nodes))] }
	// slices given to the library, with the spare capacity callers may use
	type given struct{ buf, was []lpg.PathElement }
	var lent []given
	lend := func(ss []step) []lpg.PathElement {
		buf := elems(ss)
		n := len(buf)
		for k := ch.N(3); k > 0 && len(w.edges) > 0; k-- {
			buf = append(buf, lpg.PathElement{Edge: w.edges[ch.N(len(w.edges))].e})
		}
		if len(lent) == 8 {
			lent = lent[1:]
		}
		lent = append(lent, given{buf, append([]lpg.PathElement{}, buf...)})
		return buf[:n]
	}
	// diverge takes steps off the end of one of two paths with common steps
	// and goes elsewhere from there
	diverge := func(a, b *mpath) {
		if ch.P(1, 3) {
			return
		}
		if ch.P(1, 2) {
			a = b
		}
		for k := ch.N(3); k > 0 && len(a.ss) > 0; k-- {
			a.p.RemoveLast()
			a.ss = a.ss[: len(a.ss)-1 : len(a.ss)-1]
		}
		from := a.last()
		if from == nil {
			return
		}
		ss := walk(from, 1+ch.N(2))
		a.p.Append(elems(ss)...)
		a.ss = append(append([]step{}, a.ss...), ss...)
		st.Logf("%s shortened and continued with %s", a.name, stepKey(from, ss))
		st.Inc("copies continued elsewhere", 1)
	}
	n0 := node()
	add(lpg.PathFromNode(n0.n), n0, nil)
	add(&lpg.Path{}, nil, nil)
	steps := 0
	for ; steps < ops && !ch.Done(); steps++ {
		if len(pool) == 0 {
			n := node()
			add(lpg.PathFromNode(n.n), n, nil)
		}
		m := pool[ch.N(len(pool))]
		op := ch.N(14)
		switch op {
		case 0:
			n := node()
			x := add(lpg.PathFromNode(n.n), n, nil)
			st.Logf("%s=PathFromNode(%s)", x.name, n.name)
		case 1:
			n := node()
			ss := walk(n, 1+ch.N(grow))
			if len(ss) > 0 {
				el := lend(ss)
				x := add(lpg.NewPathFromElements(el...), n, ss)
				st.Logf("%s=NewPathFromElements(%s)", x.name, stepKey(n, ss))
				if ch.P(1, 3) { // a second path from the same slice
					y := add(lpg.NewPathFromElements(el...), n, ss)
					st.Logf("%s=NewPathFromElements(the same)", y.name)
				}
				var es []*lpg.Edge
				for _, s := range ss {
					if s.rev {
						break
					}
					es = append(es, s.e.e)
				}
				pe := lpg.NewPathElementsFromEdges(es)
				if len(pe) != len(es) {
					return fmt.Errorf("NewPathElementsFromEdges made %d elements of %d edges", len(pe), len(es))
				}
				for i := range pe {
					if pe[i] != (lpg.PathElement{Edge: es[i]}) || pe[i].GetSourceNode() != es[i].GetFrom() || pe[i].GetTargetNode() != es[i].GetTo() {
						return fmt.Errorf("NewPathElementsFromEdges: element %d is not edge %s", i, w.nameE(es[i]))
					}
				}
				for i, s := range ss {
					f, t := s.e.from, s.e.to
					if s.rev {
						f, t = t, f
					}
					if el[i].GetSourceNode() != f.n || el[i].GetTargetNode() != t.n {
						return fmt.Errorf("step %d of %s runs from %s to %s", i, stepKey(n, ss), w.nameN(el[i].GetSourceNode()), w.nameN(el[i].GetTargetNode()))
					}
				}
			}
		case 2:
			x := add(m.p.Clone(), m.start, m.ss)
			st.Logf("%s=%s.Clone()", x.name, m.name)
			st.Inc("clones", 1)
			diverge(m, x)
		case 3, 4: // append steps
			if len(m.ss) > most {
				continue
			}
			from := m.last()
			if from == nil {
				from = node()
			}
			ss := walk(from, 1+ch.N(grow-1))
			el := lend(ss)
			if m.p.Append(el...) != m.p {
				return fmt.Errorf("Append did not return its receiver")
			}
			for i, e := range elems(ss) {
				if el[i] != e {
					return fmt.Errorf("Append changed its argument")
				}
			}
			if m.start == nil && len(ss) > 0 {
				m.start = from
			}
			m.ss = append(append([]step{}, m.ss...), ss...)
			st.Logf("%s.Append(%s)", m.name, stepKey(from, ss))
			st.Inc("appends", 1)
		case 5: // append a path that fits
			var fit []*mpath
			for _, q := range pool {
				if q != m && (q.start == nil || m.start == nil || q.start == m.last()) && len(m.ss)+len(q.ss) < joined {
					fit = append(fit, q)
				}
			}
			if len(fit) == 0 {
				continue
			}
			q := fit[ch.N(len(fit))]
			st.Logf("%s.AppendPath(%s) (%d and %d nodes)", m.name, q.name, len(m.nodes()), len(q.nodes()))
			st.Inc(fmt.Sprintf("AppendPath %s to %s", sizeName(q), sizeName(m)), 1)
			if m.p.AppendPath(q.p) != m.p {
				return fmt.Errorf("AppendPath did not return its receiver")
			}
			if m.start == nil {
				m.start = q.start
			}
			m.ss = append(append([]step{}, m.ss...), q.ss...)
			diverge(m, q)
		case 6: // append a path that does not fit
			var bad []*mpath
			for _, q := range pool {
				if q != m && q.start != nil && m.start != nil && q.start != m.last() {
					bad = append(bad, q)
				}
			}
			if len(bad) == 0 {
				continue
			}
			q := bad[ch.N(len(bad))]
			st.Logf("%s.AppendPath(%s) does not fit", m.name, q.name)
			if _, did := panics(func() { m.p.AppendPath(q.p) }); !did {
				return fmt.Errorf("AppendPath accepted a path that does not start at the last node")
			}
			st.Inc("refused appends", 1)
		case 7: // append steps that do not fit
			if m.start == nil || len(w.edges) == 0 {
				continue
			}
			s := step{w.edges[ch.N(len(w.edges))], false}
			if s.e.from != s.e.to {
				s.rev = ch.P(1, 2)
			}
			from := s.e.from
			if s.rev {
				from = s.e.to
			}
			pre := []step(nil)
			if ch.P(1, 2) {
				pre = walk(m.last(), 1)
			}
			at := m.last()
			if len(pre) > 0 {
				at = pre[0].target()
			}
			if from == at {
				continue
			}
			st.Logf("%s.Append(%s,...) does not fit", m.name, s.e.name)
			if _, did := panics(func() { m.p.Append(elems(append(append([]step{}, pre...), s))...) }); !did {
				return fmt.Errorf("Append accepted a disconnected edge")
			}
			st.Inc("refused appends", 1)
		case 8: // slice
			ns := m.nodes()
			n := len(ns)
			if ch.P(1, 3) { // outside the path
				i, j := n+ch.N(3), -1
				if n > 1 && ch.P(1, 3) {
					i = 1 + ch.N(n-1)
					j = ch.N(i)
				} else if ch.P(1, 2) {
					j = i + ch.N(3)
				}
				st.Logf("%s.Slice(%d,%d) of %d nodes", m.name, i, j, n)
				if _, did := panics(func() { m.p.Slice(i, j) }); !did {
					return fmt.Errorf("Slice(%d,%d) of a path with %d nodes was not refused", i, j, n)
				}
				st.Inc("slices outside a path refused", 1)
				continue
			}
			if n > 0 && (n == 1 || ch.P(1, 4)) { // one node
				i := ch.N(n)
				j := i
				if i == n-1 {
					j = []int{i, i + 1, i + 2, -1}[ch.N(4)]
				}
				x := add(m.p.Slice(i, j), ns[i], nil)
				st.Logf("%s=%s.Slice(%d,%d)", x.name, m.name, i, j)
				st.Inc("slices of one node", 1)
				continue
			}
			if n < 2 {
				continue
			}
			i := ch.N(len(ns) - 1)
			j := i + 2 + ch.N(len(ns)-i-1)
			arg := j
			if j == len(ns) && ch.P(1, 2) {
				arg = -1
			} else if j == len(ns) && ch.P(1, 3) {
				arg = j + 1 + ch.N(3)
			}
			x := add(m.p.Slice(i, arg), ns[i], m.ss[i:j-1])
			st.Logf("%s=%s.Slice(%d,%d)", x.name, m.name, i, arg)
			st.Inc("slices", 1)
			diverge(m, x)
		case 9:
			st.Logf("%s.RemoveLast() (%d nodes)", m.name, len(m.nodes()))
			m.p.RemoveLast()
			switch {
			case len(m.ss) > 0:
				m.ss = m.ss[: len(m.ss)-1 : len(m.ss)-1]
			default:
				m.start = nil
			}
			st.Inc("shortened at the end", 1)
		case 10:
			st.Logf("%s.RemoveFirst() (%d nodes)", m.name, len(m.nodes()))
			m.p.RemoveFirst()
			switch {
			case len(m.ss) > 0:
				m.start = m.ss[0].target()
				m.ss = m.ss[1:]
			default:
				m.start = nil
			}
			st.Inc("shortened at the start", 1)
		case 11:
			if ch.P(1, 3) {
				m.p.Clear()
				m.start, m.ss = nil, nil
				st.Logf("%s.Clear()", m.name)
			} else if ch.P(1, 2) {
				n := node()
				m.p.SetOnlyNode(n.n)
				m.start, m.ss = n, nil
				st.Logf("%s.SetOnlyNode(%s)", m.name, n.name)
			}
		case 12, 13: // prefixes
			for _, q := range pool {
				got := m.p.HasPrefixPath(q.p)
				want := isPrefix(m, q)
				if got != want {
					return fmt.Errorf("%s.HasPrefixPath(%s)=%v: %s and %s", m.name, q.name, got, stepKeyOr(m), stepKeyOr(q))
				}
				if got {
					st.Inc("prefixes", 1)
				} else {
					st.Inc("non-prefixes", 1)
				}
				if len(m.ss) == 0 && len(q.ss) > 0 && m.p.HasPrefix(elems(q.ss)) {
					return fmt.Errorf("%s.HasPrefix(steps of %s) holds: %s and %s", m.name, q.name, stepKeyOr(m), stepKeyOr(q))
				}
				if len(m.ss) > 0 {
					want := len(q.ss) == 0 || isPrefix(&mpath{start: q.start, ss: m.ss}, q)
					if got := m.p.HasPrefix(elems(q.ss)); got != want {
						return fmt.Errorf("%s.HasPrefix(steps of %s)=%v: %s and %s", m.name, q.name, got, stepKeyOr(m), stepKeyOr(q))
					}
				}
			}
		}
		for _, x := range pool {
			if err := x.check(w); err != nil {
				return fmt.Errorf("after step %d: %w", steps, err)
			}
			st.Inc("paths compared", 1)
			if len(x.ss) > 50 {
				st.Inc("paths of more than 50 edges compared", 1)
			}
		}
		for _, g := range lent {
			for i := range g.buf {
				if g.buf[i] != g.was[i] {
					return fmt.Errorf("step %d (operation %d on %s) changed element %d of a slice given to an earlier call", steps, op, m.name, i)
				}
			}
			st.Inc("argument slices compared", 1)
		}
		if w.g.NumEdges() != len(w.edges) || w.g.NumNodes() != len(w.nodes) {
			return fmt.Errorf("a path operation changed the graph: %d edges, expected %d", w.g.NumEdges(), len(w.edges))
		}
	}
	st.Inc("path operations", steps)
	if len(w.edges) > 0 {
		st.Sig(hashCase(c))
	}
	if err := w.auditC02(w.nodes); err != nil {
		return fmt.Errorf("path operations changed the graph: %w", err)
	}
	return w.auditC01()
}

func stepKeyOr(m *mpath) string {
	if m.start == nil {
		return "empty"
	}
	return stepKey(m.start, m.ss)
}

func sizeName(m *mpath) string {
	switch {
	case m.start == nil:
		return "empty"
	case len(m.ss) == 0:
		return "single"
	}
	return "longer"
}

// ---- cursors ----------------------------------------------------------------

func uniqNodes(ns []*MN) []*MN {
	seen := map[*MN]bool{}
	var r []*MN
	for _, n := range ns {
		if !seen[n] {
			seen[n] = true
			r = append(r, n)
		}
	}
	return r
}

// cursorLists compares what a cursor standing at m lists with the model.
func (w *World) cursorLists(a adj, cur *lpg.Cursor, m *MN, labels []string) error {
	other := func(m *MN, e *ME) *MN {
		if e.from == m {
			return e.to
		}
		return e.from
	}
	for _, d := range dirs {
		es := a.dir(m, d)
		ends := func(es []*ME) []*MN {
			var ns []*MN
			for _, e := range es {
				ns = append(ns, other(m, e))
			}
			return uniqNodes(ns)
		}
		with := func(l string) []*ME {
			var r []*ME
			for _, e := range es {
				if e.label == l {
					r = append(r, e)
				}
			}
			return r
		}
		if err := w.checkEdgeIt("cursor at "+m.name+": Edges("+dirName(d)+")", cur.Edges(d), es); err != nil {
			return err
		}
		if err := w.checkNodeIt("cursor at "+m.name+": Nodes("+dirName(d)+")", cur.Nodes(d), ends(es)); err != nil {
			return err
		}
		for _, l := range labels {
			what := fmt.Sprintf("cursor at %s, label %q, %s: ", m.name, l, dirName(d))
			if err := w.checkEdgeIt(what+"EdgesWith", cur.EdgesWith(d, l), with(l)); err != nil {
				return err
			}
			if err := w.checkNodeIt(what+"NodesWith", cur.NodesWith(d, l), ends(with(l))); err != nil {
				return err
			}
			switch d {
			case lpg.OutgoingEdge:
				if err := w.checkEdgeIt(what+"ForwardWith", cur.ForwardWith(l), with(l)); err != nil {
					return err
				}
				if err := w.checkNodeIt(what+"NextNodesWith", cur.NextNodesWith(l), ends(with(l))); err != nil {
					return err
				}
				if err := w.cmpNodes(what+"package NextNodesWith", lpg.NextNodesWith(m.n, l), true, ends(with(l))); err != nil {
					return err
				}
			case lpg.IncomingEdge:
				if err := w.checkEdgeIt(what+"BackwardWith", cur.BackwardWith(l), with(l)); err != nil {
					return err
				}
				if err := w.checkNodeIt(what+"PrevNodesWith", cur.PrevNodesWith(l), ends(with(l))); err != nil {
					return err
				}
				if err := w.cmpNodes(what+"package PrevNodesWith", lpg.PrevNodesWith(m.n, l), true, ends(with(l))); err != nil {
					return err
				}
			}
		}
		switch d {
		case lpg.OutgoingEdge:
			if err := w.checkEdgeIt("Forward", cur.Forward(), es); err != nil {
				return err
			}
			if err := w.checkNodeIt("NextNodes", cur.NextNodes(), ends(es)); err != nil {
				return err
			}
		case lpg.IncomingEdge:
			if err := w.checkEdgeIt("Backward", cur.Backward(), es); err != nil {
				return err
			}
			if err := w.checkNodeIt("PrevNodes", cur.PrevNodes(), ends(es)); err != nil {
				return err
			}
		}
		var froms, tos []*MN
		for _, e := range es {
			froms, tos = append(froms, e.from), append(tos, e.to)
		}
		if err := w.cmpNodes("TargetNodes of "+m.name+" "+dirName(d), lpg.TargetNodes(m.n.GetEdges(d)), true, uniqNodes(tos)); err != nil {
			return err
		}
		if err := w.cmpNodes("SourceNodes of "+m.name+" "+dirName(d), lpg.SourceNodes(m.n.GetEdges(d)), true, uniqNodes(froms)); err != nil {
			return err
		}
		if got := lpg.EdgeSlice(m.n.GetEdges(d)); w.cmpEdges("EdgeSlice", got, true, es) != nil {
			return w.cmpEdges("EdgeSlice", got, true, es)
		}
	}
	return nil
}

func runC19(c *Case, st *Stats) error {
	ch := &Ch{v: c.Q}
	large := c.Idx%127 == 126
	var w *World
	if large {
		w = largeWorld(ch, st, 80)
	} else {
		w = pathWorld(ch, st, 1, 5, 10)
	}
	a := w.adjacency()
	labels := []string{"x", "y", "", "absent"}
	// without a node
	var nc lpg.Cursor
	for _, d := range dirs {
		if nc.Edges(d).Next() || nc.EdgesWith(d, "x").Next() || nc.Nodes(d).Next() || nc.NodesWith(d, "x").Next() {
			return fmt.Errorf("a cursor without a node lists something")
		}
	}
	if nc.Forward().Next() || nc.Backward().Next() || nc.NextNodes().Next() || nc.PrevNodes().Next() || nc.ForwardWith("x").Next() || nc.BackwardWith("x").Next() || nc.NextNodesWith("x").Next() || nc.PrevNodesWith("x").Next() {
		return fmt.Errorf("a cursor without a node lists something")
	}
	st.Inc("cursors without a node", 1)
	lists := func(cur *lpg.Cursor, m *MN) error { return w.cursorLists(a, cur, m, labels) }
	for _, m := range w.nodes {
		var cur lpg.Cursor
		if cur.Set(m.n) != &cur {
			return fmt.Errorf("Set did not return its receiver")
		}
		if err := lists(&cur, m); err != nil {
			return err
		}
	}
	// a walk
	m := w.nodes[ch.N(len(w.nodes))]
	var cur lpg.Cursor
	cur.Set(m.n).StartPath()
	x := &mpath{start: m, name: "the cursor's path"}
	at := m
	moves, fwd := 16, 3
	if large || c.Idx%127 == 63 {
		moves, fwd = 100, 4
		ch = &Ch{v: randQ(rand.New(rand.NewSource(int64(ch.U()))), 300)}
	}
	for i := 0; i < moves; i++ {
		if ch.P(fwd, 5) {
			if out := a.out[at]; len(out) > 0 {
				e := out[ch.N(len(out))]
				st.Logf("at %s: PushToPath(%s)", at.name, e.name)
				cur.PushToPath(e.e)
				x.ss = append(x.ss, step{e, false})
				at = e.to
				st.Inc("steps forward", 1)
			}
		} else if len(x.ss) > 0 {
			st.Logf("at %s: PopFromPath", at.name)
			cur.PopFromPath()
			at = x.ss[len(x.ss)-1].e.from
			x.ss = x.ss[:len(x.ss)-1]
			st.Inc("steps back", 1)
		}
		if len(x.ss) > 30 {
			st.Inc("cursor paths of more than 30 edges", 1)
		}
		x.p = cur.GetPath()
		if err := x.check(w); err != nil {
			return err
		}
		if err := w.checkEdgeIt("cursor after moving, at "+at.name+": Forward", cur.Forward(), a.out[at]); err != nil {
			return err
		}
		if err := w.checkEdgeIt("cursor after moving, at "+at.name+": Backward", cur.Backward(), a.in[at]); err != nil {
			return err
		}
	}
	if err := lists(&cur, at); err != nil {
		return err
	}
	if len(w.edges) > 0 {
		st.Sig(hashCase(c))
	}
	if err := w.auditC02(w.nodes); err != nil {
		return fmt.Errorf("the cursor changed the graph: %w", err)
	}
	return nil
}

func init() {
	gen := func(n int) func(r *rand.Rand, idx int) *Case {
		return func(r *rand.Rand, idx int) *Case { return &Case{Idx: idx, Q: randQ(r, n)} }
	}
	register(&Check{ID: "C17", Quick: 860000, Thorough: 4000000, Gen: gen(80), Run: runC17,
		Required: []string{"paths reported", "receivers that declined", "paths of mixed direction", "searches Incoming", "searches Any", "searches Outgoing", "paths of more than 20 edges"},
		Rule:     "random multigraphs of up to 5 nodes and 8 edges (one in 61: chains, rings and hubs of up to 100 nodes) with cycles, parallel edges and self-loops, random direction, bounds, edge filter, first leg and point at which the receiver declines; non-trivial if a path was reported"})
	register(&Check{ID: "C18", Quick: 500000, Thorough: 4000000, Gen: gen(300), Run: runC18,
		Required: []string{"paths compared", "clones", "slices", "slices of one node", "slices outside a path refused", "refused appends", "shortened at the end", "shortened at the start", "prefixes", "non-prefixes",
			"AppendPath single to single", "AppendPath longer to single", "AppendPath single to empty", "AppendPath empty to single", "AppendPath empty to longer", "AppendPath longer to empty", "AppendPath longer to longer", "paths of more than 50 edges compared"},
		Rule: "random operation sequences on a pool of paths over a random multigraph, paths of up to 12 edges (one sequence in 61: up to 600), every path compared with its model after every operation; non-trivial if the graph has edges"})
	register(&Check{ID: "C19", Quick: 420000, Thorough: 4000000, Gen: gen(100), Run: runC19,
		Required: []string{"cursors without a node", "steps forward", "steps back", "enumerations", "cursor paths of more than 30 edges", "large graphs"},
		Rule:     "random multigraphs of up to 5 nodes and 10 edges (one in 127: chains, rings and hubs of up to 80 nodes), every listing of every node in every direction and label, and a random walk forward and back; non-trivial if the graph has edges"})
}
