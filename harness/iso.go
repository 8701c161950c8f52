package main

import (
	"context"
	"fmt"
	"math/rand"
	"sort"
	"time"

	"github.com/cloudprivacylabs/lpg/v2"
)

// C20: isomorphism, against a brute-force decision.

// igraph is a plain graph: node classes and edges with classes.
type igraph struct {
	n []int
	e [][3]int // from, to, class
}

// refIso tries every bijection of the nodes; the classes of the edges between
// each pair of nodes must agree as multisets. This is exact because the
// equivalences used are equivalence relations.
func refIso(a, b igraph) bool {
	if len(a.n) != len(b.n) || len(a.e) != len(b.e) {
		return false
	}
	between := func(g igraph) map[[2]int][]int {
		m := map[[2]int][]int{}
		for _, e := range g.e {
			k := [2]int{e[0], e[1]}
			m[k] = append(m[k], e[2])
		}
		for k := range m {
			sort.Ints(m[k])
		}
		return m
	}
	ma, mb := between(a), between(b)
	if len(ma) != len(mb) {
		return false
	}
	perm := make([]int, len(a.n))
	used := make([]bool, len(a.n))
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(perm) {
			for k, v := range ma {
				x := mb[[2]int{perm[k[0]], perm[k[1]]}]
				if len(x) != len(v) {
					return false
				}
				for j := range v {
					if x[j] != v[j] {
						return false
					}
				}
			}
			return true
		}
		for j := range b.n {
			if !used[j] && a.n[i] == b.n[j] {
				used[j] = true
				perm[i] = j
				if rec(i + 1) {
					return true
				}
				used[j] = false
			}
		}
		return false
	}
	return rec(0)
}

func genIgraph(ch *Ch, maxN, maxE, classes int) igraph {
	var g igraph
	n := ch.N(maxN + 1)
	for i := 0; i < n; i++ {
		g.n = append(g.n, ch.N(classes))
	}
	if n > 0 {
		for k := ch.N(maxE + 1); k > 0; k-- {
			g.e = append(g.e, [3]int{ch.N(n), ch.N(n), ch.N(classes)})
		}
	}
	return g
}

func (g igraph) clone() igraph {
	return igraph{append([]int{}, g.n...), append([][3]int{}, g.e...)}
}

// permuted renumbers the nodes and reorders the edges.
func (g igraph) permuted(ch *Ch) igraph {
	p := make([]int, len(g.n))
	for i := range p {
		p[i] = i
	}
	for i := range p {
		j := i + ch.N(len(p)-i)
		p[i], p[j] = p[j], p[i]
	}
	r := igraph{n: make([]int, len(g.n))}
	for i := range g.n {
		r.n[p[i]] = g.n[i]
	}
	for _, e := range g.e {
		r.e = append(r.e, [3]int{p[e[0]], p[e[1]], e[2]})
	}
	for i := range r.e {
		j := i + ch.N(len(r.e)-i)
		r.e[i], r.e[j] = r.e[j], r.e[i]
	}
	return r
}

// mutated changes one or two things that keep the counts.
func (g igraph) mutated(ch *Ch, classes int) igraph {
	r := g.clone()
	for k := 1 + ch.N(2); k > 0; k-- {
		switch ch.N(6) {
		case 0:
			if len(r.n) > 0 {
				r.n[ch.N(len(r.n))] = ch.N(classes)
			}
		case 1:
			if len(r.e) > 0 {
				r.e[ch.N(len(r.e))][2] = ch.N(classes)
			}
		case 2:
			if len(r.e) > 0 {
				i := ch.N(len(r.e))
				r.e[i][0], r.e[i][1] = r.e[i][1], r.e[i][0]
			}
		case 3:
			if len(r.e) > 0 {
				r.e[ch.N(len(r.e))][1] = ch.N(len(r.n))
			}
		case 4: // swap the targets of two edges: all degrees stay
			if len(r.e) > 1 {
				i, j := ch.N(len(r.e)), ch.N(len(r.e))
				r.e[i][1], r.e[j][1] = r.e[j][1], r.e[i][1]
			}
		case 5: // swap the classes of two edges
			if len(r.e) > 1 {
				i, j := ch.N(len(r.e)), ch.N(len(r.e))
				r.e[i][2], r.e[j][2] = r.e[j][2], r.e[i][2]
			}
		}
	}
	return r
}

// resized adds or drops an edge, or an isolated node, so that one graph may be
// embedded in the other.
func (g igraph) resized(ch *Ch, classes int) igraph {
	r := g.clone()
	switch ch.N(4) {
	case 0:
		r.n = append(r.n, ch.N(classes))
	case 1: // double an edge
		if len(r.e) > 0 {
			r.e = append(r.e, r.e[ch.N(len(r.e))])
		}
	case 2:
		if len(r.n) > 0 {
			r.e = append(r.e, [3]int{ch.N(len(r.n)), ch.N(len(r.n)), ch.N(classes)})
		}
	case 3:
		if len(r.e) > 0 {
			i := ch.N(len(r.e))
			r.e = append(r.e[:i], r.e[i+1:]...)
		}
	}
	return r
}

// largeIgraph makes a graph of 7 to 12 nodes with at most three nodes of a class.
func largeIgraph(ch *Ch) igraph {
	var g igraph
	n := 7 + ch.N(6)
	for c := 0; len(g.n) < n; c++ {
		for k := 1 + ch.N(2) + ch.N(8)/7; k > 0 && len(g.n) < n; k-- {
			g.n = append(g.n, c)
		}
	}
	for k := n/2 + ch.N(2*n); k > 0; k-- {
		g.e = append(g.e, [3]int{ch.N(n), ch.N(n), ch.N(3)})
	}
	// often all nodes of a class have the same edges up to exchange
	if ch.P(1, 2) {
		for i := range g.e {
			g.e[i][2] = 0
		}
	}
	return g
}

// manyIgraph makes a graph of up to 40 nodes, nearly all of classes of their
// own, with many parallel edges between some of them.
func manyIgraph(ch *Ch) igraph {
	var g igraph
	n := 8 + ch.N(33)
	twins := ch.N(4)
	for c := 0; len(g.n) < n; c++ {
		g.n = append(g.n, c)
		if twins > 0 && len(g.n) < n {
			g.n = append(g.n, c)
			twins--
		}
	}
	for k := n/2 + ch.N(n); k > 0; k-- {
		g.e = append(g.e, [3]int{ch.N(n), ch.N(n), ch.N(3)})
	}
	for b := 1 + ch.N(2); b > 0; b-- {
		x, y := ch.N(n), ch.N(n)
		for k := 2 + ch.N(24); k > 0; k-- {
			g.e = append(g.e, [3]int{x, y, ch.N(3)})
		}
	}
	return g
}

// build makes the graph. With noise, labels say nothing about the classes.
func (g igraph) build(st *Stats, ch *Ch, noiseN, noiseE bool) *World {
	w := newWorld(&Dom{Labels: []string{"A", "B", "C"}, EdgeLabels: []string{"A", "B", "C"}, Keys: []string{"i0", "i1"}, MaxNodes: 99, MaxEdges: 199}, st)
	ls := []string{"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L"}
	for i, c := range g.n {
		p := map[string]interface{}{"i0": c, "i1": i}
		l := []string{nodeClass(c)}
		if noiseN {
			l = nil
			for k := ch.N(4); k > 0; k-- {
				l = append(l, ls[ch.N(4)])
			}
		}
		w.addMN(w.g.NewNode(l, p), toSet(l), p)
	}
	for i, e := range g.e {
		p := map[string]interface{}{"i0": e[2], "i1": i}
		a, b := w.nodes[e[0]], w.nodes[e[1]]
		l := ls[e[2]]
		if noiseE {
			l = ls[ch.N(6)]
		}
		w.addME(w.g.NewEdge(a.n, b.n, l, p), a, b, l, p)
	}
	return w
}

func nodeClass(c int) string { return fmt.Sprintf("%c%d", 'A'+c%12, c/12) }

func runC20(c *Case, st *Stats) error {
	ch := &Ch{v: c.Q}
	classes := 1 + ch.N(3)
	a := genIgraph(ch, 5, 7, classes)
	large := false
	sel := ch.N(8)
	if c.Idx%31 == 30 {
		sel = 8
	}
	switch sel {
	case 8:
		ch = &Ch{v: randQ(rand.New(rand.NewSource(int64(ch.U()))), 2000)}
		a, large = manyIgraph(ch), true
		classes = 3
		st.Inc("pairs of graphs of 8 to 40 nodes", 1)
	case 0, 1:
		a = regular(ch)
	case 2:
		a, large = largeIgraph(ch), true
		classes = 3
		st.Inc("pairs of larger graphs", 1)
	}
	var b igraph
	switch ch.N(5) {
	case 0, 1:
		b = a.permuted(ch)
	case 2, 3:
		b = a.mutated(ch, classes).permuted(ch)
	case 4:
		switch b = genIgraph(ch, 5, 7, classes); {
		case ch.P(1, 2):
			b = a.resized(ch, classes).permuted(ch)
		case len(b.n) != len(a.n) || len(b.e) != len(a.e):
			b = a.mutated(ch, classes).mutated(ch, classes)
		}
	}
	// equivalences: by class, by label, or coarser
	mode := ch.N(4)
	if large {
		mode &= 2
	}
	na, nb := a.clone(), b.clone()
	nodeEq := func(x, y *lpg.Node) bool { return x.GetLabels().IsEqual(y.GetLabels()) }
	edgeEq := func(x, y *lpg.Edge) bool { return x.GetLabel() == y.GetLabel() }
	if mode&1 != 0 {
		nodeEq = func(x, y *lpg.Node) bool { return true }
		for i := range na.n {
			na.n[i] = 0
		}
		for i := range nb.n {
			nb.n[i] = 0
		}
	}
	if mode&2 != 0 {
		edgeEq = func(x, y *lpg.Edge) bool {
			p, _ := x.GetProperty("i0")
			q, _ := y.GetProperty("i0")
			return p.(int)/2 == q.(int)/2
		}
		for i := range na.e {
			na.e[i][2] /= 2
		}
		for i := range nb.e {
			nb.e[i][2] /= 2
		}
	}
	want := refIso(na, nb)
	if refIso(nb, na) != want {
		panic(harnessBug{"the reference is not symmetric"})
	}
	// the labels may have nothing to do with the equivalences
	noiseN, noiseE := ch.P(1, 3), ch.P(1, 3)
	if noiseN && mode&1 == 0 {
		nodeEq = func(x, y *lpg.Node) bool {
			p, _ := x.GetProperty("i0")
			q, _ := y.GetProperty("i0")
			return p == q
		}
	}
	if noiseE && mode&2 == 0 {
		edgeEq = func(x, y *lpg.Edge) bool {
			p, _ := x.GetProperty("i0")
			q, _ := y.GetProperty("i0")
			return p == q
		}
	}
	if noiseN || noiseE {
		st.Inc("pairs with unrelated labels", 1)
	}
	wa, wb := a.build(st, ch, noiseN, noiseE), b.build(st, ch, noiseN, noiseE)
	if st.logging {
		st.Logf("first: %s", wa.describe())
		st.Logf("second: %s", wb.describe())
		st.Logf("nodes compared by %s, edges by %s; isomorphic: %v", []string{"label", "nothing"}[mode&1], []string{"label", "i0/2"}[mode>>1], want)
	}
	for k, p := range [][2]*World{{wa, wb}, {wb, wa}} {
		got, err := lpg.CheckIsomorphism(context.Background(), p[0].g, p[1].g, nodeEq, edgeEq)
		if err != nil {
			return fmt.Errorf("unexpected error %v", err)
		}
		if got != want {
			return fmt.Errorf("answer %v (order %d), expected %v", got, k, want)
		}
	}
	if want {
		st.Inc("isomorphic", 1)
		if len(a.e) > 0 {
			st.Sig(hashCase(c))
		}
		if large {
			st.Inc("larger graphs, isomorphic", 1)
		}
	} else {
		st.Inc("not isomorphic", 1)
		if large {
			st.Inc("larger graphs, not isomorphic", 1)
		}
		if len(a.n) != len(b.n) || len(a.e) != len(b.e) {
			st.Inc("not isomorphic, different counts", 1)
		}
		if len(a.n) == len(b.n) && len(a.e) == len(b.e) {
			st.Inc("not isomorphic, equal counts", 1)
			st.Sig(hashCase(c))
		}
	}
	// reflexive whatever the graph
	if got, err := lpg.CheckIsomorphism(context.Background(), wa.g, wa.g, nodeEq, edgeEq); err != nil || !got {
		return fmt.Errorf("a graph is not isomorphic to itself (%v, %v)", got, err)
	}
	// cancellation, before or during
	ctx, cancel := context.WithCancel(context.Background())
	left := ch.N(12)
	if left == 0 {
		cancel()
	}
	got, err := lpg.CheckIsomorphism(ctx, wa.g, wb.g, func(x, y *lpg.Node) bool {
		if left--; left == 0 {
			cancel()
		}
		return nodeEq(x, y)
	}, func(x, y *lpg.Edge) bool {
		if left--; left == 0 {
			cancel()
		}
		return edgeEq(x, y)
	})
	cancelled := ctx.Err() != nil
	cancel()
	if err != nil {
		if !cancelled || err != context.Canceled {
			return fmt.Errorf("cancelled=%v, error %v", cancelled, err)
		}
		st.Inc("stopped by cancellation", 1)
	} else if got != want {
		return fmt.Errorf("with a context cancelled=%v: answer %v without error, expected %v", cancelled, got, want)
	}
	if cancelled {
		st.Inc("contexts cancelled", 1)
	}
	if ch.P(1, 150) {
		if err := longSearch(ch, st); err != nil {
			return err
		}
	}
	for _, w := range []*World{wa, wb} {
		if err := w.auditC01(); err != nil {
			return fmt.Errorf("the check changed a graph: %w", err)
		}
		if err := w.auditC02(w.nodes); err != nil {
			return fmt.Errorf("the check changed a graph: %w", err)
		}
	}
	return nil
}

const stopWithin = 25 * time.Second

// longSearch compares two graphs that differ only in how their edges hang
// together, which takes far longer than anyone would wait, and cancels.
func longSearch(ch *Ch, st *Stats) error {
	cycles := func(lens ...int) *lpg.Graph {
		g := lpg.NewGraph()
		for _, k := range lens {
			var ns []*lpg.Node
			for i := 0; i < k; i++ {
				ns = append(ns, g.NewNode([]string{"A"}, nil))
			}
			for i := range ns {
				g.NewEdge(ns[i], ns[(i+1)%k], "x", nil)
			}
		}
		return g
	}
	a, b := cycles(12), cycles(5, 7)
	var ctx context.Context
	var cancel context.CancelFunc
	want := context.Canceled
	if ch.P(1, 2) {
		ctx, cancel = context.WithTimeout(context.Background(), time.Duration(ch.N(1500))*time.Microsecond)
		want = context.DeadlineExceeded
	} else {
		ctx, cancel = context.WithCancel(context.Background())
		go func(d time.Duration) { time.Sleep(d); cancel() }(time.Duration(ch.N(1500)) * time.Microsecond)
	}
	defer cancel()
	type answer struct {
		yes bool
		err error
	}
	done := make(chan answer, 1)
	go func() {
		yes, err := lpg.CheckIsomorphism(ctx, a, b, func(x, y *lpg.Node) bool { return true }, func(x, y *lpg.Edge) bool { return true })
		done <- answer{yes, err}
	}()
	select {
	case r := <-done:
		if r.err != want {
			return fmt.Errorf("a search that was cancelled (%v) answered %v with error %v", want, r.yes, r.err)
		}
	case <-time.After(stopWithin):
		checks["C20"].NoShrink = true
		return fmt.Errorf("a search did not stop within %v of the end of its context (%v)", stopWithin, want)
	}
	st.Inc("long searches stopped", 1)
	return nil
}

// regular makes graphs in which all nodes look alike: cycles and unions of
// cycles, with multiplicities.
func regular(ch *Ch) igraph {
	var g igraph
	for len(g.n) < 5 {
		k := 1 + ch.N(4)
		if len(g.n)+k > 6 {
			break
		}
		base := len(g.n)
		for i := 0; i < k; i++ {
			g.n = append(g.n, 0)
		}
		for i := 0; i < k; i++ {
			g.e = append(g.e, [3]int{base + i, base + (i+1)%k, 0})
		}
		if ch.P(1, 3) {
			break
		}
	}
	return g
}

func init() {
	register(&Check{ID: "C20", Quick: 106000, Thorough: 1300000, Run: runC20,
		Gen:      func(r *rand.Rand, idx int) *Case { return &Case{Idx: idx, Q: randQ(r, 220)} },
		Required: []string{"isomorphic", "not isomorphic, equal counts", "not isomorphic, different counts", "larger graphs, isomorphic", "larger graphs, not isomorphic", "pairs of graphs of 8 to 40 nodes", "contexts cancelled", "stopped by cancellation", "long searches stopped", "pairs with unrelated labels"},
		Rule:     "pairs of small graphs (up to 6 nodes; up to 12 with small node classes; one pair in 31: up to 40, nearly all of different classes, with up to 25 parallel edges): permuted copies, permuted near-copies with one or two changes that keep the counts, copies with one more or one less, unions of cycles, unrelated graphs; under four combinations of equivalences; non-trivial if the counts agree and there are edges"})
}
