package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
	"time"

	"github.com/cloudprivacylabs/lpg/v2"
)

// C23: concurrent readers of one graph, and concurrent users of distinct
// graphs. The harness is built with the race detector. Nothing here
// synchronizes the goroutines between the start and the end of a phase, so that
// the detector's happens-before order contains only what the library adds:
// every goroutine has its own statistics, clock readings and view of the model,
// which nobody writes meanwhile.

// span is one operation of one goroutine.
type span struct {
	kind     string
	from, to time.Time
}

type task struct {
	w     *World
	st    *Stats
	r     *Rnd
	spans []span
	err   error
	bug   interface{}
}

// view is a World other goroutines may use at the same time, as long as none
// of them updates it.
func (w *World) view() *World {
	v := *w
	v.st = newStats()
	return &v
}

func (t *task) do(kind string, f func() error) bool {
	s := span{kind: kind, from: time.Now()}
	err := f()
	s.to = time.Now()
	t.spans = append(t.spans, s)
	if err != nil {
		t.err = fmt.Errorf("%s: %w", kind, err)
	}
	if t.r.P(1, 4) {
		runtime.Gosched()
	}
	return err == nil
}

// concurrently runs the bodies together, from a common start.
func concurrently(ts []*task, st *Stats, body func(t *task, i int)) error {
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i, t := range ts {
		wg.Add(1)
		go func(t *task, i int) {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(harnessBug); ok {
						t.bug = x
						return
					}
					t.err = fmt.Errorf("unexpected panic: %v\n%s", x, trimStack(debug.Stack()))
				}
			}()
			<-start
			body(t, i)
		}(t, i)
	}
	close(start)
	wg.Wait()
	var err error
	for i, t := range ts {
		if t.bug != nil {
			panic(t.bug)
		}
		if t.err != nil && err == nil {
			err = fmt.Errorf("goroutine %d of %d: %w", i+1, len(ts), t.err)
		}
		for k, n := range t.st.Counters {
			st.Counters[k] += n
		}
	}
	// which operations overlapped, and in which order they started
	for i, a := range ts {
		for _, b := range ts[i+1:] {
			for _, x := range a.spans {
				for _, y := range b.spans {
					if x.from.Before(y.to) && y.from.Before(x.to) {
						st.Inc("overlapping operations", 1)
						if x.kind < y.kind {
							st.Inc("overlap:"+x.kind+"|"+y.kind, 1)
						} else {
							st.Inc("overlap:"+y.kind+"|"+x.kind, 1)
						}
					}
				}
			}
		}
	}
	type ev struct {
		at   time.Time
		what string
	}
	var evs []ev
	for i, t := range ts {
		for _, s := range t.spans {
			evs = append(evs, ev{s.from, fmt.Sprint("+", i)}, ev{s.to, fmt.Sprint("-", i)})
		}
		st.Inc("concurrent operations", len(t.spans))
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].at.Before(evs[j].at) })
	order := ""
	for _, e := range evs {
		order += e.what
	}
	st.Sig(order)
	return err
}

// readers are the operations that only read; each compares what it got with
// the model, that is, with the answer it gets alone.
var readers = []struct {
	kind string
	json bool // needs a graph of JSON values
	run  func(w *World, r *Rnd, st *Stats) error
}{
	{"list", false, func(w *World, r *Rnd, st *Stats) error {
		if err := w.auditC01(); err != nil {
			return err
		}
		if err := w.auditC02(w.nodes); err != nil {
			return err
		}
		return w.auditC07()
	}},
	{"labels", false, func(w *World, r *Rnd, st *Stats) error { return w.auditC03(r, w.nodes) }},
	{"presence", false, func(w *World, r *Rnd, st *Stats) error { return w.auditC04() }},
	{"search", false, func(w *World, r *Rnd, st *Stats) error { return w.auditC05(r, 6) }},
	{"sizes", false, func(w *World, r *Rnd, st *Stats) error { return w.auditC06(r, w.nodes) }},
	{"topology", false, func(w *World, r *Rnd, st *Stats) error { return w.auditC24(r) }},
	{"own label sets", false, func(w *World, r *Rnd, st *Stats) error {
		for _, m := range w.nodes {
			a := m.n.GetLabels()
			b := a.Clone()
			a.Add("private")
			b.Remove(w.dom.Labels...)
			b.AddSet(a)
			if !a.Has("private") || !m.n.HasLabel("private") == m.labels["private"] {
				return fmt.Errorf("label sets of %s: a private copy could not be updated alone", m.name)
			}
			if err := w.auditNodeAttrs(m); err != nil {
				return err
			}
		}
		return nil
	}},
	{"pattern", false, func(w *World, r *Rnd, st *Stats) error {
		for k := 0; k < 2; k++ {
			pp := genPattern(w, r, r.N(4), r.P(1, 3), r.P(1, 2))
			want, ok := refMatch(w, w.adjacency(), pp, 400)
			if !ok {
				continue
			}
			if err := comparePattern(w, pp, pp.real(), nil, want); err != nil {
				return fmt.Errorf("pattern %s: %w", pp, err)
			}
		}
		return nil
	}},
	{"paths", false, func(w *World, r *Rnd, st *Stats) error {
		m := w.node(r)
		d := dirs[r.N(3)]
		want, ok := w.adjacency().refTrails(m, d, 1, 3, 500, yes, yes)
		if !ok {
			return nil
		}
		keys := make([]string, len(want))
		for i, t := range want {
			keys[i] = stepKey(m, t)
		}
		var got []string
		var bad error
		lpg.CollectAllPaths(w.g, m.n, m.n.GetEdges(d), func(*lpg.Edge) bool { return true }, d, 1, 3, func(p *lpg.Path) bool {
			k, err := w.pathKey(p)
			if err != nil {
				bad = err
			}
			got = append(got, k)
			return len(got) < 1000
		})
		if bad != nil {
			return bad
		}
		return diffKeys(got, keys)
	}},
	{"cursor", false, func(w *World, r *Rnd, st *Stats) error {
		a := w.adjacency()
		for k := 0; k < 3; k++ {
			m := w.node(r)
			cur := &lpg.Cursor{}
			cur.Set(m.n)
			if err := w.cursorLists(a, cur, m, w.dom.EdgeLabels); err != nil {
				return err
			}
		}
		return nil
	}},
	{"copy", false, func(w *World, r *Rnd, st *Stats) error {
		dst := newWorld(w.dom, w.st)
		if r.P(1, 2) {
			declare(dst, r)
		}
		if err := copyStep(w, dst, r, st); err != nil {
			return err
		}
		return dst.auditAll(r, 2)
	}},
	{"isomorphism", false, func(w *World, r *Rnd, st *Stats) error {
		got, err := lpg.CheckIsomorphism(context.Background(), w.g, w.g,
			func(a, b *lpg.Node) bool { return a == b && a.GetLabels().IsEqual(b.GetLabels()) },
			func(a, b *lpg.Edge) bool { return a == b && a.GetLabel() == b.GetLabel() })
		if err != nil || !got {
			return fmt.Errorf("a graph is not isomorphic to itself: %v", err)
		}
		return nil
	}},
	{"encode", true, func(w *World, r *Rnd, st *Stats) error {
		j := lpg.JSON{MarshalEdgesSeparately: r.P(1, 2)}
		var buf bytes.Buffer
		if err := j.Encode(w.g, &buf); err != nil {
			return err
		}
		got, err := readDoc(buf.Bytes(), j.MarshalEdgesSeparately)
		if err != nil {
			return fmt.Errorf("the document %s: %w", buf.Bytes(), err)
		}
		if err := sameJ(got, modelJ(w, nil)); err != nil {
			return fmt.Errorf("the document %s: %w", buf.Bytes(), err)
		}
		dst := lpg.NewGraph()
		if err := j.Decode(dst, json.NewDecoder(bytes.NewReader(buf.Bytes()))); err != nil {
			return fmt.Errorf("decoding: %w", err)
		}
		back, err := jgraphOf(dst, nil)
		if err != nil {
			return err
		}
		return sameJ(back, modelJ(w, nil))
	}},
	{"render", false, func(w *World, r *Rnd, st *Stats) error {
		var buf bytes.Buffer
		if err := (lpg.DOTRenderer{}).Render(w.g, "g", &buf); err != nil {
			return err
		}
		g, err := parseDOT(buf.String())
		if err != nil {
			return fmt.Errorf("the output %q: %w", buf.String(), err)
		}
		if len(g.nodes) != len(w.nodes) || len(g.edges) != len(w.edges) {
			return fmt.Errorf("%d nodes and %d edges rendered, expected %d and %d", len(g.nodes), len(g.edges), len(w.nodes), len(w.edges))
		}
		return sameDot(w, g)
	}},
}

// grow adds n nodes and as many edges.
func (w *World) grow(r *Rnd, n int) {
	for i := 0; i < n; i++ {
		ls, p := w.pickLabels(r), w.pickProps(r)
		w.addMN(w.g.NewNode(ls, p), toSet(ls), copyProps(p))
	}
	for i := 0; i < n; i++ {
		a, b := w.nodes[r.N(len(w.nodes))], w.nodes[r.N(len(w.nodes))]
		l, p := w.dom.EdgeLabels[r.N(len(w.dom.EdgeLabels))], w.pickProps(r)
		w.addME(w.g.NewEdge(a.n, b.n, l, p), a, b, l, copyProps(p))
	}
}

func yes(*ME) bool { return true }

func runC23(c *Case, st *Stats) error {
	ch := &Ch{v: c.Q}
	mode := ch.N(3)
	ng := 2 + ch.N(4)
	r := &Rnd{uint64(ch.U()) | uint64(ch.U())<<32}
	seedOf := func(i int) *Rnd { return &Rnd{uint64(ch.U()) | uint64(i+1)<<32} }
	var base *World
	isJSON := mode == 1
	if isJSON {
		base = genJWorld(ch, st, true, 10, 14)
	} else {
		base = newWorld(domFromCh(ch, true), st)
		n := len(c.Ops)
		if mode == 2 {
			n = n / 3
		}
		for _, o := range c.Ops[:n] {
			if err := base.apply(o); err != nil {
				return err
			}
		}
		if mode < 2 && r.P(1, 6) {
			base.grow(r, 30+r.N(60))
			st.Inc("larger graphs read concurrently", 1)
		}
		if r.P(1, 2) {
			declare(base, r)
		}
	}
	ts := make([]*task, ng)
	for i := range ts {
		ts[i] = &task{w: base.view(), r: seedOf(i)}
		ts[i].st = ts[i].w.st
	}
	if mode < 2 {
		// readers on one graph; nothing has read it before
		if len(base.nodes) == 0 {
			return nil
		}
		per := 2 + ch.N(5)
		same := ch.P(1, 3) // all do the same, each in its own order
		first := ch.N(len(readers))
		err := concurrently(ts, st, func(t *task, i int) {
			for k := 0; k < per; k++ {
				x := &readers[t.r.N(len(readers))]
				if same && k == 0 {
					x = &readers[first]
				}
				if isJSON && k%2 == 1 {
					x = &readers[len(readers)-1-t.r.N(2)]
				}
				if x.json && !isJSON {
					x = &readers[t.r.N(4)]
				}
				if !t.do(x.kind, func() error { return x.run(t.w, t.r, t.st) }) {
					return
				}
			}
		})
		if err != nil {
			return err
		}
		st.Inc("graphs read concurrently", 1)
		// nobody changed anything
		return base.auditAll(r, 2)
	}
	// distinct graphs of common origin: first every goroutine makes its own
	// from the same graph and the same label sets
	var sets []lpg.StringSet
	for _, m := range base.nodes {
		sets = append(sets, m.n.GetLabels())
	}
	sets = append(sets, lpg.NewStringSet("A"), lpg.NewStringSet("A", "B"), lpg.NewStringSet())
	setLabels := make([][]string, len(sets))
	for i, s := range sets {
		setLabels[i] = s.SortedSlice()
	}
	err := concurrently(ts, st, func(t *task, i int) {
		src := t.w
		t.w = newWorld(src.dom, t.st)
		if t.r.P(1, 2) {
			declare(t.w, t.r)
		}
		t.do("derive by copying", func() error {
			for k := 0; k < 3 && len(t.w.nodes) == 0; k++ {
				if err := copyStep(src, t.w, t.r, t.st); err != nil {
					return err
				}
			}
			return nil
		})
		if t.err != nil {
			return
		}
		t.do("build from label sets", func() error {
			for k := 1 + t.r.N(4); k > 0; k-- {
				s := t.r.N(len(sets))
				t.w.addMN(t.w.g.FastNewNode(sets[s], nil), toSet(setLabels[s]), map[string]interface{}{})
			}
			m := t.w.node(t.r)
			s := t.r.N(len(sets))
			m.n.SetLabels(sets[s])
			m.labels = toSet(setLabels[s])
			return t.w.auditAll(t.r, 1)
		})
	})
	if err != nil {
		return err
	}
	// then all graphs, the original too, are updated and read at the same time
	all := append([]*task{{w: base.view(), r: seedOf(ng)}}, ts...)
	all[0].st = all[0].w.st
	for _, t := range all {
		t.spans = nil
		t.st = newStats()
		t.w.st = t.st
	}
	ops := c.Ops[len(c.Ops)/3:]
	err = concurrently(all, st, func(t *task, i int) {
		// each takes its own part of the history
		chunk := len(ops)/len(all) + 1
		for k := 0; k < chunk*2; k++ {
			at := i*chunk + k
			if at >= len(ops) {
				break
			}
			o := ops[at]
			if !t.do("update", func() error { return t.w.apply(o) }) {
				return
			}
			if len(t.w.nodes) > 0 && t.r.P(1, 6) {
				x := &readers[t.r.N(len(readers))]
				if x.json {
					x = &readers[t.r.N(4)]
				}
				if !t.do(x.kind, func() error { return x.run(t.w, t.r, t.st) }) {
					return
				}
			}
		}
		t.do("audit", func() error {
			if err := t.w.auditAll(t.r, 2); err != nil {
				return err
			}
			return t.w.auditC07()
		})
	})
	if err != nil {
		return err
	}
	for i, t := range all {
		if err := t.w.auditAll(t.r, 2); err != nil {
			return fmt.Errorf("graph %d afterwards: %w", i, err)
		}
	}
	for i, s := range sets {
		if !sameStrs(s.SortedSlice(), setLabels[i]) {
			return fmt.Errorf("a label set graphs were built from changed from %q to %q", setLabels[i], s.SortedSlice())
		}
	}
	st.Inc("families of graphs updated concurrently", 1)
	return nil
}

func init() {
	register(&Check{ID: "C23", Quick: 4000, Thorough: 63000, Run: runC23, Race: true,
		Gen: func(r *rand.Rand, idx int) *Case {
			return &Case{Idx: idx, Q: randQ(r, 40), Ops: genOps(r, 10+r.Intn(60), nil, 4+r.Intn(12))}
		},
		Required: []string{"graphs read concurrently", "families of graphs updated concurrently", "overlapping operations", "larger graphs read concurrently"},
		Rule:     "under the race detector, 2-5 goroutines read one fresh graph at once (search, patterns, paths, cursors, copies, encoding, rendering), each comparing with the model, or derive graphs from one graph and one collection of label sets and then all update theirs at once; non-trivial and distinct by the order in which the operations started and ended"})
}
