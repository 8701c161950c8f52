package main

import (
	"fmt"
	"math/rand"

	"github.com/cloudprivacylabs/lpg/v2"
)

// Checks that replay generated update histories against the model and audit
// one family of views after every step.

type histCheck struct {
	id       string
	quick    int
	thorough int
	boost    map[int]int
	index    bool
	track    bool
	noWide   bool
	audit    func(w *World, r *Rnd, small bool) error
	required []string
	rule     string
}

// wide cases are one in wideEvery: a long history on a large graph.
const wideEvery = 41 // odd: workers take every 4th or 8th case

func (h histCheck) register() {
	register(&Check{ID: h.id, Quick: h.quick, Thorough: h.thorough, Required: append([]string{"audits"}, h.required...), Rule: h.rule,
		Gen: func(r *rand.Rand, idx int) *Case {
			q := randQ(r, 8)
			if !h.noWide && idx%wideEvery == wideEvery-1 {
				q[0] = q[0]/2*2 + 1 // odd: wide
				return &Case{Q: q, Ops: genOps(r, 300+r.Intn(700), h.boost, 100+r.Intn(300))}
			}
			q[0] = q[0] / 2 * 2
			n := 4 + r.Intn(30)
			if r.Intn(4) == 0 {
				n = 30 + r.Intn(60)
			}
			return &Case{Q: q, Ops: genOps(r, n, h.boost, 2+r.Intn(14))}
		},
		Run: func(c *Case, st *Stats) error {
			ch := &Ch{v: c.Q}
			wide := ch.U()%2 == 1
			var dom *Dom
			if wide {
				dom = wideDom(ch)
				dom.Index = h.index
			} else {
				dom = domFromCh(ch, h.index)
			}
			w := newWorld(dom, st)
			w.track = h.track
			r := &Rnd{uint64(ch.U()) | uint64(ch.U())<<32}
			every := 1
			if wide {
				every = 60
				st.Inc("wide histories", 1)
			}
			step := 0
			for i, o := range c.Ops {
				if err := w.apply(o); err != nil {
					return err
				}
				if !w.changed {
					continue
				}
				step++
				if step%every == 0 || i == len(c.Ops)-1 {
					if err := h.audit(w, r, !wide); err != nil {
						return fmt.Errorf("after step %d (%s): %w", step, w.lastOp, err)
					}
					st.Inc("audits", 1)
				}
			}
			if err := h.audit(w, r, !wide); err != nil {
				return fmt.Errorf("at the end: %w", err)
			}
			st.Inc("audits", 1)
			st.Inc("steps", step)
			if step >= 3 {
				st.Sig(hashCase(c))
			}
			return nil
		}})
}

// some picks the nodes audited one by one: all of a small graph, a sample of a
// large one.
func (w *World) some(r *Rnd, small bool) []*MN {
	if small || len(w.nodes) <= 12 {
		return w.nodes
	}
	var out []*MN
	for i := 0; i < 12; i++ {
		out = append(out, w.nodes[r.N(len(w.nodes))])
	}
	return out
}

const histRule = "random update histories (phases of growth, churn, shrinking, relabelling, property updates, edge churn, copies) over small colliding domains, every 41st on a graph of hundreds of objects; a case is non-trivial if at least 3 operations changed the graph, and distinct by its operation sequence"

func init() {
	histCheck{id: "C01", quick: 220000, thorough: 2800000, boost: map[int]int{opRemoveNode: 2}, index: true,
		required: []string{"op:NewNode", "op:DetachAndRemove", "op:SetLabels", "property reads"},
		rule:     histRule,
		audit:    func(w *World, r *Rnd, small bool) error { return w.auditC01() }}.register()

	histCheck{id: "C02", quick: 174000, thorough: 2100000, boost: map[int]int{opSetEdgeLabel: 1, opRemoveEdge: 1}, index: true,
		required: []string{"op:NewEdge", "op:Edge.Remove", "op:SetEdgeLabel", "op:Detach", "op:SelfLoop"},
		rule:     histRule,
		audit:    func(w *World, r *Rnd, small bool) error { return w.auditC02(w.some(r, small)) }}.register()

	histCheck{id: "C03", quick: 22000, thorough: 280000, boost: map[int]int{opSetLabels: 2, opSetEdgeLabel: 2}, index: true,
		required: []string{"op:SetLabels", "op:SetEdgeLabel", "op:DetachAndRemove"},
		rule:     histRule,
		audit:    func(w *World, r *Rnd, small bool) error { return w.auditC03(r, w.some(r, small)) }}.register()

	histCheck{id: "C04", quick: 200000, thorough: 2600000, index: true,
		boost:    map[int]int{opSetNodeProp: 2, opSetEdgeProp: 2, opIndexNode: 1, opIndexEdge: 1, opRemoveNodeProp: 1, opRemoveEdgeProp: 1},
		required: []string{"presence lookups btree", "presence lookups hash", "presence lookups no index", "op:RemoveNodeProperty", "op:RemoveEdgeProperty", "op:Edge.Remove"},
		rule:     histRule + "; indexes of both kinds are declared at random moments",
		audit:    func(w *World, r *Rnd, small bool) error { return w.auditC04() }}.register()

	histCheck{id: "C05", quick: 66000, thorough: 830000, index: true,
		boost:    map[int]int{opSetNodeProp: 2, opSetEdgeProp: 2, opIndexNode: 1, opIndexEdge: 1, opSetLabels: 1},
		required: []string{"node searches with matches", "edge searches with matches"},
		rule:     histRule + "; searches take values from live objects, respelled, or random ones",
		audit: func(w *World, r *Rnd, small bool) error {
			n := 3
			if !small {
				n = 12
			}
			return w.auditC05(r, n)
		}}.register()

	histCheck{id: "C06", quick: 18200, thorough: 220000, index: true,
		boost:    map[int]int{opSetNodeProp: 1, opSetEdgeProp: 1, opIndexNode: 1, opIndexEdge: 1},
		required: []string{"iterators drained", "non-empty iterators", "size unknown", "size exact", "size overestimated", "iterators stepped in turn"},
		rule:     histRule + "; every iterator constructor of the API is drained at every step",
		audit:    func(w *World, r *Rnd, small bool) error { return w.auditC06(r, w.some(r, small)) }}.register()

	histCheck{id: "C07", quick: 96000, thorough: 1200000, index: true,
		boost:    map[int]int{opForeign: 4, opCopyNode: 2, opCloneEdge: 2, opCopySub: 2},
		required: []string{"refused calls", "ids checked", "op:CopyNode", "op:CloneEdge", "op:CopySubgraph"},
		rule:     histRule + "; copies into the graph and calls mixing two graphs are frequent",
		audit: func(w *World, r *Rnd, small bool) error {
			if err := w.auditC07(); err != nil {
				return err
			}
			if w.refused > 0 {
				if err := w.auditNodes(); err != nil {
					return err
				}
				if err := w.auditC02(w.some(r, small)); err != nil {
					return err
				}
				if err := w.fg.auditC01(); err != nil {
					return fmt.Errorf("the other graph: %w", err)
				}
				if err := w.fg.auditC02(w.fg.nodes); err != nil {
					return fmt.Errorf("the other graph: %w", err)
				}
				if err := w.fg.auditC07(); err != nil {
					return fmt.Errorf("the other graph: %w", err)
				}
			}
			return nil
		}}.register()

	histCheck{id: "C08", quick: 32000, thorough: 410000, index: true,
		boost:    map[int]int{opRemoveEdge: 4, opDetach: 2, opRemoveNode: 3, opNewEdge: 3, opIndexNode: 1, opIndexEdge: 1},
		required: []string{"removals audited", "op:Edge.Remove", "op:Detach", "op:DetachAndRemove", "edges of detached nodes"},
		rule:     histRule + "; all views are audited after every removal, and a detached node is connected again",
		audit: func(w *World, r *Rnd, small bool) error {
			if len(w.removedN)+len(w.removedE) == 0 && !(len(w.lastOp) == 0) && r.P(7, 8) {
				return nil
			}
			w.st.Inc("removals audited", 1)
			w.st.Inc("edges of detached nodes", len(w.removedE))
			if !small {
				if err := w.auditC01(); err != nil {
					return err
				}
				if err := w.auditC02(w.some(r, small)); err != nil {
					return err
				}
				if err := w.auditC03(r, w.some(r, small)); err != nil {
					return err
				}
				if err := w.auditC04(); err != nil {
					return err
				}
				return w.auditC05(r, 10)
			}
			return w.auditAll(r, 3)
		}}.register()

	histCheck{id: "C24", quick: 240000, thorough: 3000000, index: false, noWide: true,
		boost:    map[int]int{opSelfLoop: 1, opParallel: 1},
		required: []string{"sources", "sinks", "pairs with parallel edges", "self-loops seen", "visits stopped"},
		rule:     histRule,
		audit:    func(w *World, r *Rnd, small bool) error { return w.auditC24(r) }}.register()

	histCheck{id: "C26", quick: 90000, thorough: 1100000, index: true, track: true,
		boost:    map[int]int{opNewNode: 2, opNewEdge: 2, opFastNewNode: 2, opSetNodeProp: 3, opSetEdgeProp: 3, opRemoveNodeProp: 2, opRemoveEdgeProp: 2, opSetLabels: 4},
		required: []string{"caller data compared", "label sets read and updated", "property reads", "visits stopped"},
		rule:     histRule + "; objects are created again and again from the same property maps and label sets",
		audit:    auditC26}.register()
}

func auditC26(w *World, r *Rnd, small bool) error {
	for _, m := range w.nodes {
		if err := w.auditNodeAttrs(m); err != nil {
			return err
		}
	}
	for _, m := range w.edges {
		if err := w.auditEdgeAttrs(m); err != nil {
			return err
		}
	}
	if err := w.auditCallers(); err != nil {
		return err
	}
	stop := func(name string, h propHolder, n int) error {
		if n == 0 {
			return nil
		}
		at, k := 1+r.N(n), 0
		all := h.ForEachProperty(func(string, interface{}) bool { k++; return k != at })
		if all || k != at {
			return fmt.Errorf("%s.ForEachProperty told to stop at property %d of %d visited %d and returned %v", name, at, n, k, all)
		}
		w.st.Inc("visits stopped", 1)
		return nil
	}
	// a caller who edits what it read back affects nothing
	if m := w.node(r); m != nil {
		if err := stop(m.name, m.n, len(m.props)); err != nil {
			return err
		}
		a := m.n.GetLabels()
		b := m.n.GetLabels()
		switch r.N(3) {
		case 0:
			a.Add("private")
		case 1:
			a.Remove(w.dom.Labels...)
		case 2:
			a.AddSet(lpg.NewStringSet("private"))
		}
		w.st.Inc("label sets read and updated", 1)
		w.got = append(w.got, gotSet{set: b, want: setKeys(m.labels), what: "the label set read from " + m.name})
		if len(w.got) > 12 {
			w.got = w.got[1:]
		}
		if len(w.callers) > 24 {
			w.callers = w.callers[len(w.callers)-24:]
		}
		// and one who edits a set after passing it in
		if len(w.callers) > 0 {
			i := r.N(len(w.callers))
			if c := &w.callers[i]; c.set.M != nil {
				s := c.set
				s.Add("added later")
				if len(c.want) > 0 {
					s.Remove(c.want[0])
				}
			} else if c.m != nil && r.P(1, 4) {
				// NewNode and NewEdge copied the map: the caller may reuse it
				c.m["s9"] = "added later"
				for k := range c.m {
					if k != "s9" {
						delete(c.m, k)
						break
					}
				}
				c.copy = copyProps(c.m)
			}
		}
	}
	if m := w.edge(r); m != nil {
		if err := stop(m.name, m.e, len(m.props)); err != nil {
			return err
		}
	}
	for _, m := range w.nodes {
		if err := w.auditNodeAttrs(m); err != nil {
			return fmt.Errorf("after updating what was read or passed in: %w", err)
		}
	}
	for _, m := range w.edges {
		if err := w.auditEdgeAttrs(m); err != nil {
			return fmt.Errorf("after updating what was passed in: %w", err)
		}
	}
	return nil
}

// Counted is a property value that counts how often it is inspected.
type Counted struct {
	V interface{}
	C *int
}

func (c *Counted) GetNativeValue() interface{} { *c.C++; return c.V }
