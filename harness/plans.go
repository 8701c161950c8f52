package main

import (
	"fmt"
	"math/rand"

	"github.com/cloudprivacylabs/lpg/v2"
)

// C35: plans that are run more than once.

// stopper panics at a result, as an accumulator may to end a search.
type stopper struct{ after int }

type stopped struct{}

func (s *stopper) StoreResult(*lpg.MatchContext, *lpg.Path, map[string]interface{}) {
	if s.after--; s.after < 0 {
		panic(stopped{})
	}
}

func runC35(c *Case, st *Stats) error {
	ch := &Ch{v: c.Q}
	w, r := patWorld(ch, st, 5, 7)
	w2, _ := patWorld(ch, st, 4, 6)
	if st.logging {
		st.Logf("graph: %s", w.describe())
		st.Logf("second graph: %s", w2.describe())
	}
	pp := genPattern(w, r, r.N(4), r.P(1, 2), true)
	pat := pp.real()
	single := map[string]bool{} // variables that can be bound; true: nodes
	names := []string{}
	for i, p := range pp {
		if _, ok := single[p.name]; p.name == "" || ok || i%2 == 1 && p.varlen() {
			continue
		}
		single[p.name] = i%2 == 0
		names = append(names, p.name)
	}
	bind := func(at, other *World) map[string]binding {
		if len(names) == 0 || r.P(1, 2) {
			return nil
		}
		bs := map[string]binding{}
		for _, n := range names {
			if !r.P(1, 2) {
				continue
			}
			b := binding{}
			if single[n] {
				b.nodes = map[*MN]bool{}
			} else {
				b.edges = map[*ME]bool{}
			}
			for j := r.N(4); j >= 0; j-- {
				from := at
				if r.P(1, 5) {
					from = other
					st.Inc("objects of another graph bound", 1)
				}
				if single[n] {
					m, ok := pickGone(r, from.goneN)
					if ok && r.P(1, 3) {
						st.Inc("removed objects bound", 1)
					} else {
						m = from.node(r)
					}
					if m != nil {
						b.nodes[m] = true
					}
				} else {
					m, ok := pickGone(r, from.goneE)
					if ok && r.P(1, 3) {
						st.Inc("removed objects bound", 1)
					} else {
						m = from.edge(r)
					}
					if m != nil {
						b.edges[m] = true
					}
				}
			}
			bs[n] = b
		}
		return bs
	}
	// the plan is made for one of the graphs, or for an empty one
	var plan lpg.MatchPlan
	var err error
	bs := bind(w, w2)
	switch r.N(4) {
	case 0:
		plan, err = pat.GetPlan(lpg.NewGraph(), bindings(bs))
	case 1:
		plan, err = pat.GetPlan(w2.g, bindings(bs))
	default:
		plan, err = pat.GetPlan(w.g, bindings(bs))
	}
	if err != nil {
		return fmt.Errorf("pattern %s: GetPlan: %w", pp, err)
	}
	kinds := []uint8{opNewNode, opNewEdge, opNewEdge, opSetLabels, opSetNodeProp, opRemoveNodeProp, opSetEdgeLabel, opSetEdgeProp, opRemoveEdgeProp, opRemoveEdge, opRemoveNode, opDetach, opIndexNode, opIndexEdge, opParallel, opSelfLoop}
	ran, found := 0, 0
	for round := 0; round < 6; round++ {
		at, other := w, w2
		if r.P(1, 4) {
			at, other = w2, w
		}
		if len(at.nodes) == 0 {
			continue
		}
		for k := r.N(5); k > 0; k-- {
			o := Op{K: kinds[r.N(len(kinds))]}
			for i := range o.P {
				o.P[i] = uint32(r.U())
			}
			if len(at.nodes) > 7 && (o.K == opNewNode) || len(at.edges) > 9 && (o.K == opNewEdge || o.K == opParallel || o.K == opSelfLoop) {
				continue
			}
			if err := at.apply(o); err != nil {
				return err
			}
			if at.changed {
				st.Inc("updates between runs", 1)
			}
		}
		want, ok := refMatch(at, at.adjacency(), pp, matchLimit)
		if !ok {
			continue
		}
		bs := bind(at, other)
		syms := bindings(bs)
		if bs == nil && r.P(1, 2) {
			syms = nil
		}
		var sub []pmatch
		for _, m := range want {
			if m.allowed(pp, bs) {
				sub = append(sub, m)
			}
		}
		st.Logf("run %d: %d matches, bound %s", round, len(sub), fmtBindings(bs))
		if len(sub) > 0 && r.P(1, 4) {
			// a run that is abandoned
			if _, did := panics(func() { plan.Run(at.g, syms, &stopper{r.N(len(sub))}) }); !did {
				return fmt.Errorf("pattern %s: a run with %d matches delivered fewer", pp, len(sub))
			}
			st.Inc("abandoned runs", 1)
		}
		if len(names) > 0 && r.P(1, 6) {
			// a run that is refused, or finds nothing
			n := names[r.N(len(names))]
			s := &lpg.PatternSymbol{}
			if single[n] {
				s.Edges = lpg.NewEdgeSet()
			} else {
				s.Nodes = lpg.NewNodeSet()
			}
			rec := &recorder{w: at, pp: pp}
			if err := plan.Run(at.g, map[string]*lpg.PatternSymbol{n: s}, rec); err != nil {
				st.Inc("refused runs", 1)
			} else if len(rec.keys) > 0 {
				return fmt.Errorf("pattern %s: %d results with %s bound to the wrong kind", pp, len(rec.keys), n)
			}
		}
		rec := &recorder{w: at, pp: pp, given: syms, plan: &plan}
		if msg, did := panics(func() { err = plan.Run(at.g, syms, rec) }); did {
			return fmt.Errorf("pattern %s, run %d of a plan: %s", pp, round+1, msg)
		}
		if err == nil {
			err = rec.err
		}
		if err == nil {
			err = diffKeys(rec.keys, keysOf(pp, sub))
		}
		if err != nil {
			return fmt.Errorf("pattern %s, variables bound to %s, run %d of a plan: %w", pp, fmtBindings(bs), ran+1, err)
		}
		ran++
		if len(sub) > 0 {
			found++
		}
		// the same without a plan
		if err := comparePattern(at, pp, pat, syms, sub); err != nil {
			return fmt.Errorf("pattern %s, variables bound to %s: %w", pp, fmtBindings(bs), err)
		}
		st.Inc("runs of a plan", 1)
	}
	if found > 1 {
		st.Inc("plans that found matches more than once", 1)
		st.Sig(hashCase(c))
	}
	if err := afterPattern(w); err != nil {
		return err
	}
	return afterPattern(w2)
}

func init() {
	register(&Check{ID: "C35", Quick: 80000, Thorough: 1000000, Run: runC35,
		Gen: func(r *rand.Rand, idx int) *Case { return &Case{Idx: idx, Q: randQ(r, 24)} },
		Required: []string{"runs of a plan", "plans that found matches more than once", "updates between runs", "abandoned runs", "refused runs",
			"removed objects bound", "objects of another graph bound"},
		Rule: "one plan is run up to six times, on two graphs that are updated in between, with changing bindings that may name removed objects and objects of the other graph, after runs that were abandoned or refused; each run is compared with the reference matcher; non-trivial if at least two runs matched"})
}
