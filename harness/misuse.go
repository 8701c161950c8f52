package main

import (
	"errors"
	"fmt"
	"math/rand"

	"github.com/cloudprivacylabs/lpg/v2"
)

// C32: variables of the wrong kind.

// misused runs pat every way and expects an error for the variable n of one
// of the given kinds, and no match. Without an error nothing may match
// without the variable either.
func misused(w *World, pp ppattern, pat lpg.Pattern, n string, syms func() map[string]*lpg.PatternSymbol, nodeErr, edgeErr, matches bool) error {
	judge := func(how string, err error, results int) error {
		if results > 0 {
			return fmt.Errorf("%s: %d results for a variable of the wrong kind", how, results)
		}
		if err == nil {
			if matches {
				return fmt.Errorf("%s: no error for a variable of the wrong kind", how)
			}
			w.st.Inc("nothing to match and no error", 1)
			return nil
		}
		var ne lpg.ErrNodeVariableExpected
		var ee lpg.ErrEdgeVariableExpected
		ok := errors.As(err, &ne) && nodeErr && string(ne) == n || errors.As(err, &ee) && edgeErr && string(ee) == n
		if !ok {
			return fmt.Errorf("%s: error %T %q", how, err, err)
		}
		w.st.Inc("errors for variables of the wrong kind", 1)
		return nil
	}
	for i := 0; i < 2; i++ { // by a plan and without
		rec, err := runPattern(w, pp, pat, syms(), nil)
		if err := judge("Run", err, len(rec.keys)); err != nil {
			return err
		}
	}
	acc, err := pat.FindPaths(w.g, syms())
	if err := judge("FindPaths", err, len(acc.Paths)+len(acc.Symbols)); err != nil {
		return err
	}
	ns, err := pat.FindNodes(w.g, syms())
	return judge("FindNodes", err, len(ns))
}

func runC32(c *Case, st *Stats) error {
	ch := &Ch{v: c.Q}
	var w *World
	var r *Rnd
	if ch.P(1, 3) {
		w, r = structured(ch, st)
	} else {
		w, r = patWorld(ch, st, 6, 8)
	}
	a := w.adjacency()
	if st.logging {
		st.Logf("graph: %s", w.describe())
	}
	for k := 0; k < 3; k++ {
		pp := genPattern(w, r, r.N(4), r.P(1, 2), true)
		// every item may be the one
		i := r.N(len(pp))
		if pp[i].name == "" {
			pp[i].name = "odd"
			pp[i].absent = false
		}
		want, ok := refMatch(w, a, pp, matchLimit)
		if !ok {
			continue
		}
		if r.P(1, 3) {
			declare(w, r)
		}
		where := func(p ppattern) string {
			return fmt.Sprintf("pattern %s, node indexes %s, edge indexes %s", p, idxList(w.idxN), idxList(w.idxE))
		}
		// one item's variable is bound to the wrong kind, others to parts of a match
		n := pp[i].name
		bs := map[string]binding{}
		if i%2 == 0 {
			b := binding{edges: map[*ME]bool{}}
			for j := r.N(3); j > 0; j-- {
				if e := w.edge(r); e != nil {
					b.edges[e] = true
				}
			}
			bs[n] = b
		} else {
			b := binding{nodes: map[*MN]bool{}}
			for j := r.N(3); j > 0; j-- {
				b.nodes[w.node(r)] = true
			}
			bs[n] = b
		}
		if len(want) > 0 {
			m := want[r.N(len(want))]
			for j, p := range pp {
				if p.name == "" || p.name == n || !r.P(1, 4) {
					continue
				}
				if j%2 == 0 {
					bs[p.name] = binding{nodes: map[*MN]bool{m.nodes[j/2]: true, w.node(r): true}}
				} else if !p.varlen() {
					bs[p.name] = binding{edges: map[*ME]bool{m.segs[j/2][0].e: true}}
				}
			}
		}
		pat, snapshot := pp.real(), pp.real()
		syms := bindings(bs)
		if err := misused(w, pp, pat, n, func() map[string]*lpg.PatternSymbol { return syms }, i%2 == 0, i%2 == 1, len(want) > 0); err != nil {
			return fmt.Errorf("%s, %s bound to the wrong kind, variables bound to %s: %w", where(pp), n, fmtBindings(bs), err)
		}
		if len(syms) != len(bs) {
			return fmt.Errorf("%s: the search changed the bindings", where(pp))
		}
		for x, b := range bs {
			if err := sameBinding(w, syms[x], b); err != nil {
				return fmt.Errorf("%s: the search changed the binding of %s: %w", where(pp), x, err)
			}
		}
		if len(want) > 0 {
			st.Inc("wrong bindings in patterns that match", 1)
			if i%2 == 1 && pp[i].varlen() {
				st.Inc("wrong bindings of variable-length items", 1)
			}
			st.Sig(hashCase(c), k)
		}
		if !unchanged(pat, snapshot) {
			return fmt.Errorf("%s: the search changed the pattern", where(pp))
		}
		// properly bound or unbound, the pattern works
		if err := comparePattern(w, pp, pat, nil, want); err != nil {
			return fmt.Errorf("%s, after the error: %w", where(pp), err)
		}
		// one name for a node and an edge
		if len(pp) > 1 {
			x := 2 * r.N((len(pp)+1)/2)
			y := 1 + 2*r.N(len(pp)/2)
			p2 := append(ppattern{}, pp...)
			cx, cy := *pp[x], *pp[y]
			cx.name, cy.name = "", ""
			cx.absent = false
			p2[x], p2[y] = &cx, &cy
			free, ok := refMatch(w, a, p2, matchLimit)
			if !ok {
				continue
			}
			cx.name, cy.name = "both", "both"
			p3 := append(ppattern{}, p2...)
			nx, ny := cx, cy
			p3[x], p3[y] = &nx, &ny
			if err := misused(w, p3, p3.real(), "both", func() map[string]*lpg.PatternSymbol { return nil }, true, true, len(free) > 0); err != nil {
				return fmt.Errorf("%s, one name for a node and an edge: %w", where(p3), err)
			}
			if len(free) > 0 {
				st.Inc("names for a node and an edge in patterns that match", 1)
				if y > x+1 || x > y+1 {
					st.Inc("such names far apart", 1)
				}
			}
		}
	}
	return afterPattern(w)
}

func init() {
	register(&Check{ID: "C32", Quick: 160000, Thorough: 2000000, Run: runC32,
		Gen:      func(r *rand.Rand, idx int) *Case { return &Case{Idx: idx, Q: randQ(r, 12)} },
		Required: []string{"wrong bindings in patterns that match", "wrong bindings of variable-length items", "names for a node and an edge in patterns that match", "such names far apart", "nothing to match and no error"},
		Rule:     "patterns derived from walks in random and structured multigraphs, with one variable bound to the wrong kind (other variables bound to parts of a match) or one name for a node and an edge; non-trivial if the pattern matches when that variable is left out"})
}
