package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// C14, C15, C16: pattern search against a reference matcher.

type pitem struct {
	labels   []string
	props    map[string]interface{}
	min, max int
	left     bool
	undir    bool
	name     string
	absent   bool // the pattern ends with the edge before it
}

func (p *pitem) varlen() bool { return !(p.min == 1 && p.max == 1) }

func (p *pitem) dir() lpg.EdgeDir {
	switch {
	case p.undir:
		return lpg.AnyEdge
	case p.left:
		return lpg.IncomingEdge
	}
	return lpg.OutgoingEdge
}

func (p *pitem) okN(m *MN) bool { return hasAllLabels(m, p.labels) && matchProps(m.props, p.props) }

func (p *pitem) okE(m *ME) bool {
	return (len(p.labels) == 0 || inStrs(m.label, p.labels)) && matchProps(m.props, p.props)
}

type ppattern []*pitem

func (pp ppattern) String() string {
	var sb strings.Builder
	for i, p := range pp {
		var l []string
		for _, x := range p.labels {
			l = append(l, fmt.Sprintf(":%q", x))
		}
		s := p.name + strings.Join(l, "")
		if len(p.props) > 0 {
			s += fmtProps(p.props)
		}
		if p.absent {
			continue
		}
		if i%2 == 0 {
			sb.WriteString("(" + s + ")")
			continue
		}
		if p.varlen() {
			s += fmt.Sprintf("*%d..%d", p.min, p.max)
		}
		switch {
		case p.undir:
			sb.WriteString("-[" + s + "]-")
		case p.left:
			sb.WriteString("<-[" + s + "]-")
		default:
			sb.WriteString("-[" + s + "]->")
		}
	}
	return sb.String()
}

func (pp ppattern) real() lpg.Pattern {
	r := make(lpg.Pattern, len(pp))
	for i, p := range pp {
		if p.absent {
			return r[:i]
		}
		it := lpg.PatternItem{Min: p.min, Max: p.max, ToLeft: p.left, Undirected: p.undir, Name: p.name}
		if len(p.labels) > 0 || len(p.name) == 1 {
			it.Labels = lpg.NewStringSet(p.labels...)
		}
		if len(p.props) > 0 || i == 2 {
			it.Properties = copyProps(p.props)
		}
		r[i] = it
	}
	return r
}

func (pp ppattern) names() map[string]int {
	m := map[string]int{}
	for _, p := range pp {
		if p.name != "" {
			m[p.name]++
		}
	}
	return m
}

// pmatch is one assignment: nodes for even items, trails for odd ones.
type pmatch struct {
	nodes []*MN
	segs  [][]step
}

// refMatch returns the matches of a pattern. It gives up when they, or those
// of any part of the pattern whatever its ends, are too many: the search may
// start anywhere, meets the matches of the parts and looks at the node at the
// end of a path last.
func refMatch(w *World, a adj, pp ppattern, limit int) ([]pmatch, bool) {
	out, ok := refMatchPart(w, a, pp, limit)
	if !ok {
		return nil, false
	}
	vars := len(pp) > 7
	for i, p := range pp {
		vars = vars || i%2 == 1 && p.varlen()
	}
	for i := 0; vars && i < len(pp); i += 2 {
		for j := i + 2; j < len(pp); j += 2 {
			part := append(ppattern{}, pp[i:j+1]...)
			part[0], part[len(part)-1] = &pitem{}, &pitem{}
			if _, ok := refMatchPart(w, a, part, 2*limit); !ok {
				return nil, false
			}
		}
	}
	return out, true
}

// refMatch enumerates the assignments; false if there are more than limit.
func refMatchPart(w *World, a adj, pp ppattern, limit int) ([]pmatch, bool) {
	var out []pmatch
	cur := pmatch{}
	nodeEnv, edgeEnv := map[string]*MN{}, map[string]*ME{}
	complete := true
	work := 0
	var edgeAt func(i int)
	nodeAt := func(i int, m *MN) {
		p := pp[i]
		if work++; work > 50*limit {
			complete = false
		}
		if !complete || !p.okN(m) {
			return
		}
		if p.name != "" {
			if old, ok := nodeEnv[p.name]; ok {
				if old != m {
					return
				}
			} else {
				nodeEnv[p.name] = m
				defer delete(nodeEnv, p.name)
			}
		}
		cur.nodes = append(cur.nodes, m)
		if i == len(pp)-1 {
			out = append(out, pmatch{append([]*MN{}, cur.nodes...), append([][]step{}, cur.segs...)})
			if len(out) > limit {
				complete = false
			}
		} else {
			edgeAt(i + 1)
		}
		cur.nodes = cur.nodes[:len(cur.nodes)-1]
	}
	edgeAt = func(i int) {
		p := pp[i]
		from := cur.nodes[len(cur.nodes)-1]
		var segs [][]step
		if p.varlen() {
			var ok bool
			segs, ok = a.refTrails(from, p.dir(), p.min, p.max, limit, p.okE, p.okE)
			if !ok {
				complete = false
				return
			}
		} else {
			for _, s := range a.stepsFrom(from, p.dir()) {
				if p.okE(s.e) {
					segs = append(segs, []step{s})
				}
			}
		}
		for _, s := range segs {
			set := false
			if p.name != "" && !p.varlen() {
				if old, ok := edgeEnv[p.name]; ok {
					if old != s[0].e {
						continue
					}
				} else {
					edgeEnv[p.name] = s[0].e
					set = true
				}
			}
			cur.segs = append(cur.segs, s)
			nodeAt(i+1, s[len(s)-1].target())
			cur.segs = cur.segs[:len(cur.segs)-1]
			if set {
				delete(edgeEnv, p.name)
			}
		}
	}
	for _, m := range w.nodes {
		nodeAt(0, m)
	}
	return out, complete
}

// key renders a match the way results are rendered.
func (m pmatch) key(pp ppattern) string {
	names := pp.names()
	var all []step
	syms := map[string]string{}
	for i, p := range pp {
		if i%2 == 1 {
			s := m.segs[i/2]
			all = append(all, s...)
			if p.name != "" {
				if names[p.name] > 1 {
					syms[p.name] = s[0].e.name
				} else {
					syms[p.name] = stepKey(m.nodes[i/2], s)
				}
			}
		} else if p.name != "" {
			syms[p.name] = m.nodes[i/2].name
		}
	}
	return stepKey(m.nodes[0], all) + " " + fmtStrs(syms)
}

func fmtStrs(m map[string]string) string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		ks[i] = k + "=" + m[k]
	}
	return "{" + strings.Join(ks, " ") + "}"
}

func (w *World) resultKey(pp ppattern, p *lpg.Path, syms map[string]interface{}) (string, error) {
	names := pp.names()
	k, err := w.pathKey(p)
	if err != nil {
		return "", fmt.Errorf("a result's path: %w", err)
	}
	m := map[string]string{}
	for name, v := range syms {
		switch x := v.(type) {
		case *lpg.Node:
			m[name] = w.nameN(x)
		case *lpg.Path:
			s, err := w.pathKey(x)
			if err != nil {
				return "", fmt.Errorf("the path captured by %q: %w", name, err)
			}
			if names[name] > 1 {
				if x.NumEdges() != 1 {
					return "", fmt.Errorf("%q captured %s instead of one edge", name, s)
				}
				s = w.nameE(x.GetEdge(0))
			}
			m[name] = s
		default:
			return "", fmt.Errorf("%q captured a %T", name, v)
		}
	}
	return k + " " + fmtStrs(m), nil
}

// recorder is a MatchAccumulator that renders results as they arrive.
type recorder struct {
	w    *World
	pp   ppattern
	keys []string
	path []*lpg.Path
	syms []map[string]interface{}
	err  error
	// each is called once, at the first result
	during func() error
	given  map[string]*lpg.PatternSymbol
	plan   *lpg.MatchPlan
}

type tooMany struct{}

// current compares the search's current variables with the reported ones.
func (r *recorder) current(ctx *lpg.MatchContext, syms map[string]interface{}) error {
	if ctx.Graph != r.w.g {
		return fmt.Errorf("the match context has another graph")
	}
	if len(ctx.Symbols) != len(r.given) {
		return fmt.Errorf("the match context has %d given variables, expected %d", len(ctx.Symbols), len(r.given))
	}
	for n, s := range r.given {
		if ctx.Symbols[n] != s {
			return fmt.Errorf("the match context has another binding of %q", n)
		}
	}
	if len(ctx.LocalSymbols) != len(syms) {
		return fmt.Errorf("the match context has %d current variables, expected %d", len(ctx.LocalSymbols), len(syms))
	}
	for n, v := range syms {
		s := ctx.LocalSymbols[n]
		if s == nil {
			return fmt.Errorf("the match context lacks %q", n)
		}
		switch x := v.(type) {
		case *lpg.Node:
			if l := s.NodeSlice(); len(l) != 1 || l[0] != x || s.EdgeSlice() != nil {
				return fmt.Errorf("the current value of %q is not the reported node", n)
			}
		case *lpg.Path:
			if s.NodeSlice() != nil {
				return fmt.Errorf("the current value of %q has nodes", n)
			}
			l := s.EdgeSlice()
			in := map[*lpg.Edge]bool{}
			for i := 0; i < l.NumEdges(); i++ {
				in[l.GetEdge(i)] = true
			}
			for i := 0; i < x.NumEdges(); i++ {
				if !in[x.GetEdge(i)] {
					return fmt.Errorf("the current value of %q lacks a reported edge", n)
				}
			}
			if l.NumEdges() != x.NumEdges() {
				return fmt.Errorf("the current value of %q has %d edges, reported are %d", n, l.NumEdges(), x.NumEdges())
			}
		}
	}
	return nil
}

func (r *recorder) StoreResult(ctx *lpg.MatchContext, p *lpg.Path, syms map[string]interface{}) {
	k, err := r.w.resultKey(r.pp, p, syms)
	if err == nil {
		err = r.current(ctx, syms)
	}
	if r.plan != nil && err == nil {
		// the plan shows what is being delivered
		var c string
		if c, err = r.w.resultKey(r.pp, r.plan.GetCurrentPath(), r.plan.CaptureSymbolValues()); err == nil && c != k {
			err = fmt.Errorf("%s is delivered while the plan shows %s", k, c)
		}
	}
	if r.during != nil && err == nil {
		err = r.during()
		r.during = nil
	}
	if err != nil && r.err == nil {
		r.err = err
	}
	r.keys = append(r.keys, k)
	r.path = append(r.path, p)
	r.syms = append(r.syms, syms)
	if len(r.keys) > 20000 {
		panic(tooMany{})
	}
}

func diffKeys(got, want []string) error {
	cnt := map[string]int{}
	for _, k := range want {
		cnt[k]++
	}
	var extra, missing []string
	for _, k := range got {
		if cnt[k]--; cnt[k] < 0 {
			extra = append(extra, k)
		}
	}
	for k, n := range cnt {
		for ; n > 0; n-- {
			missing = append(missing, k)
		}
	}
	if len(extra)+len(missing) == 0 {
		return nil
	}
	sort.Strings(extra)
	sort.Strings(missing)
	cut := func(s []string) []string {
		if len(s) > 6 {
			return append(append([]string{}, s[:6]...), fmt.Sprintf("... %d in all", len(s)))
		}
		return s
	}
	return fmt.Errorf("%d results, expected %d; too many: %q; missing: %q", len(got), len(want), cut(extra), cut(missing))
}

func keysOf(pp ppattern, ms []pmatch) []string {
	r := make([]string, len(ms))
	for i, m := range ms {
		r[i] = m.key(pp)
	}
	return r
}

// runPattern runs the real search and renders its results.
func runPattern(w *World, pp ppattern, pat lpg.Pattern, syms map[string]*lpg.PatternSymbol, during func() error) (rec *recorder, err error) {
	rec = &recorder{w: w, pp: pp, given: syms, during: during}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(tooMany); ok {
				err = nil
				rec.err = fmt.Errorf("more than 20000 results, the first: %q", rec.keys[:6])
				return
			}
			panic(r)
		}
	}()
	w.searches++
	if w.searches%2 == 0 {
		err = pat.Run(w.g, syms, rec)
		return
	}
	plan, err := pat.GetPlan(w.g, syms)
	if err != nil {
		return rec, err
	}
	rec.plan = &plan
	w.st.Inc("searches by a plan", 1)
	err = plan.Run(w.g, syms, rec)
	return
}

// compare judges one run.
func comparePattern(w *World, pp ppattern, pat lpg.Pattern, syms map[string]*lpg.PatternSymbol, want []pmatch) error {
	// searches within the search
	var during func() error
	if len(want) > 0 && len(want) < 50 {
		during = func() error {
			for _, p := range []lpg.Pattern{pat, pp.real(), {{}}} {
				n := len(want)
				if len(p) == 1 && len(pp) != 1 {
					n = len(w.nodes)
				} else if len(p) == 1 {
					continue
				}
				acc, err := p.FindPaths(w.g, syms)
				if err != nil {
					return fmt.Errorf("a search within the search: %w", err)
				}
				if len(acc.Paths) != n {
					return fmt.Errorf("a search within the search found %d matches, expected %d", len(acc.Paths), n)
				}
			}
			w.st.Inc("searches within searches", 2)
			return nil
		}
	}
	rec, err := runPattern(w, pp, pat, syms, during)
	if err != nil {
		return fmt.Errorf("error %v", err)
	}
	if rec.err != nil {
		return rec.err
	}
	w.st.Inc("pattern runs", 1)
	w.st.Inc("matches", len(rec.keys))
	if err := diffKeys(rec.keys, keysOf(pp, want)); err != nil {
		return err
	}
	// what was reported does not change as the search goes on
	for i, p := range rec.path {
		k, err := w.resultKey(pp, p, rec.syms[i])
		if err != nil {
			return fmt.Errorf("afterwards: %w", err)
		}
		if k != rec.keys[i] {
			return fmt.Errorf("result %s reads %s after the search", rec.keys[i], k)
		}
	}
	return nil
}

// ---- generation -------------------------------------------------------------

func patWorld(ch *Ch, st *Stats, maxN, maxE int) (*World, *Rnd) {
	r := &Rnd{uint64(ch.U()) | uint64(ch.U())<<32}
	d := &Dom{MaxNodes: 99, MaxEdges: 99, Index: true, Labels: []string{"A", "B", "C"}, EdgeLabels: []string{"x", "y", ""}[:1+r.N(3)]}
	d.Keys = pickSome(r, []string{"i0", "s0", "n0", "m0", "l0", "t0", "a0", "h0"}, 1, 2)
	w := newWorld(d, st)
	if ch.P(1, 2) {
		declare(w, r)
	}
	n := 1 + ch.N(maxN)
	small := func() map[string]interface{} {
		p := map[string]interface{}{}
		for _, k := range d.Keys {
			if r.P(1, 2) {
				p[k] = genValue(&Rnd{uint64(r.N(3))}, k, 0)
			}
		}
		return p
	}
	for i := 0; i < n; i++ {
		ls, p := w.pickLabels(r), small()
		w.addMN(w.g.NewNode(ls, p), toSet(ls), copyProps(p))
	}
	for k := ch.N(maxE + 1); k > 0; k-- {
		a, b := w.nodes[r.N(n)], w.nodes[r.N(n)]
		if r.P(1, 8) {
			b = a
		}
		if len(w.edges) > 0 && r.P(1, 6) {
			a, b = w.edges[0].from, w.edges[0].to
		}
		l, p := d.EdgeLabels[r.N(len(d.EdgeLabels))], small()
		w.addME(w.g.NewEdge(a.n, b.n, l, p), a, b, l, copyProps(p))
	}
	return w, r
}

// declare indexes some keys, before or after the data.
func declare(w *World, r *Rnd) {
	for _, k := range w.dom.Keys {
		for _, nodes := range []bool{true, false} {
			if r.P(1, 2) {
				w.declareIndex(r, k, nodes)
			}
		}
	}
}

func (w *World) patProps(r *Rnd, from map[string]interface{}, den int) map[string]interface{} {
	if !r.P(1, den) {
		return nil
	}
	q := map[string]interface{}{}
	ks := propKeys(from)
	if len(ks) > 0 && r.P(5, 6) {
		k := ks[r.N(len(ks))]
		if _, _, ok := refNorm(from[k]); ok {
			q[k] = respell(r, from[k])
			return q
		}
	}
	k := w.dom.Keys[r.N(len(w.dom.Keys))]
	q[k] = genQueryValue(r, k, 0)
	return q
}

// genPattern derives a pattern from a walk in the graph, so that it tends to
// match; when the walk ends, items are made up.
func genPattern(w *World, r *Rnd, hops int, varOK, namesOK bool) ppattern {
	a := w.adjacency()
	at := w.node(r)
	var pp ppattern
	nodeName := map[*MN]string{}
	edgeName := map[*ME]string{}
	serial := 0
	nodeItem := func(m *MN) *pitem {
		p := &pitem{}
		if m != nil {
			for _, l := range setKeys(m.labels) {
				if r.P(1, 3) {
					p.labels = append(p.labels, l)
				}
			}
			p.props = w.patProps(r, m.props, 4)
		}
		if r.P(1, 16) {
			p.labels = append(p.labels, w.dom.Labels[r.N(len(w.dom.Labels))])
		}
		if namesOK && r.P(1, 2) {
			serial++
			p.name = fmt.Sprintf("n%d", serial)
			if old := nodeName[m]; old != "" && r.P(1, 2) {
				p.name = old // the same variable again
			} else if len(nodeName) > 0 && r.P(1, 8) {
				for _, s := range nodeName {
					if p.name == "" || s < p.name {
						p.name = s
					}
				}
			}
			nodeName[m] = p.name
		}
		return p
	}
	pp = append(pp, nodeItem(at))
	for h := 0; h < hops; h++ {
		p := &pitem{min: 1, max: 1}
		switch r.N(5) {
		case 0, 1:
			p.left = true
		case 2:
			p.undir = true
		}
		var s *step
		if at != nil {
			if ss := a.stepsFrom(at, p.dir()); len(ss) > 0 {
				s = &ss[r.N(len(ss))]
			} else if ss := a.stepsFrom(at, lpg.AnyEdge); len(ss) > 0 {
				s = &ss[r.N(len(ss))]
				p.undir, p.left = r.P(1, 3), false
				if !p.undir {
					p.left = s.rev
				}
			}
		}
		if s != nil {
			if r.P(1, 3) {
				p.labels = []string{s.e.label}
				if r.P(1, 3) {
					p.labels = append(p.labels, "x")
				}
			}
			p.props = w.patProps(r, s.e.props, 5)
		} else if r.P(1, 3) {
			p.labels = []string{w.dom.EdgeLabels[r.N(len(w.dom.EdgeLabels))]}
		}
		if namesOK && r.P(1, 3) {
			serial++
			p.name = fmt.Sprintf("e%d", serial)
			if s != nil {
				if old := edgeName[s.e]; old != "" && r.P(1, 2) {
					p.name = old
				}
			}
		}
		isVar := varOK && r.P(1, 2)
		if isVar {
			serial++
			if p.name != "" {
				p.name = fmt.Sprintf("p%d", serial)
			}
			p.min = []int{-1, 1, 1, 2, 2, 3, 0}[r.N(7)]
			p.max = []int{-1, -1, 1, 2, 2, 3, 4}[r.N(7)]
			if !p.varlen() {
				p.max = 2
			}
		} else if p.name != "" && s != nil {
			edgeName[s.e] = p.name
		}
		pp = append(pp, p)
		at2 := at
		if s != nil {
			at2 = s.target()
			if isVar && r.P(1, 2) {
				// walk on
				if ss := a.stepsFrom(at2, p.dir()); len(ss) > 0 {
					at2 = ss[r.N(len(ss))].target()
				}
			}
		}
		if s == nil {
			at2 = nil
		}
		at = at2
		pp = append(pp, nodeItem(at))
	}
	if hops > 0 && r.P(1, 6) {
		pp[len(pp)-1] = &pitem{absent: true}
	}
	return pp
}

const matchLimit = 1500

// afterPattern checks that a search changed nothing.
func afterPattern(w *World) error {
	if err := w.auditC01(); err != nil {
		return fmt.Errorf("the search changed the graph: %w", err)
	}
	if err := w.auditC02(w.nodes); err != nil {
		return fmt.Errorf("the search changed the graph: %w", err)
	}
	return nil
}

func checkListings(w *World, pat lpg.Pattern, syms map[string]*lpg.PatternSymbol, want []pmatch) error {
	acc, err := pat.FindPaths(w.g, syms)
	if err != nil {
		return err
	}
	if len(acc.Paths) != len(want) || len(acc.Symbols) != len(want) {
		return fmt.Errorf("FindPaths found %d paths and %d symbol maps, expected %d", len(acc.Paths), len(acc.Symbols), len(want))
	}
	heads, tails := map[*MN]bool{}, map[*MN]bool{}
	for _, m := range want {
		heads[m.nodes[0]] = true
		tails[m.nodes[len(m.nodes)-1]] = true
	}
	set := func(s map[*MN]bool) []*MN { return w.filterN(func(m *MN) bool { return s[m] }) }
	if err := w.cmpNodes("GetHeadNodes", acc.GetHeadNodes(), true, set(heads)); err != nil {
		return err
	}
	if err := w.cmpNodes("GetTailNodes", acc.GetTailNodes(), true, set(tails)); err != nil {
		return err
	}
	ns, err := pat.FindNodes(w.g, syms)
	if err != nil {
		return err
	}
	return w.cmpNodes("Pattern.FindNodes", ns, true, set(heads))
}

func notePattern(st *Stats, w *World, pp ppattern, want []pmatch) {
	if len(want) > 0 {
		st.Inc("patterns with matches", 1)
	} else {
		st.Inc("patterns without matches", 1)
	}
	for i, p := range pp {
		if p.absent {
			st.Inc("patterns that end with an edge", 1)
		}
		if i%2 == 1 {
			switch {
			case p.undir:
				st.Inc("undirected items", 1)
			case p.left:
				st.Inc("items to the left", 1)
			default:
				st.Inc("items to the right", 1)
			}
		}
	}
	for _, n := range pp.names() {
		if n > 1 {
			st.Inc("repeated variables", 1)
		}
	}
	if len(w.idxN) > 0 || len(w.idxE) > 0 {
		st.Inc("runs with indexes", 1)
	}
}

func runC14(c *Case, st *Stats) error {
	ch := &Ch{v: c.Q}
	var w *World
	var r *Rnd
	long := c.Idx%17 == 16
	if long && ch.P(3, 4) {
		w, r = structured(ch, st)
		st.Inc("chains, cycles, trees and stars", 1)
	} else {
		w, r = patWorld(ch, st, 6, 9)
	}
	a := w.adjacency()
	if ch.P(1, 3) {
		declare(w, r)
	}
	if st.logging {
		st.Logf("graph: %s; indexes on nodes: %s, on edges: %s", w.describe(), idxList(w.idxN), idxList(w.idxE))
	}
	for k := 0; k < 4; k++ {
		hops := r.N(4)
		if long && r.P(1, 2) {
			hops = 3 + r.N(12)
		}
		pp := genPattern(w, r, hops, false, r.P(2, 3))
		want, ok := refMatch(w, a, pp, matchLimit)
		if !ok {
			continue
		}
		st.Logf("pattern: %s, %d matches", pp, len(want))
		pat := pp.real()
		if err := comparePattern(w, pp, pat, nil, want); err != nil {
			return fmt.Errorf("pattern %s: %w", pp, err)
		}
		if err := checkListings(w, pat, map[string]*lpg.PatternSymbol{}, want); err != nil {
			return fmt.Errorf("pattern %s: %w", pp, err)
		}
		names := map[string]bool{}
		for n := range pp.names() {
			names[n] = true
		}
		if got := pat.GetSymbolNames(); !sameStrs(got.SortedSlice(), setKeys(names)) {
			return fmt.Errorf("pattern %s: GetSymbolNames is %v", pp, got.SortedSlice())
		}
		notePattern(st, w, pp, want)
		if len(want) > 0 && len(pp) > 1 {
			st.Sig(hashCase(c), k)
		}
		if len(want) > 0 && len(pp) > 13 {
			st.Inc("patterns of more than six edges with matches", 1)
		}
		if len(want) > 30 {
			st.Inc("patterns with more than 30 matches", 1)
		}
	}
	return afterPattern(w)
}

// structured makes larger graphs with few trails: chains, cycles, trees.
func structured(ch *Ch, st *Stats) (*World, *Rnd) {
	r := &Rnd{uint64(ch.U()) | uint64(ch.U())<<32}
	d := &Dom{MaxNodes: 999, MaxEdges: 999, Index: true, Labels: []string{"A", "B", "C"}, EdgeLabels: []string{"x", "y"}, Keys: []string{"i0"}}
	w := newWorld(d, st)
	n := 5 + ch.N(30)
	straight := ch.P(1, 4)
	if straight && ch.P(1, 4) {
		n = 40 + ch.N(50)
	}
	for i := 0; i < n; i++ {
		ls := w.pickLabels(r)
		p := map[string]interface{}{"i0": r.N(8)}
		w.addMN(w.g.NewNode(ls, p), toSet(ls), copyProps(p))
	}
	kind := ch.N(4)
	for i := 1; i < n; i++ {
		a := w.nodes[i-1]
		if kind == 2 {
			a = w.nodes[(i-1)/2]
		}
		if kind == 3 {
			a = w.nodes[0]
		}
		b := w.nodes[i]
		if !straight && r.P(1, 6) {
			a, b = b, a
		}
		l := "x"
		if !straight && r.P(1, 5) {
			l = "y"
		}
		p := map[string]interface{}{"i0": r.N(3)}
		w.addME(w.g.NewEdge(a.n, b.n, l, p), a, b, l, copyProps(p))
	}
	if kind == 1 {
		w.addME(w.g.NewEdge(w.nodes[n-1].n, w.nodes[0].n, "x", nil), w.nodes[n-1], w.nodes[0], "x", map[string]interface{}{})
	}
	return w, r
}

func runC15(c *Case, st *Stats) error {
	ch := &Ch{v: c.Q}
	var w *World
	var r *Rnd
	if ch.P(1, 5) {
		w, r = structured(ch, st)
		st.Inc("chains, cycles, trees and stars", 1)
	} else {
		w, r = patWorld(ch, st, 5, 7)
	}
	a := w.adjacency()
	if ch.P(1, 3) {
		declare(w, r)
	}
	if st.logging {
		st.Logf("graph: %s; indexes on nodes: %s, on edges: %s", w.describe(), idxList(w.idxN), idxList(w.idxE))
	}
	for k := 0; k < 3; k++ {
		pp := genPattern(w, r, 1+r.N(3), true, r.P(1, 2))
		isVar := false
		for i, p := range pp {
			isVar = isVar || i%2 == 1 && p.varlen()
		}
		if !isVar {
			pp[1].min, pp[1].max = 1+r.N(2), -1
			if pp[1].name != "" {
				pp[1].name = "p"
			}
		}
		limit := matchLimit
		if len(w.nodes) > 35 {
			limit = 6000
		}
		want, ok := refMatch(w, a, pp, limit)
		if !ok {
			st.Inc("patterns skipped for too many matches", 1)
			continue
		}
		st.Logf("pattern: %s, %d matches", pp, len(want))
		pat := pp.real()
		if err := comparePattern(w, pp, pat, nil, want); err != nil {
			return fmt.Errorf("pattern %s: %w", pp, err)
		}
		if err := checkListings(w, pat, nil, want); err != nil {
			return fmt.Errorf("pattern %s: %w", pp, err)
		}
		notePattern(st, w, pp, want)
		longest := 0
		for _, m := range want {
			for _, s := range m.segs {
				if len(s) > longest {
					longest = len(s)
				}
			}
		}
		if longest > 1 {
			st.Inc("patterns matching paths of several edges", 1)
			st.Sig(hashCase(c), k)
		}
		if longest > 8 {
			st.Inc("patterns matching paths of more than 8 edges", 1)
		}
		if longest > 50 {
			st.Inc("patterns matching paths of more than 50 edges", 1)
		}
	}
	return afterPattern(w)
}

// ---- C16 --------------------------------------------------------------------

type binding struct {
	nodes map[*MN]bool
	edges map[*ME]bool
}

func bindings(bs map[string]binding) map[string]*lpg.PatternSymbol {
	r := map[string]*lpg.PatternSymbol{}
	for n, b := range bs {
		s := &lpg.PatternSymbol{}
		for m := range b.nodes {
			s.Add(m.n)
		}
		i := len(n)
		for m := range b.edges {
			if i++; i%2 == 0 {
				s.AddPath(lpg.NewPathFromElements(lpg.PathElement{Edge: m.e}))
			} else {
				s.Add(m.e)
			}
		}
		if b.nodes != nil && s.Nodes == nil {
			s.Nodes = lpg.NewNodeSet()
		}
		if b.edges != nil && s.Edges == nil {
			s.Edges = lpg.NewEdgeSet()
		}
		r[n] = s
	}
	return r
}

func fmtBindings(bs map[string]binding) string {
	m := map[string]string{}
	for n, b := range bs {
		var l []string
		for x := range b.nodes {
			l = append(l, x.name)
		}
		for x := range b.edges {
			l = append(l, x.name)
		}
		sort.Strings(l)
		m[n] = fmt.Sprint(l)
	}
	return fmtStrs(m)
}

// allowed tells whether a match respects the bindings.
func (m pmatch) allowed(pp ppattern, bs map[string]binding) bool {
	for i, p := range pp {
		b, ok := bs[p.name]
		if p.name == "" || !ok {
			continue
		}
		if i%2 == 0 {
			if !b.nodes[m.nodes[i/2]] {
				return false
			}
		} else {
			for _, s := range m.segs[i/2] {
				if !b.edges[s.e] {
					return false
				}
			}
		}
	}
	return true
}

func runC16(c *Case, st *Stats) error {
	ch := &Ch{v: c.Q}
	var w *World
	var r *Rnd
	w, r = patWorld(ch, st, 6, 8)
	a := w.adjacency()
	if st.logging {
		st.Logf("graph: %s", w.describe())
	}
	for k := 0; k < 3; k++ {
		hops := r.N(4)
		if r.P(1, 32) {
			hops = 3 + r.N(8)
		}
		pp := genPattern(w, r, hops, r.P(1, 2), true)
		want, ok := refMatch(w, a, pp, matchLimit)
		if !ok {
			continue
		}
		pat := pp.real()
		snapshot := pp.real()
		where := func() string {
			return fmt.Sprintf("pattern %s, node indexes %s, edge indexes %s", pp, idxList(w.idxN), idxList(w.idxE))
		}
		st.Logf("%s: %d matches", where(), len(want))
		// with the indexes as they are, then with more
		if err := comparePattern(w, pp, pat, nil, want); err != nil {
			return fmt.Errorf("%s: %w", where(), err)
		}
		if r.P(1, 2) {
			declare(w, r)
			if err := comparePattern(w, pp, pat, map[string]*lpg.PatternSymbol{}, want); err != nil {
				return fmt.Errorf("%s: %w", where(), err)
			}
			st.Inc("runs with indexes added", 1)
		}
		// bound variables; starting from every one of them
		type occ struct {
			node, single bool
		}
		occs := map[string]occ{}
		var names []string
		for i, p := range pp {
			if p.name != "" {
				if _, ok := occs[p.name]; !ok {
					names = append(names, p.name)
				}
				occs[p.name] = occ{i%2 == 0, i%2 == 1 && !p.varlen()}
			}
		}
		for t := 0; t < 3 && len(names) > 0; t++ {
			bs := map[string]binding{}
			for _, n := range names {
				o := occs[n]
				if !r.P(1, 2) {
					continue
				}
				var idx int
				for i, p := range pp {
					if p.name == n {
						idx = i
					}
				}
				b := binding{}
				if o.node {
					b.nodes = map[*MN]bool{}
				} else {
					b.edges = map[*ME]bool{}
				}
				for j := 1 + r.N(3); j > 0; j-- {
					if len(want) > 0 && r.P(2, 3) {
						m := want[r.N(len(want))]
						if o.node {
							b.nodes[m.nodes[idx/2]] = true
						} else {
							for _, s := range m.segs[idx/2] {
								b.edges[s.e] = true
							}
						}
						continue
					}
					if o.node {
						b.nodes[w.node(r)] = true
					} else if e := w.edge(r); e != nil {
						b.edges[e] = true
					}
				}
				bs[n] = b
				if !o.node && !o.single {
					st.Inc("variable-length items bound", 1)
				}
			}
			if r.P(1, 4) {
				bs["unused"] = binding{nodes: map[*MN]bool{w.nodes[0]: true}}
			}
			if len(bs) == 0 {
				continue
			}
			var sub []pmatch
			for _, m := range want {
				if m.allowed(pp, bs) {
					sub = append(sub, m)
				}
			}
			syms := bindings(bs)
			if err := comparePattern(w, pp, pat, syms, sub); err != nil {
				return fmt.Errorf("%s, variables bound to %s: %w", where(), fmtBindings(bs), err)
			}
			st.Inc("runs with bound variables", 1)
			if len(sub) > 0 {
				st.Inc("bound runs with matches", 1)
				st.Sig(hashCase(c), k, t)
			}
			if len(sub) < len(want) {
				st.Inc("bindings that excluded matches", 1)
			}
			for n, b := range bs {
				if err := sameBinding(w, syms[n], b); err != nil {
					return fmt.Errorf("%s: the search changed the binding of %s: %w", where(), n, err)
				}
			}
			if len(syms) != len(bs) {
				return fmt.Errorf("%s: the search changed the bindings", where())
			}
		}
		// variables of the wrong kind
		if len(names) > 0 {
			n := names[r.N(len(names))]
			b := binding{}
			if occs[n].node {
				b.edges = map[*ME]bool{}
				if e := w.edge(r); e != nil {
					b.edges[e] = true
				}
			} else {
				b.nodes = map[*MN]bool{w.node(r): true}
			}
			bs := map[string]binding{n: b}
			rec, err := runPattern(w, pp, pat, bindings(bs), nil)
			if err == nil && len(rec.keys) > 0 {
				return fmt.Errorf("%s: %s was bound to the wrong kind, %s, yet %d results were found: %q", where(), n, fmtBindings(bs), len(rec.keys), rec.keys[0])
			}
			acc, ferr := pat.FindPaths(w.g, bindings(bs))
			if ferr == nil && len(acc.Paths) > 0 {
				return fmt.Errorf("%s: %s was bound to the wrong kind, %s, yet FindPaths found %d paths", where(), n, fmtBindings(bs), len(acc.Paths))
			}
			ns, nerr := pat.FindNodes(w.g, bindings(bs))
			if nerr == nil && len(ns) > 0 {
				return fmt.Errorf("%s: %s was bound to the wrong kind, %s, yet FindNodes found %d nodes", where(), n, fmtBindings(bs), len(ns))
			}
			if (err == nil) != (ferr == nil) || (err == nil) != (nerr == nil) {
				return fmt.Errorf("%s: %s was bound to the wrong kind, %s: Run gives error %v, FindPaths %v, FindNodes %v", where(), n, fmtBindings(bs), err, ferr, nerr)
			}
			if err != nil {
				if !strings.Contains(err.Error(), n) {
					return fmt.Errorf("%s: the error for the variable %s reads %q", where(), n, err)
				}
				st.Inc("wrong kind refused", 1)
			} else {
				st.Inc("wrong kind without results", 1)
			}
		}
		// the same name for a node and an edge
		if len(pp) > 1 {
			p2 := append(ppattern{}, pp...)
			i := r.N(len(pp))
			j := i + 1
			if j == len(pp) || r.P(1, 2) && i > 0 {
				j = i - 1
			}
			x, y := *pp[i], *pp[j]
			x.absent, y.absent = false, false
			x.name, y.name = "both", "both"
			p2[i], p2[j] = &x, &y
			rec := &recorder{w: w, pp: p2}
			err := p2.real().Run(w.g, nil, rec)
			if err == nil && len(rec.keys) > 0 {
				return fmt.Errorf("pattern %s, node indexes %s, edge indexes %s: one variable names a node and an edge, yet there are %d results", p2, idxList(w.idxN), idxList(w.idxE), len(rec.keys))
			}
			st.Inc("names used for a node and an edge", 1)
		}
		if !unchanged(pat, snapshot) {
			return fmt.Errorf("%s: the search changed the pattern", where())
		}
		notePattern(st, w, pp, want)
	}
	return afterPattern(w)
}

func sameBinding(w *World, s *lpg.PatternSymbol, b binding) error {
	if (s.Nodes != nil) != (b.nodes != nil) || (s.Edges != nil) != (b.edges != nil) {
		return fmt.Errorf("another kind")
	}
	if b.nodes != nil {
		if err := w.cmpNodes("nodes", s.NodeSlice(), true, w.filterN(func(m *MN) bool { return b.nodes[m] })); err != nil {
			return err
		}
	}
	if b.edges != nil {
		got, ended := drainEdges(s.Edges.Iterator(), 100)
		return w.cmpEdges("edges", got, ended, w.filterE(func(m *ME) bool { return b.edges[m] }))
	}
	return nil
}

func init() {
	gen := func(r *rand.Rand, idx int) *Case { return &Case{Idx: idx, Q: randQ(r, 12)} }
	register(&Check{ID: "C14", Quick: 160000, Thorough: 4000000, Run: runC14, Gen: gen,
		Required: []string{"patterns with matches", "patterns without matches", "undirected items", "items to the left", "items to the right", "repeated variables", "runs with indexes", "patterns that end with an edge", "patterns of more than six edges with matches", "patterns with more than 30 matches"},
		Rule:     "patterns of up to three (in one graph of 17, up to 14) single-edge items derived from walks in random multigraphs (self-loops, parallel edges, indexes), chains, cycles, trees and stars, compared with a reference matcher as multisets of (path, symbols); a (graph, pattern) pair is non-trivial if it has an edge item and matches"})
	register(&Check{ID: "C15", Quick: 66000, Thorough: 830000, Run: runC15, Gen: gen,
		Required: []string{"patterns with matches", "undirected items", "items to the left", "items to the right", "patterns matching paths of several edges", "patterns matching paths of more than 8 edges", "patterns matching paths of more than 50 edges", "chains, cycles, trees and stars"},
		Rule:     "patterns with variable-length items (bounded and unbounded) on random multigraphs and on chains, cycles, trees and stars of up to 89 nodes, compared with a reference trail enumeration; non-trivial if some match has several edges in one item"})
	register(&Check{ID: "C16", Quick: 120000, Thorough: 1500000, Run: runC16, Gen: gen,
		Required: []string{"runs with indexes added", "runs with bound variables", "variable-length items bound", "bound runs with matches", "bindings that excluded matches", "wrong kind refused", "wrong kind without results", "names used for a node and an edge", "repeated variables"},
		Rule:     "the same pattern is run as is, after declaring indexes, with variables bound to nodes or edges (from matches or at random), with variables bound to the wrong kind, and with one name for a node and an edge; non-trivial if a run with bound variables matches"})
}
