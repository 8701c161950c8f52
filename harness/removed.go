package main

import (
	"fmt"

	"github.com/cloudprivacylabs/lpg/v2"
)

// C34: objects that were removed from the graph.

func pickGone[T any](r *Rnd, gone []T) (m T, ok bool) {
	n := len(gone)
	if n == 0 {
		return m, false
	}
	if r.P(1, 3) {
		return gone[n-1], true
	}
	return gone[r.N(n)], true
}

// applyStale uses an object that is no longer in the graph, or removes objects
// by a list that names some of them twice.
func (w *World) applyStale(r *Rnd, done func(string, ...interface{})) error {
	gn, okN := pickGone(r, w.goneN)
	ge, okE := pickGone(r, w.goneE)
	key := func(props map[string]interface{}) string {
		if ks := propKeys(props); len(ks) > 0 && r.P(1, 2) {
			return ks[r.N(len(ks))]
		}
		return w.dom.Keys[r.N(len(w.dom.Keys))]
	}
	count := func(what string) { w.st.Inc(what, 1) }
	switch r.N(16) {
	case 0: // every edge of a node, as listed: a self-loop is listed twice
		m := w.node(r)
		if m == nil {
			return nil
		}
		dir := dirs[r.N(3)]
		edges := lpg.EdgeSlice(m.n.GetEdges(dir))
		if r.P(1, 3) {
			edges = append(edges, edges...)
		}
		seen := map[*lpg.Edge]bool{}
		for _, e := range edges {
			if seen[e] {
				count("edges removed again")
			}
			seen[e] = true
			e.Remove()
		}
		for _, e := range w.incident(m) {
			if dir == lpg.AnyEdge || dir == lpg.OutgoingEdge && e.from == m || dir == lpg.IncomingEdge && e.to == m {
				w.dropEdge(e)
			}
		}
		done("every edge of %s (%s) removed one by one, some twice", m.name, dirName(dir))
	case 1: // both ends of an edge, which may be one node
		e := w.edge(r)
		if e == nil {
			return nil
		}
		from, to := e.from, e.to
		e.e.GetFrom().DetachAndRemove()
		e.e.GetTo().DetachAndRemove()
		for _, m := range []*MN{from, to} {
			for _, x := range w.incident(m) {
				w.dropEdge(x)
			}
			w.dropNode(m)
			if from == to {
				count("nodes removed again")
				break
			}
		}
		done("%s and %s, the ends of %s, DetachAndRemove()", from.name, to.name, e.name)
	case 2, 3:
		if !okE {
			return nil
		}
		ge.e.Remove()
		count("edges removed again")
		done("removed %s.Remove()", ge.name)
	case 4:
		if !okN {
			return nil
		}
		gn.n.DetachAndRemove()
		count("nodes removed again")
		done("removed %s.DetachAndRemove()", gn.name)
	case 5:
		if !okN {
			return nil
		}
		gn.n.Detach()
		done("removed %s.Detach()", gn.name)
	case 6:
		if !okN {
			return nil
		}
		ls := w.pickLabels(r)
		gn.n.SetLabels(lpg.NewStringSet(ls...))
		gn.labels = toSet(ls)
		count("labels set on removed objects")
		done("removed %s.SetLabels(%q)", gn.name, ls)
	case 7:
		if !okN || len(w.dom.Keys) == 0 {
			return nil
		}
		k := key(gn.props)
		v := genValue(r, k, w.dom.Wide)
		gn.n.SetProperty(k, v)
		gn.props[k] = v
		count("properties set on removed objects")
		done("removed %s.SetProperty(%s,%s)", gn.name, k, fmtVal(v))
	case 8:
		if !okN || len(w.dom.Keys) == 0 {
			return nil
		}
		k := key(gn.props)
		gn.n.RemoveProperty(k)
		delete(gn.props, k)
		count("properties removed from removed objects")
		done("removed %s.RemoveProperty(%s)", gn.name, k)
	case 9:
		if !okE {
			return nil
		}
		l := w.dom.EdgeLabels[r.N(len(w.dom.EdgeLabels))]
		ge.e.SetLabel(l)
		ge.label = l
		count("labels set on removed objects")
		done("removed %s.SetLabel(%q)", ge.name, l)
	case 10:
		if !okE || len(w.dom.Keys) == 0 {
			return nil
		}
		k := key(ge.props)
		v := genValue(r, k, w.dom.Wide)
		ge.e.SetProperty(k, v)
		ge.props[k] = v
		count("properties set on removed objects")
		done("removed %s.SetProperty(%s,%s)", ge.name, k, fmtVal(v))
	case 11:
		if !okE || len(w.dom.Keys) == 0 {
			return nil
		}
		k := key(ge.props)
		ge.e.RemoveProperty(k)
		delete(ge.props, k)
		count("properties removed from removed objects")
		done("removed %s.RemoveProperty(%s)", ge.name, k)
	case 12, 13:
		m := w.node(r)
		if !okN || m == nil {
			return nil
		}
		return w.connectRemoved(r, gn, m, ge, okE, done)
	case 14: // a copy of a removed node is in the graph
		if !okN || len(w.nodes) >= w.dom.MaxNodes {
			return nil
		}
		var n *lpg.Node
		if r.P(1, 2) {
			n = lpg.CopyNode(gn.n, w.g, ident)
		} else {
			nm := map[*lpg.Node]*lpg.Node{}
			lpg.CopySubgraph(gn.n, w.g, ident, nm)
			if len(nm) != 1 || nm[gn.n] == nil {
				return fmt.Errorf("CopySubgraph from removed %s copied %d nodes", gn.name, len(nm))
			}
			n = nm[gn.n]
		}
		c := w.addMN(n, toSet(setKeys(gn.labels)), copyProps(gn.props))
		count("removed objects copied")
		done("%s=copy of removed %s", c.name, gn.name)
	case 15:
		from, to := w.node(r), w.node(r)
		if !okE || from == nil || len(w.edges) >= w.dom.MaxEdges {
			return nil
		}
		e := lpg.CloneEdge(from.n, to.n, ge.e, w.g, ident)
		c := w.addME(e, from, to, ge.label, copyProps(ge.props))
		count("removed objects copied")
		done("%s=copy of removed %s from %s to %s", c.name, ge.name, from.name, to.name)
	}
	return nil
}

// connectRemoved asks for an edge at a removed node.
func (w *World) connectRemoved(r *Rnd, gn, m *MN, ge *ME, okE bool, done func(string, ...interface{})) error {
	a, b := gn.n, m.n
	switch r.N(4) {
	case 0:
		a, b = b, a
	case 1:
		x, _ := pickGone(r, w.goneN)
		b = x.n
	}
	src := w.edge(r)
	if src == nil || okE && r.P(1, 2) {
		src = ge
	}
	call := r.N(4)
	if src == nil {
		call = r.N(2)
	}
	name := []string{"NewEdge", "FastNewEdge", "CloneEdge", "CopyEdge"}[call]
	if call == 3 && src.from == src.to {
		if r.P(1, 2) {
			b = a
		} else {
			a = b
		}
		if a == m.n {
			return nil
		}
	}
	_, did := panics(func() {
		switch call {
		case 0:
			w.g.NewEdge(a, b, "x", map[string]interface{}{})
		case 1:
			w.g.FastNewEdge(a, b, "x", nil)
		case 2:
			lpg.CloneEdge(a, b, src.e, w.g, ident)
		case 3:
			lpg.CopyEdge(src.e, w.g, ident, map[*lpg.Node]*lpg.Node{src.e.GetFrom(): a, src.e.GetTo(): b})
		}
	})
	done("%s between %s and %s", name, w.nameN(a), w.nameN(b))
	if !did {
		return fmt.Errorf("%s connected a removed node", name)
	}
	w.st.Inc("edges at removed nodes refused", 1)
	return nil
}

// auditRemoved reads objects that are not in the graph.
func (w *World) auditRemoved(r *Rnd, small bool) error {
	n := len(w.goneN)
	if !small && n > 40 {
		n = 40
	}
	for i := 0; i < n; i++ {
		m := w.goneN[i]
		if n < len(w.goneN) {
			m = w.goneN[r.N(len(w.goneN))]
		}
		if err := w.auditNodeAttrs(m); err != nil {
			return fmt.Errorf("removed %w", err)
		}
		if m.n.GetGraph() != w.g {
			return fmt.Errorf("removed %s.GetGraph() is not the graph it was created in", m.name)
		}
		for _, d := range dirs {
			if err := w.checkEdgeIt("removed "+m.name+".GetEdges("+dirName(d)+")", m.n.GetEdges(d), nil); err != nil {
				return err
			}
		}
		l := w.dom.EdgeLabels[r.N(len(w.dom.EdgeLabels))]
		if err := w.checkEdgeIt("removed "+m.name+".GetEdgesWithLabel", m.n.GetEdgesWithLabel(lpg.AnyEdge, l), nil); err != nil {
			return err
		}
		w.st.Inc("removed nodes read", 1)
	}
	n = len(w.goneE)
	if !small && n > 40 {
		n = 40
	}
	for i := 0; i < n; i++ {
		m := w.goneE[i]
		if n < len(w.goneE) {
			m = w.goneE[r.N(len(w.goneE))]
		}
		if err := w.auditEdgeAttrs(m); err != nil {
			return fmt.Errorf("removed %w", err)
		}
		if m.e.GetGraph() != w.g {
			return fmt.Errorf("removed %s.GetGraph() is not the graph it was created in", m.name)
		}
		w.st.Inc("removed edges read", 1)
	}
	return nil
}

func init() {
	histCheck{id: "C34", quick: 24000, thorough: 300000, index: true,
		boost: map[int]int{opStale: 12, opRemoveNode: 2, opRemoveEdge: 2, opSelfLoop: 1, opNewEdge: 3, opNewNode: 1, opIndexNode: 1, opIndexEdge: 1},
		required: []string{"edges removed again", "nodes removed again", "labels set on removed objects", "properties set on removed objects", "properties removed from removed objects",
			"removed objects copied", "edges at removed nodes refused", "removed nodes read", "removed edges read"},
		rule: histRule + "; every other operation or so uses an object removed before, or removes objects by a list naming some twice, and all views and the removed objects are audited after every step",
		audit: func(w *World, r *Rnd, small bool) error {
			if err := w.auditRemoved(r, small); err != nil {
				return err
			}
			if !small {
				if err := w.auditC01(); err != nil {
					return err
				}
				if err := w.auditC02(w.some(r, small)); err != nil {
					return err
				}
				if err := w.auditC03(r, w.some(r, small)); err != nil {
					return err
				}
				if err := w.auditC04(); err != nil {
					return err
				}
				return w.auditC05(r, 10)
			}
			return w.auditAll(r, 3)
		}}.register()
}
