package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// C22: sets.

func sameStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type modelSet struct {
	s lpg.StringSet
	m map[string]bool
}

var setPool = []string{"A", "B", "C", "", "a b", "\u00e9\u4e16", "x\"y\\", ", ", "\n", "D"}

func (x *modelSet) check(name string, ch *Ch, others []*modelSet, st *Stats) error {
	want := setKeys(x.m)
	if x.s.Len() != len(want) {
		return fmt.Errorf("%s.Len()=%d, expected %d (%q)", name, x.s.Len(), len(want), want)
	}
	if got := x.s.SortedSlice(); !sameStrs(got, want) {
		return fmt.Errorf("%s.SortedSlice()=%q, expected %q", name, got, want)
	}
	got := append([]string{}, x.s.Slice()...)
	sort.Strings(got)
	if !sameStrs(got, want) {
		return fmt.Errorf("%s.Slice()=%q, expected %q", name, got, want)
	}
	total := 0
	for _, w := range want {
		total += len(w)
	}
	if len(want) > 0 {
		total += 2 * (len(want) - 1)
	}
	str := x.s.String()
	if len(str) != total {
		return fmt.Errorf("%s.String()=%q for %q", name, str, want)
	}
	for _, w := range want {
		if !strings.Contains(str, w) {
			return fmt.Errorf("%s.String()=%q for %q", name, str, want)
		}
	}
	for _, l := range setPool {
		if x.s.Has(l) != x.m[l] {
			return fmt.Errorf("%s.Has(%q)=%v", name, l, x.s.Has(l))
		}
	}
	for i := 0; i < 2; i++ {
		var q []string
		for n := ch.N(4); n > 0; n-- {
			if len(want) > 0 && ch.P(1, 2) {
				q = append(q, want[ch.N(len(want))])
			} else {
				q = append(q, setPool[ch.N(len(setPool))])
			}
		}
		any, all := false, true
		for _, l := range q {
			if x.m[l] {
				any = true
			} else {
				all = false
			}
		}
		qs := lpg.NewStringSet(q...)
		if len(q) == 0 && ch.P(1, 2) {
			qs = lpg.StringSet{}
		}
		if x.s.HasAny(q...) != any || x.s.HasAnySet(qs) != any {
			return fmt.Errorf("%s (%q): HasAny(%q)=%v HasAnySet=%v, expected %v", name, want, q, x.s.HasAny(q...), x.s.HasAnySet(qs), any)
		}
		if x.s.HasAll(q...) != all || x.s.HasAllSet(qs) != all {
			return fmt.Errorf("%s (%q): HasAll(%q)=%v HasAllSet=%v, expected %v", name, want, q, x.s.HasAll(q...), x.s.HasAllSet(qs), all)
		}
		eq := sameStrs(setKeys(toSet(q)), want)
		if x.s.IsEqual(qs) != eq || qs.IsEqual(x.s) != eq {
			return fmt.Errorf("%s (%q): IsEqual(%q)=%v, expected %v", name, want, q, x.s.IsEqual(qs), eq)
		}
	}
	for i, o := range others {
		eq := sameStrs(setKeys(o.m), want)
		if x.s.IsEqual(o.s) != eq {
			return fmt.Errorf("%s (%q): IsEqual(set%d=%q)=%v", name, want, i, setKeys(o.m), x.s.IsEqual(o.s))
		}
		any, all := false, true
		for l := range o.m {
			if x.m[l] {
				any = true
			} else {
				all = false
			}
		}
		if x.s.HasAnySet(o.s) != any || x.s.HasAllSet(o.s) != all {
			return fmt.Errorf("%s (%q) against set%d=%q: HasAnySet=%v HasAllSet=%v", name, want, i, setKeys(o.m), x.s.HasAnySet(o.s), x.s.HasAllSet(o.s))
		}
	}
	st.Inc("label sets compared", 1)
	return nil
}

func runStringSets(ch *Ch, st *Stats) error {
	g := lpg.NewGraph()
	type nodeWith struct {
		n *lpg.Node
		m map[string]bool
	}
	var nodes []nodeWith
	sets := []*modelSet{{s: lpg.StringSet{}, m: map[string]bool{}}, {s: lpg.NewStringSet(), m: map[string]bool{}}}
	add := func(s lpg.StringSet, m map[string]bool) {
		x := &modelSet{s: s, m: toSet(setKeys(m))}
		if len(sets) < 7 {
			sets = append(sets, x)
		} else {
			sets[ch.N(len(sets))] = x
		}
	}
	labels := func() []string {
		var q []string
		for n := ch.N(4); n > 0; n-- {
			q = append(q, setPool[ch.N(len(setPool))])
		}
		if ch.P(1, 8) {
			// enough labels for a set to outgrow any small representation
			n := ch.N(40)
			for i, k := ch.N(40), 0; k < n; k++ {
				q = append(q, fmt.Sprintf("L%d", (i+k)%40))
			}
		}
		return q
	}
	for step := 0; step < 24 && !ch.Done(); step++ {
		i := ch.N(len(sets))
		x := sets[i]
		op := ch.N(11)
		switch op {
		case 0, 1:
			l := labels()
			r := x.s.Add(l...)
			for _, y := range l {
				x.m[y] = true
			}
			if r != &x.s {
				return fmt.Errorf("Add did not return its receiver")
			}
			st.Logf("set%d.Add(%q)", i, l)
		case 2:
			l := labels()
			if len(x.m) > 0 && ch.P(1, 2) {
				l = append(l, setKeys(x.m)[ch.N(len(x.m))])
			}
			x.s.Remove(l...)
			for _, y := range l {
				delete(x.m, y)
			}
			st.Logf("set%d.Remove(%q)", i, l)
		case 3:
			j := ch.N(len(sets))
			x.s.AddSet(sets[j].s)
			for y := range sets[j].m {
				x.m[y] = true
			}
			st.Logf("set%d.AddSet(set%d)", i, j)
		case 4:
			st.Logf("clone of set%d", i)
			add(x.s.Clone(), x.m)
			st.Inc("clones", 1)
		case 5:
			st.Logf("set%d assigned", i)
			add(x.s, x.m)
			st.Inc("clones", 1)
		case 6:
			l := labels()
			st.Logf("NewStringSet(%q)", l)
			add(lpg.NewStringSet(l...), toSet(l))
		case 7:
			b, err := json.Marshal(x.s)
			if err != nil {
				return fmt.Errorf("set%d (%q) does not marshal: %v", i, setKeys(x.m), err)
			}
			y := lpg.NewStringSet("before")
			if ch.P(1, 2) && len(sets) > 0 {
				y = sets[ch.N(len(sets))].s.Clone()
			}
			if err := json.Unmarshal(b, &y); err != nil {
				return fmt.Errorf("set%d (%q) does not unmarshal: %v", i, setKeys(x.m), err)
			}
			st.Logf("JSON round trip of set%d", i)
			st.Inc("JSON round trips of sets", 1)
			add(y, x.m)
		case 8: // a node is given a set
			var n *lpg.Node
			if ch.P(1, 2) || len(nodes) == 0 {
				n = g.FastNewNode(x.s, nil)
				nodes = append(nodes, nodeWith{n, toSet(setKeys(x.m))})
				st.Logf("FastNewNode(set%d)", i)
			} else {
				j := ch.N(len(nodes))
				nodes[j].n.SetLabels(x.s)
				nodes[j].m = toSet(setKeys(x.m))
				st.Logf("node%d.SetLabels(set%d)", j, i)
			}
			st.Inc("sets given to nodes", 1)
		case 9: // the set of a node is read
			if len(nodes) > 0 {
				j := ch.N(len(nodes))
				st.Logf("node%d.GetLabels()", j)
				add(nodes[j].n.GetLabels(), nodes[j].m)
				st.Inc("sets read from nodes", 1)
			}
		case 10: // bad JSON leaves an error
			y := x.s.Clone()
			if err := json.Unmarshal([]byte([]string{`{}`, `[1]`, `"x"`, `[`}[ch.N(4)]), &y); err == nil {
				return fmt.Errorf("a document that is no list of strings was accepted as a label set")
			}
			st.Inc("bad JSON sets", 1)
		}
		st.Inc("set operations", 1)
		for i, x := range sets {
			var others []*modelSet
			if step%3 == 0 {
				others = sets
			}
			if err := x.check(fmt.Sprintf("set%d", i), ch, others, st); err != nil {
				return err
			}
		}
		for j, n := range nodes {
			ls := n.n.GetLabels()
			if got := ls.SortedSlice(); !sameStrs(got, setKeys(n.m)) {
				return fmt.Errorf("labels of node%d: %q, expected %q", j, got, setKeys(n.m))
			}
			st.Inc("node label sets compared", 1)
		}
	}
	return nil
}

func runObjectSets(ch *Ch, st *Stats, large bool) error {
	g := lpg.NewGraph()
	var nodes []*lpg.Node
	var edges []*lpg.Edge
	names := map[*lpg.Node]int{}
	labels := map[*lpg.Node]map[string]bool{}
	pool := setPool[:3+ch.N(3)]
	nN, nE, most, steps := 6, 5, 4, 40
	if large {
		ch = &Ch{v: randQ(rand.New(rand.NewSource(int64(ch.U()))), 20000)}
		nN, nE, steps = 40+ch.N(30), 40+ch.N(30), 160
		if ch.P(1, 2) {
			most = 50
			pool = append([]string{}, pool...)
			for i := 0; i < 50; i++ {
				pool = append(pool, fmt.Sprintf("L%d", i))
			}
		}
		st.Inc("large object sets", 1)
	}
	pick := func() []string {
		var q []string
		for n := ch.N(most); n > 0; n-- {
			q = append(q, pool[ch.N(len(pool))])
		}
		return q
	}
	for i := 0; i < nN; i++ {
		l := pick()
		n := g.NewNode(l, nil)
		nodes = append(nodes, n)
		names[n] = i
		labels[n] = toSet(l)
	}
	for i := 0; i < nE; i++ {
		edges = append(edges, g.NewEdge(nodes[ch.N(nN)], nodes[ch.N(nN)], "e", nil))
	}
	// objects of another graph with the same ids, for the sets
	g2 := lpg.NewGraph()
	all := append([]*lpg.Node{}, nodes...)
	for i := 0; i < nN; i++ {
		n := g2.NewNode(nil, nil)
		all = append(all, n)
		names[n] = nN + i
	}
	for i := 0; i < nE; i++ {
		edges = append(edges, g2.NewEdge(all[nN+ch.N(nN)], all[nN+ch.N(nN)], "e", nil))
	}
	ns, es, nm := lpg.NewNodeSet(), lpg.NewEdgeSet(), lpg.NewNodeMap()
	mns, mes, mnm := map[*lpg.Node]bool{}, map[*lpg.Edge]bool{}, map[*lpg.Node]bool{}
	cmpN := func(what string, got []*lpg.Node, want map[*lpg.Node]bool) error {
		seen := map[*lpg.Node]bool{}
		for _, n := range got {
			if seen[n] || !want[n] {
				return fmt.Errorf("%s lists node%d (again: %v, in the set: %v)", what, names[n], seen[n], want[n])
			}
			seen[n] = true
		}
		if len(got) != len(want) {
			return fmt.Errorf("%s lists %d nodes, expected %d", what, len(got), len(want))
		}
		return nil
	}
	cmpE := func(what string, got []*lpg.Edge) error {
		seen := map[*lpg.Edge]bool{}
		for _, n := range got {
			if seen[n] || !mes[n] {
				return fmt.Errorf("%s lists an edge that is not in the set, or twice", what)
			}
			seen[n] = true
		}
		if len(got) != len(mes) {
			return fmt.Errorf("%s lists %d edges, expected %d", what, len(got), len(mes))
		}
		return nil
	}
	for step := 0; step < steps && !ch.Done(); step++ {
		i := ch.N(nN)
		n := nodes[i]
		e := edges[ch.N(2*nE)]
		x, xi := n, i
		if ch.N(3) == 0 {
			xi = nN + i
			x = all[xi]
			st.Inc("objects of two graphs in a set", 1)
		}
		op := ch.N(9)
		if large && step < 140 && (op == 1 || op == 3 || op == 6) && ch.P(3, 4) {
			op-- // grow first
		}
		switch op {
		case 0:
			ns.Add(x)
			mns[x] = true
			st.Logf("NodeSet.Add(node%d)", xi)
		case 1:
			ns.Remove(x)
			delete(mns, x)
			st.Logf("NodeSet.Remove(node%d)", xi)
		case 2:
			es.Add(e)
			mes[e] = true
			st.Logf("EdgeSet.Add")
		case 3:
			es.Remove(e)
			delete(mes, e)
			st.Logf("EdgeSet.Remove")
		case 4, 5:
			nm.Add(n)
			mnm[n] = true
			st.Logf("NodeMap.Add(node%d %q)", i, setKeys(labels[n]))
		case 6:
			nm.Remove(n)
			delete(mnm, n)
			st.Logf("NodeMap.Remove(node%d %q)", i, setKeys(labels[n]))
		case 7, 8:
			if !mnm[n] {
				continue
			}
			l := pick()
			old := n.GetLabels()
			nm.Replace(n, old, lpg.NewStringSet(l...))
			n.SetLabels(lpg.NewStringSet(l...))
			st.Logf("NodeMap.Replace(node%d, %q, %q)", i, setKeys(labels[n]), l)
			labels[n] = toSet(l)
			st.Inc("NodeMap replacements", 1)
		}
		st.Inc("set operations", 1)
		if ns.Len() != len(mns) || es.Len() != len(mes) {
			return fmt.Errorf("NodeSet.Len()=%d of %d, EdgeSet.Len()=%d of %d", ns.Len(), len(mns), es.Len(), len(mes))
		}
		for _, x := range all {
			if ns.Has(x) != mns[x] {
				return fmt.Errorf("NodeSet.Has(node%d)=%v", names[x], ns.Has(x))
			}
		}
		got, _ := drainNodes(ns.Iterator(), 2*nN)
		if err := cmpN("NodeSet.Iterator", got, mns); err != nil {
			return err
		}
		if err := cmpN("NodeSet.Slice", ns.Slice(), mns); err != nil {
			return err
		}
		gotE, _ := drainEdges(es.Iterator(), 2*nE)
		if err := cmpE("EdgeSet.Iterator", gotE); err != nil {
			return err
		}
		if err := cmpE("EdgeSet.Slice", es.Slice()); err != nil {
			return err
		}
		if nm.IsEmpty() != (len(mnm) == 0) {
			return fmt.Errorf("NodeMap.IsEmpty()=%v with %d nodes", nm.IsEmpty(), len(mnm))
		}
		got, _ = drainNodes(nm.Iterator(), nN)
		if err := cmpN("NodeMap.Iterator", got, mnm); err != nil {
			return err
		}
		for k := 0; k < 3; k++ {
			var q []string
			switch k {
			case 1:
				q = []string{pool[ch.N(len(pool))]}
			case 2:
				q = []string{pool[ch.N(len(pool))], pool[ch.N(len(pool))]}
			}
			want := map[*lpg.Node]bool{}
			for x := range mnm {
				ok := true
				for _, l := range q {
					ok = ok && labels[x][l]
				}
				if ok {
					want[x] = true
				}
			}
			got, _ = drainNodes(nm.IteratorAllLabels(lpg.NewStringSet(q...)), nN)
			if err := cmpN(fmt.Sprintf("NodeMap.IteratorAllLabels(%q)", q), got, want); err != nil {
				return err
			}
			if len(want) > 0 {
				st.Inc("NodeMap lookups with results", 1)
			}
		}
	}
	return nil
}

func init() {
	register(&Check{ID: "C22", Quick: 400000, Thorough: 4000000,
		Required: []string{"label sets compared", "clones", "JSON round trips of sets", "sets given to nodes", "sets read from nodes", "NodeMap replacements", "NodeMap lookups with results", "large object sets"},
		Rule:     "random operation sequences on a pool of label sets sharing content by cloning, assignment and nodes (even cases), and on a node set, an edge set and a node map (odd cases; one in 61 of up to 140 objects and 55 labels), all compared with models after every step; distinct by choice sequence",
		Gen: func(r *rand.Rand, idx int) *Case {
			return &Case{Idx: idx, Q: append([]uint32{uint32(idx % 2)}, randQ(r, 500)...)}
		},
		Run: func(c *Case, st *Stats) error {
			ch := &Ch{v: c.Q}
			st.Sig(hashCase(c))
			if ch.N(2) == 0 {
				return runStringSets(ch, st)
			}
			return runObjectSets(ch, st, c.Idx%122 == 61)
		}})
}
