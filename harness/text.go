package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// C29: text forms of nodes, edges and paths. Labels, keys and values are drawn
// from alphabets without the punctuation of the form, so it can be read back.

type tObj struct {
	n      *lpg.Node
	e      *lpg.Edge
	from   *tObj
	to     *tObj
	labels []string
	props  map[string]interface{}
	rev    bool
}

// tval is a value with a text of its own.
type tval struct{ s string }

func (t tval) String() string { return "T" + t.s }

// shown is what a property value looks like; false if it is left out.
func shown(v interface{}) (string, bool) {
	switch x := v.(type) {
	case *lpg.Node, *lpg.Edge:
		return "", false
	case int:
		return fmt.Sprintf("%d", x), true
	case string:
		return x, true
	case bool:
		if x {
			return "true", true
		}
		return "false", true
	case []string:
		return "[" + strings.Join(x, "_") + "]", true
	case tval:
		return "T" + x.s, true
	case nil:
		return "<nil>", true
	}
	panic(harnessBug{fmt.Sprintf("value %T", v)})
}

func readProps(s string) (map[string]string, error) {
	if len(s) < 2 || s[0] != '{' || s[len(s)-1] != '}' {
		return nil, fmt.Errorf("properties %q", s)
	}
	m := map[string]string{}
	if s == "{}" {
		return m, nil
	}
	for _, f := range strings.Split(s[1:len(s)-1], " ") {
		k, v, ok := strings.Cut(f, ":")
		if !ok {
			return nil, fmt.Errorf("property %q in %q", f, s)
		}
		if _, dup := m[k]; dup {
			return nil, fmt.Errorf("property %q twice in %q", k, s)
		}
		m[k] = v
	}
	return m, nil
}

func (o *tObj) name() string {
	if o.e != nil {
		return "edge"
	}
	return "node"
}

// check reads the text of an object back.
func (o *tObj) check(text string) error {
	open, end := "(", ")"
	if o.e != nil {
		open, end = "[", "]"
	}
	if !strings.HasPrefix(text, open) || !strings.HasSuffix(text, end) {
		return fmt.Errorf("%s as text: %q", o.name(), text)
	}
	ls, ps, ok := strings.Cut(text[1:len(text)-1], " ")
	if !ok {
		return fmt.Errorf("%s as text: %q has no properties part", o.name(), text)
	}
	var labels []string
	if ls != "" {
		if ls[0] != ':' {
			return fmt.Errorf("%s as text: labels %q in %q", o.name(), ls, text)
		}
		labels = strings.Split(ls[1:], ":")
	}
	sort.Strings(labels)
	want := append([]string{}, o.labels...)
	sort.Strings(want)
	if strings.Join(labels, ":") != strings.Join(want, ":") || len(labels) != len(want) {
		return fmt.Errorf("%s as text: %q shows labels %q, expected %q", o.name(), text, labels, want)
	}
	m, err := readProps(ps)
	if err != nil {
		return fmt.Errorf("%s as text: %q: %w", o.name(), text, err)
	}
	n := 0
	for k, v := range o.props {
		s, ok := shown(v)
		got, has := m[k]
		if has != ok || (ok && got != s) {
			return fmt.Errorf("%s as text: %q shows property %s as %q (shown=%v), expected %q (%v)", o.name(), text, k, got, has, s, ok)
		}
		if ok {
			n++
		}
	}
	if n != len(m) {
		return fmt.Errorf("%s as text: %q shows %d properties, expected %d", o.name(), text, len(m), n)
	}
	return nil
}

func (o *tObj) audit(st *Stats) error {
	var x fmt.Stringer = o.n
	if o.e != nil {
		x = o.e
	}
	for _, s := range []string{x.String(), fmt.Sprint(x), fmt.Sprintf("%v", x)} {
		if err := o.check(s); err != nil {
			return err
		}
	}
	b, err := json.Marshal(x)
	if err != nil {
		return fmt.Errorf("%s as JSON: %w", o.name(), err)
	}
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return fmt.Errorf("%s as JSON: %q is not a string: %w", o.name(), b, err)
	}
	if err := o.check(s); err != nil {
		return fmt.Errorf("as JSON: %w", err)
	}
	st.Inc("texts of "+map[bool]string{true: "an edge", false: "a node"}[o.e != nil]+" read back", 4)
	return nil
}

// checkPath reads the text of a path: for each step the edge's ends in the
// direction of the edge, and a mark on steps taken backwards.
func checkPath(text string, steps []*tObj, revs []bool) error {
	for i, e := range steps {
		for k, o := range []*tObj{e.from, e.to} {
			end := strings.Index(text, ")")
			if end < 0 {
				return fmt.Errorf("step %d: node missing in %q", i, text)
			}
			if err := o.check(text[:end+1]); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			text = text[end+1:]
			if k == 0 {
				if !strings.HasPrefix(text, "->") {
					return fmt.Errorf("step %d: no arrow in %q", i, text)
				}
				text = text[2:]
			}
		}
		if revs[i] {
			if !strings.HasPrefix(text, " Reverse") {
				return fmt.Errorf("step %d, backwards, is not marked: %q", i, text)
			}
			text = text[len(" Reverse"):]
		}
		if i < len(steps)-1 {
			if !strings.HasPrefix(text, " ") {
				return fmt.Errorf("step %d is not followed by a blank: %q", i, text)
			}
			text = text[1:]
		}
	}
	if text != "" {
		return fmt.Errorf("%q after the last step", text)
	}
	return nil
}

func runC29(c *Case, st *Stats) error {
	ch := &Ch{v: c.Q}
	g := lpg.NewGraph()
	var nodes, edges []*tObj
	allLabels := []string{"A", "Bb", "C1", "a.b", ""}
	keys := []string{"k", "k1", "x", "self", ""}
	fat := c.Idx%61 == 60
	most := 4
	if fat {
		ch = &Ch{v: randQ(rand.New(rand.NewSource(int64(ch.U()))), 6000)}
		for i := 0; i < 60; i++ {
			allLabels = append(allLabels, fmt.Sprintf("L%d", i))
			keys = append(keys, fmt.Sprintf("key%d", i))
		}
		most = 70
		st.Inc("graphs with many labels and properties", 1)
	}
	labels := func() []string {
		var r []string
		den := 2 + ch.N(4)
		for _, l := range allLabels {
			if ch.P(1, den) {
				r = append(r, l)
			}
		}
		return r
	}
	value := func() interface{} {
		switch ch.N(9) {
		case 0:
			return ch.N(100) - 50
		case 1:
			return []string{"v", "w1", "", "100%s", "%d"}[ch.N(5)]
		case 2:
			return ch.P(1, 2)
		case 3:
			return []string{"one"}[:ch.N(2)]
		case 4:
			return tval{"q"}
		case 5:
			return nil
		case 6:
			if len(edges) > 0 {
				st.Inc("references to edges", 1)
				return edges[ch.N(len(edges))].e
			}
		}
		if len(nodes) > 0 {
			st.Inc("references to nodes", 1)
			return nodes[ch.N(len(nodes))].n
		}
		return 0
	}
	props := func() map[string]interface{} {
		m := map[string]interface{}{}
		den := 2 + ch.N(4)
		for _, k := range keys {
			if ch.P(1, den) {
				m[k] = value()
			}
		}
		if len(m) == 0 && ch.P(1, 2) {
			return nil
		}
		return m
	}
	dup := func(m map[string]interface{}) map[string]interface{} {
		r := map[string]interface{}{}
		for k, v := range m {
			r[k] = v
		}
		return r
	}
	if ch.P(1, 4) {
		g.AddNodePropertyIndex("none", lpg.HashIndex)
	}
	steps := 6 + ch.N(14)
	for i := 0; i < steps; i++ {
		switch ch.N(7) {
		case 0, 1:
			l, p := labels(), props()
			o := &tObj{labels: l, props: dup(p)}
			if ch.P(1, 3) {
				o.n = g.FastNewNode(lpg.NewStringSet(l...), p)
			} else {
				o.n = g.NewNode(l, p)
			}
			nodes = append(nodes, o)
		case 2:
			if len(nodes) == 0 {
				continue
			}
			a, b := nodes[ch.N(len(nodes))], nodes[ch.N(len(nodes))]
			l, p := []string{"x", "yy", "x.z", ""}[ch.N(4)], props()
			o := &tObj{from: a, to: b, labels: []string{l}, props: dup(p)}
			if ch.P(1, 3) {
				o.e = g.FastNewEdge(a.n, b.n, l, p)
			} else {
				o.e = g.NewEdge(a.n, b.n, l, p)
			}
			edges = append(edges, o)
		case 3:
			if len(nodes) > 0 {
				o := nodes[ch.N(len(nodes))]
				k, v := keys[ch.N(len(keys))], value()
				o.n.SetProperty(k, v)
				o.props[k] = v
			}
		case 4:
			if len(edges) > 0 {
				o := edges[ch.N(len(edges))]
				k, v := keys[ch.N(len(keys))], value()
				o.e.SetProperty(k, v)
				o.props[k] = v
			}
		case 5:
			k := keys[ch.N(len(keys))]
			if len(edges) > 0 && ch.P(1, 2) {
				o := edges[ch.N(len(edges))]
				o.e.RemoveProperty(k)
				delete(o.props, k)
			} else if len(nodes) > 0 {
				o := nodes[ch.N(len(nodes))]
				o.n.RemoveProperty(k)
				delete(o.props, k)
			}
		case 6:
			if len(edges) > 0 && ch.P(1, 2) {
				o := edges[ch.N(len(edges))]
				o.labels = []string{[]string{"x", "yy", "x.z", ""}[ch.N(4)]}
				o.e.SetLabel(o.labels[0])
			} else if len(nodes) > 0 {
				o := nodes[ch.N(len(nodes))]
				o.labels = labels()
				o.n.SetLabels(lpg.NewStringSet(o.labels...))
			}
		}
		for _, o := range append(append([]*tObj{}, nodes...), edges...) {
			if err := o.audit(st); err != nil {
				return fmt.Errorf("after step %d: %w", i, err)
			}
		}
		// a walk
		if len(edges) > 0 {
			at := edges[ch.N(len(edges))].from
			var p lpg.Path
			var ws []*tObj
			var revs []bool
			for k := ch.N(most); k >= 0; k-- {
				var next []*tObj
				for _, e := range edges {
					if e.from == at || e.to == at {
						next = append(next, e)
					}
				}
				if len(next) == 0 {
					break
				}
				e := next[ch.N(len(next))]
				rev := e.from != at
				if e.from == e.to {
					if rev = ch.P(1, 2); rev {
						st.Inc("loops taken backwards", 1)
					}
				}
				p.Append(lpg.PathElement{Edge: e.e, Reverse: rev})
				ws, revs = append(ws, e), append(revs, rev)
				if rev {
					at = e.from
					st.Inc("backward steps read", 1)
				} else {
					at = e.to
				}
			}
			if err := checkPath(p.String(), ws, revs); err != nil {
				return fmt.Errorf("path of %d steps as text: %w", len(ws), err)
			}
			st.Inc("texts of a path read back", 1)
		}
	}
	// rendering has not changed anything
	for _, o := range nodes {
		n := 0
		o.n.ForEachProperty(func(k string, v interface{}) bool {
			if _, ok := o.props[k]; ok {
				n++
			}
			return true
		})
		if n != len(o.props) {
			return fmt.Errorf("a node has %d properties after it was rendered, expected %d", n, len(o.props))
		}
	}
	if len(nodes)+len(edges) > 1 {
		st.Sig(hashCase(c))
	}
	st.Logf("%d nodes and %d edges after %d steps", len(nodes), len(edges), steps)
	return nil
}

func init() {
	register(&Check{ID: "C29", Quick: 200000, Thorough: 1000000, Run: runC29,
		Gen:      func(r *rand.Rand, idx int) *Case { return &Case{Idx: idx, Q: randQ(r, 400)} },
		Required: []string{"texts of a node read back", "texts of an edge read back", "texts of a path read back", "references to nodes", "references to edges", "backward steps read", "loops taken backwards", "graphs with many labels and properties"},
		Rule:     "histories over small graphs whose properties hold numbers, texts, lists, nothing, values with a text of their own, and the graph's nodes and edges (one graph in 61 with some 60 labels and keys, and walks of up to 70 steps); after each step the texts of all objects and of a walk are read back and compared with the model; non-trivial with two or more objects"})
}
