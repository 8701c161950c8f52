package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/cloudprivacylabs/lpg/v2"
)

// ---- a plain graph, the meaning of a JSON document --------------------------

type jnode struct {
	labels []string // sorted, distinct
	props  map[string]string
}

type jedge struct {
	from, to int
	label    string
	props    map[string]string // key -> canonical JSON
}

type jgraph struct {
	nodes []jnode
	edges []jedge
}

func canonRaw(raw []byte) (string, error) {
	var v interface{}
	if err := json.Unmarshal(raw, &v); err != nil {
		return "", err
	}
	return canonVal(v)
}

func canonVal(v interface{}) (string, error) {
	b, err := json.Marshal(v)
	if err != nil {
		return "", err
	}
	var x interface{}
	if err := json.Unmarshal(b, &x); err != nil {
		return "", err
	}
	b, err = json.Marshal(x)
	return string(b), err
}

func fmtJP(m map[string]string) string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%q=%s;", k, m[k])
	}
	return sb.String()
}

func (n jnode) key() string { return fmt.Sprintf("%q{%s}", n.labels, fmtJP(n.props)) }

func (g *jgraph) String() string {
	var sb strings.Builder
	for i, n := range g.nodes {
		fmt.Fprintf(&sb, "(%d %s) ", i, n.key())
	}
	for _, e := range g.edges {
		fmt.Fprintf(&sb, "%d-%q{%s}->%d ", e.from, e.label, fmtJP(e.props), e.to)
	}
	return sb.String()
}

const uidKey = "u9"

// sameJ compares two plain graphs: by node identity if the nodes are told
// apart by labels and properties, by isomorphism otherwise.
func sameJ(a, b *jgraph) error {
	diff := func(why string) error {
		return fmt.Errorf("%s: got %s; expected %s", why, a, b)
	}
	if len(a.nodes) != len(b.nodes) || len(a.edges) != len(b.edges) {
		return diff("different numbers of nodes or edges")
	}
	keyOf := func(g *jgraph) (map[string]int, bool) {
		m := map[string]int{}
		for i, n := range g.nodes {
			m[n.key()] = i
		}
		return m, len(m) == len(g.nodes)
	}
	ma, ua := keyOf(a)
	mb, ub := keyOf(b)
	for k := range ma {
		if _, ok := mb[k]; !ok {
			return diff("node " + k + " is not expected")
		}
	}
	for k := range mb {
		if _, ok := ma[k]; !ok {
			return diff("node " + k + " is missing")
		}
	}
	if ua && ub {
		desc := func(g *jgraph) []string {
			var r []string
			for _, e := range g.edges {
				r = append(r, fmt.Sprintf("%s-%q{%s}->%s", g.nodes[e.from].key(), e.label, fmtJP(e.props), g.nodes[e.to].key()))
			}
			sort.Strings(r)
			return r
		}
		da, db := desc(a), desc(b)
		for i := range da {
			if da[i] != db[i] {
				return diff("different edges")
			}
		}
		return nil
	}
	classes := map[string]int{}
	cls := func(s string) int {
		if c, ok := classes[s]; ok {
			return c
		}
		classes[s] = len(classes)
		return classes[s]
	}
	conv := func(g *jgraph) igraph {
		var r igraph
		for _, n := range g.nodes {
			r.n = append(r.n, cls(n.key()))
		}
		for _, e := range g.edges {
			r.e = append(r.e, [3]int{e.from, e.to, cls(fmt.Sprintf("%q{%s}", e.label, fmtJP(e.props)))})
		}
		return r
	}
	if len(a.nodes) <= 6 && !refIso(conv(a), conv(b)) {
		return diff("the graphs are not isomorphic")
	}
	return nil
}

// jgraphOf reads a real graph, except the objects of a model.
func jgraphOf(g *lpg.Graph, except *World) (*jgraph, error) {
	skipN, skipE := map[*lpg.Node]bool{}, map[*lpg.Edge]bool{}
	limit := 4000
	if except != nil {
		for _, m := range except.nodes {
			skipN[m.n] = true
		}
		for _, m := range except.edges {
			skipE[m.e] = true
		}
	}
	r := &jgraph{}
	idx := map[*lpg.Node]int{}
	ns, ended := drainNodes(g.GetNodes(), limit)
	if !ended {
		return nil, errors.New("node enumeration does not end")
	}
	for _, n := range ns {
		if skipN[n] {
			continue
		}
		x := jnode{labels: n.GetLabels().SortedSlice(), props: map[string]string{}}
		var err error
		n.ForEachProperty(func(k string, v interface{}) bool {
			x.props[k], err = canonVal(v)
			return err == nil
		})
		if err != nil {
			return nil, err
		}
		idx[n] = len(r.nodes)
		r.nodes = append(r.nodes, x)
	}
	es, ended := drainEdges(g.GetEdges(), limit)
	if !ended {
		return nil, errors.New("edge enumeration does not end")
	}
	for _, e := range es {
		if skipE[e] {
			continue
		}
		f, ok1 := idx[e.GetFrom()]
		t, ok2 := idx[e.GetTo()]
		if !ok1 || !ok2 {
			return nil, errors.New("an edge connects a node that is not among the new nodes")
		}
		x := jedge{from: f, to: t, label: e.GetLabel(), props: map[string]string{}}
		var err error
		e.ForEachProperty(func(k string, v interface{}) bool {
			x.props[k], err = canonVal(v)
			return err == nil
		})
		if err != nil {
			return nil, err
		}
		r.edges = append(r.edges, x)
	}
	return r, nil
}

// transform of properties by custom marshalers: "" skips.
type propMap func(key string) string

// modelJ is what a model's JSON document has to mean.
func modelJ(w *World, f propMap) *jgraph {
	r := &jgraph{}
	idx := map[*MN]int{}
	conv := func(p map[string]interface{}) map[string]string {
		o := map[string]string{}
		for k, v := range p {
			if f != nil {
				if k = f(k); k == "" {
					continue
				}
			}
			s, err := canonVal(v)
			if err != nil {
				panic(harnessBug{err.Error()})
			}
			o[k] = s
		}
		return o
	}
	for i, m := range w.nodes {
		idx[m] = i
		r.nodes = append(r.nodes, jnode{labels: setKeys(m.labels), props: conv(m.props)})
	}
	for _, m := range w.edges {
		r.edges = append(r.edges, jedge{from: idx[m.from], to: idx[m.to], label: m.label, props: conv(m.props)})
	}
	return r
}

// ---- strict reading of an encoded document ----------------------------------

// parseStrict parses one JSON value and refuses duplicate keys and anything
// after it. Objects become []kv.
type kv struct {
	k string
	v interface{}
}

func parseStrict(doc []byte) (interface{}, error) {
	if !json.Valid(doc) {
		return nil, fmt.Errorf("not a valid JSON document")
	}
	if !utf8.Valid(doc) {
		return nil, fmt.Errorf("not valid UTF-8")
	}
	dec := json.NewDecoder(bytes.NewReader(doc))
	dec.UseNumber()
	var val func() (interface{}, error)
	val = func() (interface{}, error) {
		t, err := dec.Token()
		if err != nil {
			return nil, err
		}
		switch t {
		case json.Delim('{'):
			obj := []kv{}
			seen := map[string]bool{}
			for dec.More() {
				k, err := dec.Token()
				if err != nil {
					return nil, err
				}
				ks := k.(string)
				if seen[ks] {
					return nil, fmt.Errorf("duplicate key %q", ks)
				}
				seen[ks] = true
				v, err := val()
				if err != nil {
					return nil, err
				}
				obj = append(obj, kv{ks, v})
			}
			_, err := dec.Token()
			return obj, err
		case json.Delim('['):
			arr := []interface{}{}
			for dec.More() {
				v, err := val()
				if err != nil {
					return nil, err
				}
				arr = append(arr, v)
			}
			_, err := dec.Token()
			return arr, err
		}
		return t, nil
	}
	v, err := val()
	if err != nil {
		return nil, err
	}
	if _, err := dec.Token(); err != io.EOF {
		return nil, fmt.Errorf("data after the document")
	}
	return v, nil
}

func unkv(v interface{}) interface{} {
	switch x := v.(type) {
	case []kv:
		m := map[string]interface{}{}
		for _, e := range x {
			m[e.k] = unkv(e.v)
		}
		return m
	case []interface{}:
		r := make([]interface{}, len(x))
		for i := range x {
			r[i] = unkv(x[i])
		}
		return r
	}
	return v
}

// readDoc reads a document of the documented shape. separate tells where the
// edges have to be.
func readDoc(doc []byte, separate bool) (*jgraph, error) {
	v, err := parseStrict(doc)
	if err != nil {
		return nil, err
	}
	top, ok := v.([]kv)
	if !ok {
		return nil, fmt.Errorf("the document is not an object")
	}
	r := &jgraph{}
	idx := map[string]int{}
	type pend struct {
		from string
		own  int
		obj  []kv
	}
	var pending []pend
	props := func(v interface{}) (map[string]string, error) {
		o, ok := v.([]kv)
		if !ok {
			return nil, fmt.Errorf("properties are not an object")
		}
		m := map[string]string{}
		for _, p := range o {
			s, err := canonVal(unkv(p.v))
			if err != nil {
				return nil, err
			}
			m[p.k] = s
		}
		return m, nil
	}
	num := func(v interface{}) (string, error) {
		n, ok := v.(json.Number)
		if !ok {
			return "", fmt.Errorf("node index %v is not a number", v)
		}
		i, err := strconv.Atoi(n.String())
		if err != nil {
			return "", fmt.Errorf("node index %v is not an integer", v)
		}
		return strconv.Itoa(i), nil
	}
	var edgesTop []interface{}
	for _, e := range top {
		switch e.k {
		case "nodes":
			arr, ok := e.v.([]interface{})
			if !ok {
				return nil, fmt.Errorf("nodes is not an array")
			}
			for _, x := range arr {
				o, ok := x.([]kv)
				if !ok {
					return nil, fmt.Errorf("a node is not an object")
				}
				n := jnode{props: map[string]string{}, labels: []string{}}
				me := len(r.nodes)
				has := false
				for _, f := range o {
					switch f.k {
					case "n":
						s, err := num(f.v)
						if err != nil {
							return nil, err
						}
						if _, dup := idx[s]; dup {
							return nil, fmt.Errorf("node index %s is given twice", s)
						}
						idx[s] = me
						has = true
					case "labels":
						ls, ok := f.v.([]interface{})
						if !ok {
							return nil, fmt.Errorf("labels is not an array")
						}
						set := map[string]bool{}
						for _, l := range ls {
							s, ok := l.(string)
							if !ok || set[s] {
								return nil, fmt.Errorf("bad or repeated label %v", l)
							}
							set[s] = true
						}
						n.labels = setKeys(set)
					case "properties":
						if n.props, err = props(f.v); err != nil {
							return nil, err
						}
					case "edges":
						es, ok := f.v.([]interface{})
						if !ok || separate {
							return nil, fmt.Errorf("unexpected edges in a node")
						}
						for _, x := range es {
							o, ok := x.([]kv)
							if !ok {
								return nil, fmt.Errorf("an edge is not an object")
							}
							pending = append(pending, pend{own: me, obj: o})
						}
					default:
						return nil, fmt.Errorf("unknown key %q in a node", f.k)
					}
				}
				if !has {
					return nil, fmt.Errorf("a node without index")
				}
				r.nodes = append(r.nodes, n)
			}
		case "edges":
			arr, ok := e.v.([]interface{})
			if !ok || !separate {
				return nil, fmt.Errorf("unexpected edges in the document")
			}
			edgesTop = arr
		default:
			return nil, fmt.Errorf("unknown key %q", e.k)
		}
	}
	for _, x := range edgesTop {
		o, ok := x.([]kv)
		if !ok {
			return nil, fmt.Errorf("an edge is not an object")
		}
		pending = append(pending, pend{own: -1, obj: o})
	}
	for _, p := range pending {
		e := jedge{from: p.own, to: -1, props: map[string]string{}}
		for _, f := range p.obj {
			switch f.k {
			case "from", "to":
				s, err := num(f.v)
				if err != nil {
					return nil, err
				}
				i, ok := idx[s]
				if !ok {
					return nil, fmt.Errorf("an edge refers to node %s, which is not listed", s)
				}
				if f.k == "to" {
					e.to = i
				} else if p.own >= 0 {
					return nil, fmt.Errorf("an embedded edge has a source")
				} else {
					e.from = i
				}
			case "label":
				s, ok := f.v.(string)
				if !ok {
					return nil, fmt.Errorf("an edge label is not a string")
				}
				e.label = s
			case "properties":
				if e.props, err = props(f.v); err != nil {
					return nil, err
				}
			default:
				return nil, fmt.Errorf("unknown key %q in an edge", f.k)
			}
		}
		if e.from < 0 || e.to < 0 {
			return nil, fmt.Errorf("an edge without endpoints")
		}
		r.edges = append(r.edges, e)
	}
	return r, nil
}

// ---- workload ---------------------------------------------------------------

type jsonable struct{ A []int }

func (j jsonable) MarshalJSON() ([]byte, error) {
	return json.Marshal(map[string]interface{}{"a": j.A})
}

func genJSONValue(r *Rnd, depth int) interface{} {
	switch r.N(14) {
	case 0:
		return nil
	case 1:
		return r.P(1, 2)
	case 2:
		return r.N(1000) - 500
	case 3:
		return float64(r.N(100000)) / 7
	case 4:
		return []interface{}{math.MaxInt32, -1.5e-9, 1e21}[r.N(3)]
	case 5, 6:
		return genText(r)
	case 7:
		return []int{r.N(5), r.N(5)}
	case 8:
		return []string{genText(r), ""}
	case 9:
		return jsonable{[]int{r.N(3)}}
	case 10:
		return Native{genText(r)}
	}
	if depth > 2 {
		return ""
	}
	if r.P(1, 2) {
		l := []interface{}{}
		for k := r.N(4); k > 0; k-- {
			l = append(l, genJSONValue(r, depth+1))
		}
		return l
	}
	m := map[string]interface{}{}
	for k := r.N(4); k > 0; k-- {
		m[genText(r)] = genJSONValue(r, depth+1)
	}
	return m
}

var texts = []string{"", "a", "b", "nodes", "edges", "n", "\"", "\\", "\"}", "],", "\u0000", "\n\t", "\u00e9", "\u4e16\u754c", "\U0001F600", "\u2028", "<&>", "'", "a b", "/", "\u007f", "{", "label", "\ufffd", "\\u0041"}

func genText(r *Rnd) string {
	if r.P(1, 2000) {
		return strings.Repeat("long ", 1000+r.N(20000))
	}
	s := texts[r.N(len(texts))]
	if r.P(1, 4) {
		s += texts[r.N(len(texts))]
	}
	return s
}

// genJWorld builds a graph with arbitrary JSON properties; uid marks every
// node and edge with a property of its own.
func genJWorld(ch *Ch, st *Stats, uid bool, maxN, maxE int) *World {
	r := &Rnd{uint64(ch.U()) | uint64(ch.U())<<32}
	d := &Dom{MaxNodes: 99, MaxEdges: 99, Keys: []string{"a0"}}
	for i := 0; i < 4; i++ {
		d.Labels = append(d.Labels, genText(r))
		d.EdgeLabels = append(d.EdgeLabels, genText(r))
	}
	w := newWorld(d, st)
	n := ch.N(maxN + 1)
	many := 0
	if r.P(1, 24) { // objects with many properties
		many = 50
		if maxN > 12 {
			maxN, maxE = maxN/4, maxE/4
		}
		st.Inc("graphs with many properties", 1)
	}
	hub := r.P(1, 3)
	keys := []string{"k", "K", "p q", "nodes", "\u00e9\"", "\\", "x.y"}
	mk := func(id int) map[string]interface{} {
		if r.P(1, 6) && !uid {
			return nil
		}
		m := map[string]interface{}{}
		for k := r.N(4); k > 0; k-- {
			m[keys[r.N(len(keys))]] = genJSONValue(r, 0)
		}
		for k := r.N(many + 1); k > 0; k-- {
			m[fmt.Sprintf("k%d", k)] = k
		}
		if uid {
			m[uidKey] = id
		}
		return m
	}
	for i := 0; i < n; i++ {
		ls, p := w.pickLabels(r), mk(i)
		w.addMN(w.g.NewNode(ls, p), toSet(ls), copyProps(p))
	}
	if n > 0 {
		for k := ch.N(maxE + 1); k > 0; k-- {
			a, b := w.nodes[r.N(n)], w.nodes[r.N(n)]
			if hub && r.P(1, 2) {
				a = w.nodes[0]
			}
			l, p := d.EdgeLabels[r.N(4)], mk(10000+k)
			w.addME(w.g.NewEdge(a.n, b.n, l, p), a, b, l, copyProps(p))
		}
	}
	// some objects go again, so that listings have had holes
	for k := ch.N(3); k > 0 && len(w.edges) > 0; k-- {
		m := w.edge(r)
		m.e.Remove()
		w.dropEdge(m)
	}
	if len(w.nodes) > 0 && r.P(1, 4) {
		m := w.node(r)
		m.n.DetachAndRemove()
		for _, e := range w.incident(m) {
			w.dropEdge(e)
		}
		w.dropNode(m)
	}
	return w
}

// existing makes a graph that already holds something, indexed.
func existing(ch *Ch, st *Stats) *World {
	d := &Dom{MaxNodes: 99, MaxEdges: 99, Keys: []string{"i0", "s0"}, Labels: []string{"old"}, EdgeLabels: []string{"old"}}
	w := newWorld(d, st)
	if ch.P(1, 2) {
		// indexes that the document's properties, of any kind, go into
		for n := 1 + ch.N(3); n > 0; n-- {
			k := []string{"k", "K", "p q", "nodes", "i0", uidKey}[ch.N(6)]
			t := []lpg.IndexType{lpg.BtreeIndex, lpg.HashIndex}[ch.N(2)]
			if ch.P(1, 2) {
				w.g.AddNodePropertyIndex(k, t)
				if _, ok := w.idxN[k]; !ok {
					w.idxN[k] = t
				}
			} else {
				w.g.AddEdgePropertyIndex(k, t)
				if _, ok := w.idxE[k]; !ok {
					w.idxE[k] = t
				}
			}
		}
	}
	if ch.P(1, 3) {
		return w
	}
	for i := ch.N(4); i > 0; i-- {
		p := map[string]interface{}{"i0": i}
		w.addMN(w.g.NewNode([]string{"old"}, p), toSet([]string{"old"}), copyProps(p))
	}
	if len(w.nodes) > 1 {
		w.addME(w.g.NewEdge(w.nodes[0].n, w.nodes[1].n, "old", nil), w.nodes[0], w.nodes[1], "old", map[string]interface{}{})
	}
	return w
}

// keptIn checks that what the model knows is in the graph as it was.
func (w *World) keptIn(g *lpg.Graph) error {
	ns, _ := drainNodes(g.GetNodes(), 4000)
	es, _ := drainEdges(g.GetEdges(), 4000)
	if err := w.indexesKnow(g, ns, es); err != nil {
		return err
	}
	inN, inE := map[*lpg.Node]int{}, map[*lpg.Edge]int{}
	for _, n := range ns {
		inN[n]++
	}
	for _, e := range es {
		inE[e]++
	}
	for _, m := range w.nodes {
		if inN[m.n] != 1 {
			return fmt.Errorf("node %s, there before, is listed %d times", m.name, inN[m.n])
		}
		if err := w.auditNodeAttrs(m); err != nil {
			return err
		}
	}
	for _, m := range w.edges {
		if inE[m.e] != 1 {
			return fmt.Errorf("edge %s, there before, is listed %d times", m.name, inE[m.e])
		}
		if err := w.auditEdgeAttrs(m); err != nil {
			return err
		}
	}
	return nil
}

// indexesKnow checks the presence lookups of the indexed keys against the
// objects listed.
func (w *World) indexesKnow(g *lpg.Graph, ns []*lpg.Node, es []*lpg.Edge) error {
	for k := range w.idxN {
		want := map[*lpg.Node]int{}
		for _, n := range ns {
			if _, ok := n.GetProperty(k); ok {
				want[n]++
			}
		}
		got, _ := drainNodes(g.GetNodesWithProperty(k), len(ns))
		for _, n := range got {
			want[n]--
		}
		for _, c := range want {
			if c != 0 {
				return fmt.Errorf("GetNodesWithProperty(%q) [%s] lists %d nodes, not those that have it", k, idxName(w.idxN, k), len(got))
			}
		}
		w.st.Inc("index entries of decoded nodes", len(got))
	}
	for k := range w.idxE {
		want := map[*lpg.Edge]int{}
		for _, e := range es {
			if _, ok := e.GetProperty(k); ok {
				want[e]++
			}
		}
		got, _ := drainEdges(g.GetEdgesWithProperty(k), len(es))
		for _, e := range got {
			want[e]--
		}
		for _, c := range want {
			if c != 0 {
				return fmt.Errorf("GetEdgesWithProperty(%q) [%s] lists %d edges, not those that have it", k, idxName(w.idxE, k), len(got))
			}
		}
		w.st.Inc("index entries of decoded edges", len(got))
	}
	return nil
}

// chunked delivers its input in small pieces.
type chunked struct {
	b []byte
	n int
}

func (c *chunked) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	k := c.n
	if k > len(c.b) {
		k = len(c.b)
	}
	if k > len(p) {
		k = len(p)
	}
	copy(p, c.b[:k])
	c.b = c.b[k:]
	return k, nil
}

func decoderOf(ch *Ch, doc []byte) *json.Decoder {
	if ch.P(1, 3) {
		// the decoder of the standard library starts over after each chunk
		return json.NewDecoder(&chunked{doc, 1 + ch.N(7) + len(doc)/2000})
	}
	return json.NewDecoder(bytes.NewReader(doc))
}

type countingInterner struct {
	m map[string]string
	n int
}

func (c *countingInterner) Intern(s string) string {
	c.n++
	if x, ok := c.m[s]; ok {
		return x
	}
	c.m[s] = s
	return s
}

func runC10(c *Case, st *Stats) error {
	ch := &Ch{v: c.Q}
	uid := ch.P(2, 3)
	var w *World
	if uid && ch.P(1, 250) {
		w = genJWorld(ch, st, true, 900, 1500)
		st.Inc("large graphs", 1)
	} else if uid {
		w = genJWorld(ch, st, true, 12, 20)
	} else {
		w = genJWorld(ch, st, false, 5, 8)
	}
	j := lpg.JSON{MarshalEdgesSeparately: ch.P(1, 2)}
	shared := &countingInterner{m: map[string]string{}}
	switch ch.N(3) {
	case 1:
		j.Interner = lpg.MapInterner{}
	case 2:
		j.Interner = shared
	}
	custom := ch.N(3)
	var down, up propMap
	type call struct{ k, v string }
	calls := map[call]int{}
	if custom > 0 {
		skip := ch.P(1, 2)
		down = func(k string) string {
			if skip && (k == "K" || k == "\\") {
				return ""
			}
			return "x:" + k
		}
		j.PropertyMarshaler = func(k string, v interface{}) (string, json.RawMessage, error) {
			calls[call{k, fmtVal(v)}]++
			b, err := json.Marshal([]interface{}{v})
			return down(k), b, err
		}
		if custom > 1 {
			j.PropertyUnmarshaler = func(k string, raw json.RawMessage) (string, interface{}, error) {
				var v []interface{}
				if err := json.Unmarshal(raw, &v); err != nil {
					return "", nil, err
				}
				if len(v) != 1 {
					return "", nil, fmt.Errorf("unmarshaler was given %s", raw)
				}
				if k == "x:k" {
					return "", nil, nil
				}
				return strings.TrimPrefix(k, "x:"), v[0], nil
			}
			up = func(k string) string {
				if d := down(k); d == "" || d == "x:k" {
					return ""
				}
				return k
			}
		}
	}
	if st.logging {
		st.Logf("%s separately=%v custom=%d", modelJ(w, nil), j.MarshalEdgesSeparately, custom)
	}
	var out bytes.Buffer
	if err := j.Encode(w.g, &out); err != nil {
		return fmt.Errorf("encoding failed: %v", err)
	}
	doc := append([]byte{}, out.Bytes()...)
	st.Logf("document: %s", doc)
	got, err := readDoc(doc, j.MarshalEdgesSeparately)
	if err != nil {
		return fmt.Errorf("the document %s: %w", doc, err)
	}
	want := modelJ(w, down)
	if custom > 0 { // values were wrapped in an array
		for _, l := range [][]map[string]string{propsOf(want)} {
			for _, p := range l {
				for k, v := range p {
					p[k] = "[" + v + "]"
				}
			}
		}
		for _, m := range w.nodes {
			for k, v := range m.props {
				if calls[call{k, fmtVal(v)}] == 0 {
					return fmt.Errorf("the property marshaler was not called for %s=%s of %s", k, fmtVal(v), m.name)
				}
			}
		}
		for _, m := range w.edges {
			for k, v := range m.props {
				if calls[call{k, fmtVal(v)}] == 0 {
					return fmt.Errorf("the property marshaler was not called for %s=%s of %s", k, fmtVal(v), m.name)
				}
			}
		}
		st.Inc("custom marshalers", 1)
	}
	if err := sameJ(got, want); err != nil {
		return fmt.Errorf("the document %s: %w", doc, err)
	}
	st.Inc("documents read", 1)
	// and back
	if custom == 2 {
		want = modelJ(w, up)
	}
	rounds := 1 + ch.N(2)
	for k := 0; k < rounds; k++ {
		old := existing(ch, st)
		if err := j.Decode(old.g, decoderOf(ch, doc)); err != nil {
			return fmt.Errorf("decoding %s: %v", doc, err)
		}
		got, err := jgraphOf(old.g, old)
		if err != nil {
			return fmt.Errorf("decoding %s: %w", doc, err)
		}
		if err := sameJ(got, want); err != nil {
			return fmt.Errorf("decoding %s: %w", doc, err)
		}
		if err := old.keptIn(old.g); err != nil {
			return fmt.Errorf("decoding into a graph: %w", err)
		}
		st.Inc("round trips", 1)
		if len(old.nodes) > 0 {
			st.Inc("decoded into a non-empty graph", 1)
		} else if custom == 0 {
			// what was decoded is a graph: encode it again, the other way
			j2 := j
			j2.MarshalEdgesSeparately = !j.MarshalEdgesSeparately
			var b bytes.Buffer
			if err := j2.Encode(old.g, &b); err != nil {
				return fmt.Errorf("encoding what was decoded: %v", err)
			}
			again, err := readDoc(b.Bytes(), j2.MarshalEdgesSeparately)
			if err != nil {
				return fmt.Errorf("the document %s: %w", b.Bytes(), err)
			}
			if err := sameJ(again, want); err != nil {
				return fmt.Errorf("encoding what was decoded: %w", err)
			}
			st.Inc("encoded again", 1)
		}
	}
	for _, m := range w.nodes {
		if err := w.auditNodeAttrs(m); err != nil {
			return fmt.Errorf("encoding changed the graph: %w", err)
		}
	}
	if err := w.auditC02(w.nodes); err != nil {
		return fmt.Errorf("encoding changed the graph: %w", err)
	}
	if j.MarshalEdgesSeparately {
		st.Inc("edges separate", 1)
	} else {
		st.Inc("edges embedded", 1)
	}
	if len(w.nodes) == 0 {
		st.Inc("empty graphs", 1)
	}
	if len(w.edges) > 0 {
		st.Sig(hashCase(c))
	}
	return nil
}

func propsOf(g *jgraph) []map[string]string {
	var r []map[string]string
	for _, n := range g.nodes {
		r = append(r, n.props)
	}
	for _, e := range g.edges {
		r = append(r, e.props)
	}
	return r
}

// ---- C11: documents written by this harness ---------------------------------

type docWriter struct {
	r       *Rnd
	ws      bool // white space
	esc     bool // unusual escapes
	unknown bool // unknown keys
	sb      strings.Builder
}

func (d *docWriter) sp() string {
	if !d.ws || d.r.P(1, 2) {
		return ""
	}
	return []string{" ", "\n", "\t", " \r\n "}[d.r.N(4)]
}

func (d *docWriter) str(s string) string {
	if !d.esc {
		b, _ := json.Marshal(s)
		return string(b)
	}
	var sb strings.Builder
	sb.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			sb.WriteByte('\\')
			sb.WriteRune(c)
		case c == '/' && d.r.P(1, 2):
			sb.WriteString("\\/")
		case c < 0x20 || d.r.P(1, 3):
			if c > 0xffff {
				c -= 0x10000
				fmt.Fprintf(&sb, "\\u%04x\\u%04X", 0xd800+(c>>10), 0xdc00+(c&0x3ff))
			} else {
				fmt.Fprintf(&sb, "\\u%04x", c)
			}
		default:
			sb.WriteRune(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func (d *docWriter) arr(items []string) string {
	return "[" + d.sp() + strings.Join(items, d.sp()+","+d.sp()) + d.sp() + "]"
}

func shuffle(r *Rnd, n int, swap func(i, j int)) {
	for i := 0; i < n; i++ {
		swap(i, i+r.N(n-i))
	}
}

// obj writes an object with its keys in any order, and unknown keys between.
func (d *docWriter) obj(kvs [][2]string, level string) string {
	if d.unknown {
		for k := d.r.N(3); k > 0; k-- {
			key := []string{"comment", "x", "meta", "nodes2", "", "id", "\u00e9", "type"}[d.r.N(8)] + level + strconv.Itoa(k)
			kvs = append(kvs, [2]string{key, d.any(0)})
		}
	}
	shuffle(d.r, len(kvs), func(i, j int) { kvs[i], kvs[j] = kvs[j], kvs[i] })
	var items []string
	for _, e := range kvs {
		items = append(items, d.str(e[0])+d.sp()+":"+d.sp()+e[1])
	}
	return "{" + d.sp() + strings.Join(items, d.sp()+","+d.sp()) + d.sp() + "}"
}

// any writes an arbitrary value, which may look like parts of a graph.
func (d *docWriter) any(depth int) string {
	if depth == 0 && d.r.P(1, 400) {
		n := 500 + d.r.N(3000)
		if d.r.P(1, 2) {
			return strings.Repeat("[", n) + strings.Repeat("]", n)
		}
		return strings.Repeat(`{"nodes":`, n) + "0" + strings.Repeat("}", n)
	}
	switch d.r.N(12) {
	case 0:
		return "null"
	case 1:
		return []string{"true", "false"}[d.r.N(2)]
	case 2:
		return []string{"0", "-1", "1.5e3", "1E-2", "12345678901234567890"}[d.r.N(5)]
	case 3, 4:
		return d.str(genText(d.r))
	case 5:
		return "{}"
	case 6:
		return "[]"
	case 7:
		return `{"nodes":[{"n":0}],"edges":[{"from":0,"to":77}]}`
	}
	if depth > 3 {
		return "1"
	}
	var items []string
	for k := d.r.N(4); k > 0; k-- {
		items = append(items, d.any(depth+1))
	}
	if d.r.P(1, 2) {
		return d.arr(items)
	}
	for i := range items {
		items[i] = d.str([]string{"nodes", "edges", "a", "b"}[i%4]+[]string{"", "x"}[d.r.N(2)]) + ":" + items[i]
	}
	return "{" + strings.Join(items, ",") + "}"
}

func (d *docWriter) props(m map[string]string) string {
	var kvs [][2]string
	for _, k := range func() []string {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		return ks
	}() {
		kvs = append(kvs, [2]string{k, m[k]})
	}
	u := d.unknown
	d.unknown = false
	defer func() { d.unknown = u }()
	return d.obj(kvs, "")
}

// write spells the graph; where says for each edge whether it is embedded.
// dangling >= 0 makes that edge refer to a node that is not there.
func (d *docWriter) write(g *jgraph, where func(i int) bool, dangling int) string {
	idx := make([]int, len(g.nodes))
	used := map[int]bool{}
	for i := range idx {
		for {
			switch d.r.N(5) {
			case 0:
				idx[i] = d.r.N(1 << 30)
			case 1:
				idx[i] = -1 - d.r.N(20)
			default:
				idx[i] = d.r.N(2*len(idx) + 1)
			}
			if !used[idx[i]] {
				used[idx[i]] = true
				break
			}
		}
	}
	absent := func() int {
		for {
			k := []int{d.r.N(40), -1 - d.r.N(40), 1 << 31}[d.r.N(3)]
			if !used[k] {
				return k
			}
		}
	}
	embedded := make([][]string, len(g.nodes))
	var separate []string
	order := make([]int, len(g.edges))
	for i := range order {
		order[i] = i
	}
	shuffle(d.r, len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	for _, i := range order {
		e := g.edges[i]
		from, to := idx[e.from], idx[e.to]
		emb := where(i)
		if i == dangling {
			if emb || d.r.P(1, 2) {
				to = absent()
			} else {
				from = absent()
			}
		}
		kvs := [][2]string{{"to", strconv.Itoa(to)}}
		if e.label != "" || d.r.P(1, 2) {
			kvs = append(kvs, [2]string{"label", d.str(e.label)})
		}
		if len(e.props) > 0 || d.r.P(1, 2) {
			kvs = append(kvs, [2]string{"properties", d.props(e.props)})
		}
		if emb {
			embedded[e.from] = append(embedded[e.from], d.obj(kvs, "e"))
		} else {
			kvs = append(kvs, [2]string{"from", strconv.Itoa(from)})
			separate = append(separate, d.obj(kvs, "s"))
		}
	}
	var nodes []string
	norder := make([]int, len(g.nodes))
	for i := range norder {
		norder[i] = i
	}
	shuffle(d.r, len(norder), func(i, j int) { norder[i], norder[j] = norder[j], norder[i] })
	for _, i := range norder {
		n := g.nodes[i]
		kvs := [][2]string{{"n", strconv.Itoa(idx[i])}}
		if len(n.labels) > 0 || d.r.P(1, 3) {
			ls := append([]string{}, n.labels...)
			shuffle(d.r, len(ls), func(i, j int) { ls[i], ls[j] = ls[j], ls[i] })
			for i := range ls {
				ls[i] = d.str(ls[i])
			}
			kvs = append(kvs, [2]string{"labels", d.arr(ls)})
		}
		if len(n.props) > 0 || d.r.P(1, 3) {
			kvs = append(kvs, [2]string{"properties", d.props(n.props)})
		}
		if len(embedded[i]) > 0 || d.r.P(1, 4) {
			kvs = append(kvs, [2]string{"edges", d.arr(embedded[i])})
		}
		nodes = append(nodes, d.obj(kvs, "n"))
	}
	var top [][2]string
	if len(nodes) > 0 || d.r.P(1, 2) {
		top = append(top, [2]string{"nodes", d.arr(nodes)})
	}
	if len(separate) > 0 || d.r.P(1, 3) {
		top = append(top, [2]string{"edges", d.arr(separate)})
	}
	return d.sp() + d.obj(top, "t")
}

func genJgraph(r *Rnd, uid bool, maxN, maxE int) *jgraph {
	g := &jgraph{}
	props := func(id int) map[string]string {
		m := map[string]string{}
		for k := r.N(3); k > 0; k-- {
			m[[]string{"k", "K", "p q", "nodes", "\u00e9\""}[r.N(5)]], _ = canonVal(genJSONValue(r, 0))
		}
		if uid {
			m[uidKey] = strconv.Itoa(id)
		}
		return m
	}
	n := r.N(maxN + 1)
	for i := 0; i < n; i++ {
		ls := map[string]bool{}
		for k := r.N(3); k > 0; k-- {
			ls[genText(r)] = true
		}
		g.nodes = append(g.nodes, jnode{labels: setKeys(ls), props: props(i)})
	}
	if n > 0 {
		for k := r.N(maxE + 1); k > 0; k-- {
			g.edges = append(g.edges, jedge{from: r.N(n), to: r.N(n), label: genText(r), props: props(1000 + k)})
		}
	}
	return g
}

func firstValue(b []byte) error {
	var raw json.RawMessage
	return json.NewDecoder(bytes.NewReader(b)).Decode(&raw)
}

func runC11(c *Case, st *Stats) error {
	ch := &Ch{v: c.Q}
	r := &Rnd{uint64(ch.U()) | uint64(ch.U())<<32}
	uid := ch.P(2, 3)
	g := genJgraph(r, uid, 5, 7)
	if uid && ch.P(1, 3) {
		g = genJgraph(r, true, 14, 24)
	}
	large := uid && ch.P(1, 150)
	if large {
		g = genJgraph(r, true, 700, 1500)
		st.Inc("large documents", 1)
	}
	d := &docWriter{r: r, ws: ch.P(1, 2), esc: ch.P(1, 2), unknown: ch.P(2, 3)}
	mode := ch.N(3)
	where := func(i int) bool { return mode == 0 || mode == 1 && (i*7+len(g.edges))%3 != 0 }
	doc := d.write(g, where, -1)
	if err := firstValue([]byte(doc)); err != nil {
		panic(harnessBug{"the harness wrote a bad document: " + doc})
	}
	st.Logf("document: %s", doc)
	st.Logf("graph: %s", g)
	old := existing(ch, st)
	var j lpg.JSON
	if ch.P(1, 3) {
		j.Interner = lpg.MapInterner{}
	}
	if err := j.Decode(old.g, decoderOf(ch, []byte(doc))); err != nil {
		return fmt.Errorf("decoding %s failed: %v", doc, err)
	}
	got, err := jgraphOf(old.g, old)
	if err != nil {
		return fmt.Errorf("decoding %s: %w", doc, err)
	}
	if err := sameJ(got, g); err != nil {
		return fmt.Errorf("decoding %s: %w", doc, err)
	}
	if err := old.keptIn(old.g); err != nil {
		return fmt.Errorf("decoding %s: %w", doc, err)
	}
	st.Inc("documents decoded", 1)
	if d.unknown {
		st.Inc("documents with unknown keys", 1)
	}
	if len(g.edges) > 0 {
		st.Inc([]string{"edges embedded", "edges mixed", "edges separate"}[mode], 1)
		st.Sig(hashCase(c))
	}
	// dangling references
	if len(g.edges) > 0 {
		bad := d.write(g, where, ch.N(len(g.edges)))
		old := existing(ch, st)
		err := j.Decode(old.g, decoderOf(ch, []byte(bad)))
		if err == nil {
			return fmt.Errorf("decoding %s, with a reference to a node that is not there, succeeded", bad)
		}
		var inv lpg.ErrInvalidGraph
		if !errors.As(err, &inv) || inv.Msg == "" || !strings.Contains(err.Error(), inv.Msg) {
			return fmt.Errorf("decoding %s, with a reference to a node that is not there, gives %T %q", bad, err, err)
		}
		if err := old.keptIn(old.g); err != nil {
			return fmt.Errorf("decoding %s: %w", bad, err)
		}
		st.Inc("dangling references refused", 1)
	}
	// truncation: at every byte of small documents
	body := strings.TrimRight(doc, " \r\n\t")
	step := 1
	if len(body) > 300 {
		step = 1 + len(body)/300
		if large {
			step = 1 + len(body)/20
		}
	}
	for k := ch.N(step); k < len(body); k += step {
		old := lpg.NewGraph()
		if err := j.Decode(old, json.NewDecoder(strings.NewReader(body[:k]))); err == nil {
			return fmt.Errorf("decoding the truncated document %s succeeded", body[:k])
		}
		st.Inc("truncations refused", 1)
	}
	// damage
	damages := 20
	if large {
		damages = 3
	}
	for k := 0; k < damages; k++ {
		b := []byte(doc)
		for n := 1 + ch.N(3); n > 0 && len(b) > 0; n-- {
			p := r.N(len(b))
			switch r.N(6) {
			case 0:
				b[p] = `{}[],:"0-.e\ntf`[r.N(15)]
			case 1:
				b = append(b[:p:p], b[p+1:]...)
			case 2:
				b = append(b[:p:p], append([]byte{`{}[],:"1`[r.N(8)]}, b[p:]...)...)
			case 3:
				q := p + 1 + r.N(8)
				if q > len(b) {
					q = len(b)
				}
				b = append(b[:p:p], b[q:]...)
			case 4:
				b = append(b[:p:p], append([]byte(d.any(0)), b[p:]...)...)
			case 5:
				b[p] ^= 1 << uint(r.N(8))
			}
		}
		g := lpg.NewGraph()
		err := j.Decode(g, json.NewDecoder(bytes.NewReader(b)))
		if ref := firstValue(b); ref != nil {
			if err == nil {
				return fmt.Errorf("decoding %s succeeded, although the document is malformed (%v)", b, ref)
			}
			st.Inc("malformed documents refused", 1)
		} else {
			st.Inc("damaged but well-formed documents", 1)
		}
		if _, ended := drainNodes(g.GetNodes(), g.NumNodes()); !ended {
			return fmt.Errorf("after decoding %s the nodes cannot be enumerated", b)
		}
	}
	// values of the wrong kind
	for k := 0; k < 6; k++ {
		b := wrongKind(d, r)
		g := lpg.NewGraph()
		if err := j.Decode(g, json.NewDecoder(strings.NewReader(b))); err == nil {
			return fmt.Errorf("decoding %s, which is not a graph, succeeded", b)
		}
		st.Inc("documents of another shape refused", 1)
	}
	return nil
}

// wrongKind writes well-formed JSON that does not describe a graph.
func wrongKind(d *docWriter, r *Rnd) string {
	scalar := func() string { return []string{"1", `"x"`, "true", "{}"}[r.N(4)] }
	switch r.N(8) {
	case 6:
		// a number that cannot be represented
		v := []string{"1e999", "-1e400", "[1e999]", `{"a":[0,1E+999]}`}[r.N(4)]
		return []string{
			`{"nodes":[{"n":0,"properties":{"p":` + v + `}}]}`,
			`{"nodes":[{"n":0,"properties":{"a":1,"p":` + v + `,"z":"t"}},{"n":1}]}`,
			`{"nodes":[{"n":0,"edges":[{"to":0,"properties":{"p":` + v + `}}]}]}`,
			`{"nodes":[{"n":0,"edges":[{"to":1,"properties":{"p":` + v + `}}]},{"n":1}]}`,
			`{"nodes":[{"n":0}],"edges":[{"from":0,"to":0,"properties":{"p":` + v + `}}]}`,
			`{"edges":[{"from":0,"to":0,"properties":{"p":` + v + `}}],"nodes":[{"n":0}]}`,
		}[r.N(6)]
	case 0:
		return []string{"[]", "1", `"nodes"`, "null", "true", `[{"nodes":[]}]`}[r.N(6)]
	case 1:
		return `{"nodes":` + scalar() + `}`
	case 2:
		return `{"nodes":[{"n":0}],"edges":` + scalar() + `}`
	case 3:
		return `{"nodes":[{"n":` + []string{`"0"`, "1.5", "[]", "{}", "1e40"}[r.N(5)] + `}]}`
	case 4:
		return `{"nodes":[{"n":0,"labels":` + []string{`"A"`, "[1]", "{}", "[[]]"}[r.N(4)] + `}]}`
	case 5:
		return `{"nodes":[{"n":0,"properties":` + []string{`"A"`, "[1]", "1", "[]"}[r.N(4)] + `}]}`
	}
	return `{"nodes":[{"n":0}],"edges":[{"from":0,"to":` + []string{`"0"`, "0.5", "[]"}[r.N(3)] + `}]}`
}

func init() {
	register(&Check{ID: "C10", Quick: 144000, Thorough: 1800000, Run: runC10,
		Gen:      func(r *rand.Rand, idx int) *Case { return &Case{Idx: idx, Q: randQ(r, 40)} },
		Required: []string{"documents read", "round trips", "edges separate", "edges embedded", "empty graphs", "large graphs", "custom marshalers", "decoded into a non-empty graph", "encoded again", "index entries of decoded nodes", "index entries of decoded edges"},
		Rule:     "random graphs with labels, keys and values that need escaping, encoded in both forms with and without property marshalers; the document is read by the harness's own strict reader and then decoded, at times into a graph that holds something; non-trivial if the graph has edges"})
	register(&Check{ID: "C11", Quick: 30000, Thorough: 370000, Run: runC11,
		Gen:      func(r *rand.Rand, idx int) *Case { return &Case{Idx: idx, Q: randQ(r, 80)} },
		Required: []string{"documents decoded", "documents with unknown keys", "edges embedded", "edges mixed", "edges separate", "large documents", "dangling references refused", "truncations refused", "malformed documents refused", "damaged but well-formed documents", "documents of another shape refused", "index entries of decoded nodes", "index entries of decoded edges"},
		Rule:     "documents written by the harness for random graphs: shuffled keys, nodes and edges, any indexes, white space, escapes, unknown keys with nested values, edges embedded, separate or mixed; then the same with a dangling reference, truncated at every byte, damaged at random, and of another shape; non-trivial if the graph has edges"})
}
