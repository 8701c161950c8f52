package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"sort"
	"strconv"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// C36: callbacks that panic, leave the goroutine, fail, or use the library.

type boom struct{ n int }

const (
	actNothing = iota
	actPanic
	actExit
	actError
	actAdd
)

var actNames = []string{"returns", "panics", "exits", "fails", "adds to the target"}

// trigger does something in one of the calls of the callbacks of an operation.
type trigger struct {
	at, calls int
	act       int
	val       *boom
	add       func()
	fired     bool
}

// hit is called by every callback.
func (t *trigger) hit() error {
	t.calls++
	if t.calls != t.at {
		return nil
	}
	t.fired = true
	switch t.act {
	case actPanic:
		panic(t.val)
	case actExit:
		runtime.Goexit()
	case actError:
		return errInjected
	case actAdd:
		t.add()
	}
	return nil
}

// guarded runs f in a goroutine of its own and tells whether it came to its
// end, and the panic that ended it.
func guarded(f func()) (val interface{}, done bool) {
	end := make(chan struct{})
	go func() {
		defer close(end)
		defer func() {
			if !done {
				val = recover()
			}
		}()
		f()
		done = true
	}()
	<-end
	return
}

func labelsDesc(ls []string) string {
	ls = append([]string{}, ls...)
	sort.Strings(ls)
	return fmt.Sprintf("%q", ls)
}

func nodeDesc(labels map[string]bool, props map[string]interface{}) string {
	return labelsDesc(setKeys(labels)) + fmtProps(props)
}

func propsRead(h propHolder) map[string]interface{} {
	p := map[string]interface{}{}
	h.ForEachProperty(func(k string, v interface{}) bool { p[k] = v; return true })
	return p
}

// takeIn adds the objects of the graph that the model does not know to the
// model. They have to be among the expected ones, and if all is set, there
// have to be all of these.
func (w *World) takeIn(nodes, edges map[string]int, all bool) (int, error) {
	knownN, knownE := map[*lpg.Node]*MN{}, map[*lpg.Edge]bool{}
	for _, m := range w.nodes {
		knownN[m.n] = m
	}
	for _, m := range w.edges {
		knownE[m.e] = true
	}
	room := 1
	for _, c := range nodes {
		room += c
	}
	ns, ended := drainNodes(w.g.GetNodes(), len(w.nodes)+room)
	if !ended {
		return 0, fmt.Errorf("too many nodes: %d were known, at most %d could be added", len(w.nodes), room-1)
	}
	left := map[string]int{}
	for k, c := range nodes {
		left[k] = c
	}
	added := 0
	for _, n := range ns {
		if knownN[n] != nil {
			continue
		}
		ls, p := n.GetLabels().SortedSlice(), propsRead(n)
		d := labelsDesc(ls) + fmtProps(p)
		if left[d] == 0 {
			return 0, fmt.Errorf("a node %s was added, which is not one of %v", d, descList(nodes))
		}
		left[d]--
		knownN[n] = w.addMN(n, toSet(ls), p)
		added++
	}
	if all {
		for d, c := range left {
			if c != 0 {
				return 0, fmt.Errorf("%d nodes %s are missing", c, d)
			}
		}
	}
	room = 1
	for _, c := range edges {
		room += c
	}
	es, ended := drainEdges(w.g.GetEdges(), len(w.edges)+room)
	if !ended {
		return 0, fmt.Errorf("too many edges: %d were known, at most %d could be added", len(w.edges), room-1)
	}
	left = map[string]int{}
	for k, c := range edges {
		left[k] = c
	}
	for _, e := range es {
		if knownE[e] {
			continue
		}
		f, t := knownN[e.GetFrom()], knownN[e.GetTo()]
		if f == nil || t == nil {
			return 0, fmt.Errorf("an edge was added between nodes that are not in the graph")
		}
		p := propsRead(e)
		d := edgeEnds(nodeDesc(f.labels, f.props), nodeDesc(t.labels, t.props), e.GetLabel(), p)
		if left[d] == 0 {
			return 0, fmt.Errorf("an edge %s was added, which is not one of %v", d, descList(edges))
		}
		left[d]--
		w.addME(e, f, t, e.GetLabel(), p)
		added++
	}
	if all {
		for d, c := range left {
			if c != 0 {
				return 0, fmt.Errorf("%d edges %s are missing", c, d)
			}
		}
	}
	return added, nil
}

func edgeEnds(from, to, label string, props map[string]interface{}) string {
	return fmt.Sprintf("%s-%q%s->%s", from, label, fmtProps(props), to)
}

func descList(m map[string]int) []string {
	var l []string
	for d, c := range m {
		l = append(l, fmt.Sprintf("%dx%s", c, d))
	}
	sort.Strings(l)
	return l
}

// expectCopies describes the copies of some nodes and of the edges between
// them.
func expectCopies(src *World, sel func(*MN) bool, f func(string, interface{}) interface{}) (nodes, edges map[string]int) {
	nodes, edges = map[string]int{}, map[string]int{}
	for _, m := range src.nodes {
		if sel(m) {
			nodes[nodeDesc(m.labels, mapProps(m.props, f))]++
		}
	}
	for _, m := range src.edges {
		if sel(m.from) && sel(m.to) {
			edges[edgeEnds(nodeDesc(m.from.labels, mapProps(m.from.props, f)), nodeDesc(m.to.labels, mapProps(m.to.props, f)), m.label, mapProps(m.props, f))]++
		}
	}
	return
}

// anOp is an operation with callbacks, on src and possibly into dst.
type anOp struct {
	name   string
	writes bool
	errs   bool // callbacks can return errors
	run    func(t *trigger) error
	// what may appear in dst
	nodes, edges map[string]int
}

// simpleDoc makes a document of integers and strings and says what it holds.
func simpleDoc(w *World, r *Rnd) (string, map[string]int, map[string]int) {
	g := &jgraph{}
	nodes, edges := map[string]int{}, map[string]int{}
	props := func() (map[string]string, map[string]interface{}) {
		raw, val := map[string]string{}, map[string]interface{}{}
		for _, k := range w.dom.Keys {
			if !r.P(1, 2) {
				continue
			}
			switch k[0] {
			case 'i':
				val[k] = r.N(9)
				raw[k] = strconv.Itoa(val[k].(int))
			case 's':
				val[k] = string(rune('a' + r.N(5)))
				raw[k] = strconv.Quote(val[k].(string))
			}
		}
		return raw, val
	}
	var descs []string
	for n := r.N(5); n > 0; n-- {
		ls := toSet(w.pickLabels(r))
		raw, val := props()
		g.nodes = append(g.nodes, jnode{labels: setKeys(ls), props: raw})
		descs = append(descs, nodeDesc(ls, val))
		nodes[nodeDesc(ls, val)]++
	}
	if len(descs) > 0 {
		for n := r.N(6); n > 0; n-- {
			from, to := r.N(len(descs)), r.N(len(descs))
			l := w.dom.EdgeLabels[r.N(len(w.dom.EdgeLabels))]
			raw, val := props()
			g.edges = append(g.edges, jedge{from: from, to: to, label: l, props: raw})
			edges[edgeEnds(descs[from], descs[to], l, val)]++
		}
	}
	d := &docWriter{r: r, unknown: r.P(1, 4)}
	mode := r.N(3)
	return d.write(g, func(i int) bool { return mode == 0 || mode == 1 && i%2 == 0 }, -1), nodes, edges
}

// hitReader calls the trigger at every read.
type hitReader struct {
	io.Reader
	t *trigger
}

func (h hitReader) Read(p []byte) (int, error) {
	if err := h.t.hit(); err != nil {
		return 0, err
	}
	if len(p) > 24 {
		p = p[:24]
	}
	return h.Reader.Read(p)
}

type hitWriter struct{ t *trigger }

func (h hitWriter) Write(p []byte) (int, error) {
	if err := h.t.hit(); err != nil {
		return 0, err
	}
	return len(p), nil
}

type hitInterner struct {
	m lpg.MapInterner
	t *trigger
}

func (h hitInterner) Intern(s string) string {
	h.t.hit()
	return h.m.Intern(s)
}

type hitAccumulator struct{ t *trigger }

func (h hitAccumulator) StoreResult(*lpg.MatchContext, *lpg.Path, map[string]interface{}) { h.t.hit() }

func pickOp(src, dst *World, r *Rnd) *anOp {
	mode := r.N(4)
	f := copier(mode)
	hitf := func(t *trigger) func(string, interface{}) interface{} {
		return func(k string, v interface{}) interface{} {
			t.hit()
			return f(k, v)
		}
	}
	all := func(*MN) bool { return true }
	switch r.N(14) {
	case 0:
		n, e := expectCopies(src, all, f)
		return &anOp{name: "CopyGraph", writes: true, nodes: n, edges: e, run: func(t *trigger) error {
			lpg.CopyGraph(src.g, dst.g, hitf(t))
			return nil
		}}
	case 1:
		n, e := expectCopies(src, all, f)
		late := r.P(1, 2)
		return &anOp{name: "CopyGraphf", writes: true, nodes: n, edges: e, run: func(t *trigger) error {
			lpg.CopyGraphf(src.g, func(n *lpg.Node, _ map[*lpg.Node]*lpg.Node) *lpg.Node {
				if !late {
					t.hit()
				}
				c := lpg.CopyNode(n, dst.g, f)
				if late {
					t.hit()
				}
				return c
			}, func(e *lpg.Edge, nm map[*lpg.Node]*lpg.Node) *lpg.Edge {
				if !late {
					t.hit()
				}
				c := lpg.CopyEdge(e, dst.g, f, nm)
				if late {
					t.hit()
				}
				return c
			})
			return nil
		}}
	case 2, 3:
		root := src.node(r)
		if root == nil {
			return nil
		}
		in := reach(src.adjacency(), []*MN{root})
		n, e := expectCopies(src, func(m *MN) bool { return in[m] }, f)
		return &anOp{name: "CopySubgraph", writes: true, nodes: n, edges: e, run: func(t *trigger) error {
			lpg.CopySubgraph(root.n, dst.g, hitf(t), map[*lpg.Node]*lpg.Node{})
			return nil
		}}
	case 4:
		m := src.node(r)
		if m == nil {
			return nil
		}
		n, _ := expectCopies(src, func(x *MN) bool { return x == m }, f)
		return &anOp{name: "CopyNode", writes: true, nodes: n, run: func(t *trigger) error {
			lpg.CopyNode(m.n, dst.g, hitf(t))
			return nil
		}}
	case 5, 6:
		m, from, to := src.edge(r), dst.node(r), dst.node(r)
		if m == nil || from == nil || to == nil {
			return nil
		}
		d := edgeEnds(nodeDesc(from.labels, from.props), nodeDesc(to.labels, to.props), m.label, mapProps(m.props, f))
		byMap := r.P(1, 2) && m.from != m.to
		return &anOp{name: "CloneEdge", writes: true, edges: map[string]int{d: 1}, run: func(t *trigger) error {
			if byMap {
				lpg.CopyEdge(m.e, dst.g, hitf(t), map[*lpg.Node]*lpg.Node{m.from.n: from.n, m.to.n: to.n})
			} else {
				lpg.CloneEdge(from.n, to.n, m.e, dst.g, hitf(t))
			}
			return nil
		}}
	case 7, 8:
		doc, n, e := simpleDoc(dst, r)
		who := r.N(3)
		return &anOp{name: "Decode", writes: true, errs: who != 1, nodes: n, edges: e, run: func(t *trigger) error {
			j := lpg.JSON{}
			idle := &trigger{}
			tr := [3]*trigger{idle, idle, idle}
			tr[who] = t
			j.PropertyUnmarshaler = func(k string, raw json.RawMessage) (string, interface{}, error) {
				if err := tr[0].hit(); err != nil {
					return "", nil, err
				}
				if i, err := strconv.Atoi(string(raw)); err == nil {
					return k, i, nil
				}
				var s string
				err := json.Unmarshal(raw, &s)
				return k, s, err
			}
			j.Interner = hitInterner{lpg.MapInterner{}, tr[1]}
			return j.Decode(dst.g, json.NewDecoder(hitReader{strings.NewReader(doc), tr[2]}))
		}}
	case 9:
		sep, marsh := r.P(1, 2), r.P(1, 2)
		return &anOp{name: "Encode", errs: true, run: func(t *trigger) error {
			j := lpg.JSON{MarshalEdgesSeparately: sep}
			idle := &trigger{}
			tr := [2]*trigger{t, idle}
			if marsh {
				tr[0], tr[1] = idle, t
			}
			j.PropertyMarshaler = func(k string, v interface{}) (string, json.RawMessage, error) {
				return k, json.RawMessage("1"), tr[1].hit()
			}
			return j.Encode(src.g, hitWriter{tr[0]})
		}}
	case 10:
		return &anOp{name: "DOTRenderer", errs: true, run: func(t *trigger) error {
			d := lpg.DOTRenderer{
				NodeRenderer: func(id string, n *lpg.Node, o io.Writer) (bool, error) {
					if err := t.hit(); err != nil {
						return false, err
					}
					return true, lpg.DefaultDOTNodeRender(id, n, o)
				},
				EdgeRenderer: func(from, to string, e *lpg.Edge, o io.Writer) (bool, error) {
					if err := t.hit(); err != nil {
						return false, err
					}
					return true, lpg.DefaultDOTEdgeRender(from, to, e, o)
				},
			}
			return d.Render(src.g, "g", hitWriter{t})
		}}
	case 11:
		return &anOp{name: "visits", run: func(t *trigger) error {
			lpg.ForEachNode(src.g, func(n *lpg.Node) bool {
				t.hit()
				n.ForEachProperty(func(string, interface{}) bool { t.hit(); return true })
				for es := n.GetEdges(lpg.OutgoingEdge); es.Next(); {
					es.Edge().ForEachProperty(func(string, interface{}) bool { t.hit(); return true })
				}
				return true
			})
			return nil
		}}
	case 12:
		return &anOp{name: "CheckIsomorphism", run: func(t *trigger) error {
			_, err := lpg.CheckIsomorphism(context.Background(), src.g, src.g, func(a, b *lpg.Node) bool { t.hit(); return a == b }, func(a, b *lpg.Edge) bool { t.hit(); return a == b })
			return err
		}}
	}
	m := src.node(r)
	if m == nil {
		return nil
	}
	if r.P(1, 2) {
		return &anOp{name: "CollectAllPaths", run: func(t *trigger) error {
			lpg.CollectAllPaths(src.g, m.n, m.n.GetEdges(lpg.OutgoingEdge), func(*lpg.Edge) bool { t.hit(); return true }, lpg.OutgoingEdge, 1, 3, func(*lpg.Path) bool { t.hit(); return true })
			return nil
		}}
	}
	pat := lpg.Pattern{{}, {Min: 1, Max: 1 + r.N(2)}, {Name: "x"}}
	return &anOp{name: "pattern search", run: func(t *trigger) error {
		return pat.Run(src.g, nil, hitAccumulator{t})
	}}
}

func runC36(c *Case, st *Stats) error {
	ch := &Ch{v: c.Q}
	dom := domFromCh(ch, true)
	r := &Rnd{uint64(ch.U()) | uint64(ch.U())<<32}
	ws := [2]*World{newWorld(dom, st), newWorld(dom, st)}
	audit := func(after string, args ...interface{}) error {
		for i, w := range ws {
			err := w.auditAll(r, 2)
			if err == nil {
				err = w.auditC07()
			}
			if err != nil {
				return fmt.Errorf("%s, the %s graph: %w", fmt.Sprintf(after, args...), []string{"first", "second"}[i], err)
			}
		}
		return nil
	}
	interrupted := 0
	for i, o := range c.Ops {
		k := int(o.P[5] % 2)
		if i < len(c.Ops)/3 {
			k = 0
		}
		if st.logging {
			st.Logf("%s:", []string{"first", "second"}[k])
		}
		if err := ws[k].apply(o); err != nil {
			return err
		}
		if i < len(c.Ops)/4 || !r.P(1, 3) || len(ws[0].nodes)+len(ws[1].nodes) > 36 || len(ws[0].edges)+len(ws[1].edges) > 50 {
			continue
		}
		s := r.N(2)
		src, dst := ws[s], ws[1-s]
		op := pickOp(src, dst, r)
		if op == nil {
			continue
		}
		t := &trigger{act: []int{actNothing, actPanic, actPanic, actPanic, actExit, actError, actAdd, actAdd}[r.N(8)], val: &boom{i}}
		if t.act == actError && !op.errs {
			t.act = actPanic
		}
		t.at = 1 + r.N([]int{1, 4, 12, 30}[r.N(4)])
		t.add = func() {
			for n := 1 + r.N(3); n > 0; n-- {
				x := dst.node(r)
				alone := x != nil && r.P(1, 3)
				if !alone {
					ls, p := dst.pickLabels(r), dst.pickProps(r)
					x = dst.addMN(dst.g.NewNode(ls, p), toSet(ls), copyProps(p))
				}
				if alone || r.P(2, 3) {
					y := dst.nodes[r.N(len(dst.nodes))]
					l := dom.EdgeLabels[r.N(len(dom.EdgeLabels))]
					p := dst.pickProps(r)
					dst.addME(dst.g.NewEdge(x.n, y.n, l, p), x, y, l, copyProps(p))
				}
				if r.P(1, 6) {
					dst.declareIndex(r, dom.Keys[r.N(len(dom.Keys))], r.P(1, 2))
				}
			}
		}
		var err error
		val, done := guarded(func() { err = op.run(t) })
		where := fmt.Sprintf("%s, whose callback %s in call %d", op.name, actNames[t.act], t.at)
		if !t.fired {
			where = op.name
			t.act = actNothing
		}
		if st.logging {
			st.Logf("%s of the %s graph: %d calls, done %v, error %v", where, []string{"first", "second"}[s], t.calls, done, err)
		}
		switch t.act {
		case actPanic:
			if b, ok := val.(*boom); done || !ok || b != t.val {
				return fmt.Errorf("%s: came to its end %v, panic %v", where, done, val)
			}
		case actExit:
			if done || val != nil {
				return fmt.Errorf("%s: came to its end %v, panic %v", where, done, val)
			}
		case actError:
			if !done || !errors.Is(err, errInjected) && op.name != "Decode" || err == nil {
				return fmt.Errorf("%s: came to its end %v, panic %v, error %v", where, done, val, err)
			}
		default:
			if !done || err != nil {
				return fmt.Errorf("%s: came to its end %v, panic %v, error %v", where, done, val, err)
			}
		}
		whole := t.act == actNothing || t.act == actAdd
		n, err := dst.takeIn(op.nodes, op.edges, whole)
		if err != nil {
			return fmt.Errorf("%s: %w", where, err)
		}
		if err := audit("after %s", where); err != nil {
			return err
		}
		st.Inc(op.name, 1)
		if !whole {
			interrupted++
			st.Inc("interrupted by "+map[int]string{actPanic: "panics", actExit: "leaving the goroutine", actError: "errors"}[t.act], 1)
			if op.writes {
				st.Inc("writing operations interrupted", 1)
				if n > 0 {
					st.Inc("interrupted in the middle", 1)
				}
			}
		} else if t.act == actAdd {
			interrupted++
			st.Inc("callbacks that added objects", 1)
		}
	}
	if interrupted > 0 {
		st.Sig(hashCase(c))
		return audit("at the end")
	}
	return nil
}

func init() {
	register(&Check{ID: "C36", Quick: 24000, Thorough: 300000, Run: runC36,
		Gen: func(r *rand.Rand, idx int) *Case {
			return &Case{Idx: idx, Q: randQ(r, 8), Ops: genOps(r, 16+r.Intn(30), map[int]int{opSetNodeProp: 1, opSetEdgeProp: 1, opNewEdge: 3, opIndexNode: 1, opIndexEdge: 1}, 8+r.Intn(8))}
		},
		Required: []string{"interrupted by panics", "interrupted by leaving the goroutine", "interrupted by errors", "writing operations interrupted", "interrupted in the middle", "callbacks that added objects",
			"CopyGraph", "CopyGraphf", "CopySubgraph", "CopyNode", "CloneEdge", "Decode", "Encode", "DOTRenderer", "visits", "CheckIsomorphism", "CollectAllPaths", "pattern search"},
		Rule: "two graphs with random histories; in between, operations with callbacks, one call of which panics, leaves the goroutine, returns an error or adds objects to the target; what the operation added is compared with what it could add, and all views of both graphs are audited; non-trivial if a callback did one of these"})
}
