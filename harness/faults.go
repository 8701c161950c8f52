package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// C12: faults injected at every point of encoding, decoding and rendering.

var errInjected = errors.New("injected fault")

// budgetWriter accepts a number of bytes and then fails; if once, only the
// first time.
type budgetWriter struct {
	buf    bytes.Buffer
	left   int
	once   bool
	failed int
	writes int
	// failWrite, if positive, fails that call instead.
	failWrite int
}

func (b *budgetWriter) Write(p []byte) (int, error) {
	b.writes++
	if b.failWrite > 0 {
		if b.writes == b.failWrite || b.writes > b.failWrite && !b.once {
			b.failed++
			return 0, errInjected
		}
		b.buf.Write(p)
		return len(p), nil
	}
	if b.failed > 0 && b.once {
		b.buf.Write(p)
		return len(p), nil
	}
	if len(p) <= b.left {
		b.left -= len(p)
		b.buf.Write(p)
		return len(p), nil
	}
	n := b.left
	b.buf.Write(p[:n])
	b.left = 0
	b.failed++
	return n, errInjected
}

// failReader delivers some bytes and then an error of its own.
type failReader struct {
	b   []byte
	n   int // piece size
	err error
}

func (f *failReader) Read(p []byte) (int, error) {
	if len(f.b) == 0 {
		return 0, f.err
	}
	k := f.n
	if k > len(f.b) {
		k = len(f.b)
	}
	if k > len(p) {
		k = len(p)
	}
	copy(p, f.b[:k])
	f.b = f.b[k:]
	return k, nil
}

// writeFaults runs an operation against failing writers. ok judges the output
// of a run that reported success.
func writeFaults(st *Stats, ch *Ch, what string, run func(io.Writer) error, ok func([]byte) error) error {
	clean := &budgetWriter{left: math.MaxInt32}
	if err := run(clean); err != nil {
		return fmt.Errorf("%s: failed without a fault: %v", what, err)
	}
	if err := ok(clean.buf.Bytes()); err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	total := clean.buf.Len()
	one := func(b *budgetWriter, how string) error {
		err := run(b)
		if b.failed > 0 {
			st.Inc("write faults", 1)
			if err == nil {
				return fmt.Errorf("%s: success was reported although a write failed (%s)", what, how)
			}
			if !errors.Is(err, errInjected) {
				return fmt.Errorf("%s: the writer's error was replaced by %q (%s)", what, err, how)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("%s: error %v although no write failed (%s)", what, err, how)
		}
		if err := ok(b.buf.Bytes()); err != nil {
			return fmt.Errorf("%s: %w (%s)", what, err, how)
		}
		return nil
	}
	step := 1 + total/150
	for k := ch.N(step); k < total; k += step {
		if err := one(&budgetWriter{left: k}, fmt.Sprintf("only %d of %d bytes were accepted", k, total)); err != nil {
			return err
		}
	}
	// fail one write, or that and all following; output sizes vary with map
	// order, the number of writes does not have to
	step = 1 + clean.writes/100
	for k := 1 + ch.N(step); k <= clean.writes; k += step {
		for _, once := range []bool{true, false} {
			if err := one(&budgetWriter{failWrite: k, once: once}, fmt.Sprintf("write %d of %d failed, once=%v", k, clean.writes, once)); err != nil {
				return err
			}
		}
	}
	return nil
}

type badJSON struct{}

func (badJSON) MarshalJSON() ([]byte, error) { return nil, errInjected }

var unrepresentable = []interface{}{make(chan int), func() {}, math.NaN(), math.Inf(1), complex(1, 2), badJSON{},
	[]interface{}{1, make(chan int)}, map[string]interface{}{"x": math.NaN()}, map[bool]int{true: 1}}

func runC12(c *Case, st *Stats) error {
	ch := &Ch{v: c.Q}
	w := genJWorld(ch, st, true, 5, 7)
	j := lpg.JSON{MarshalEdgesSeparately: ch.P(1, 2)}
	if st.logging {
		st.Logf("%s separately=%v", modelJ(w, nil), j.MarshalEdgesSeparately)
	}
	want := modelJ(w, nil)
	okDoc := func(b []byte) error {
		got, err := readDoc(b, j.MarshalEdgesSeparately)
		if err != nil {
			return fmt.Errorf("success was reported, but the output is %s: %w", b, err)
		}
		return sameJ(got, want)
	}
	if err := writeFaults(st, ch, "Encode", func(o io.Writer) error { return j.Encode(w.g, o) }, okDoc); err != nil {
		return err
	}
	// marshaler errors
	nProps := 0
	for _, m := range w.nodes {
		nProps += len(m.props)
	}
	for _, m := range w.edges {
		nProps += len(m.props)
	}
	for k := 1; k <= nProps; k++ {
		calls, failed := 0, false
		jm := j
		jm.PropertyMarshaler = func(key string, v interface{}) (string, json.RawMessage, error) {
			calls++
			if calls == k {
				failed = true
				return []string{key, "", "other"}[ch.N(3)], []json.RawMessage{nil, json.RawMessage("1")}[ch.N(2)], errInjected
			}
			b, err := json.Marshal(v)
			return key, b, err
		}
		err := jm.Encode(w.g, io.Discard)
		if failed {
			st.Inc("marshaler faults", 1)
			if !errors.Is(err, errInjected) {
				return fmt.Errorf("Encode: the property marshaler failed at call %d of %d, Encode returned %v", k, nProps, err)
			}
		} else {
			return fmt.Errorf("Encode: the property marshaler was called %d times for %d properties", calls, nProps)
		}
	}
	// values JSON cannot represent
	bad := func(undo func(), what string, v interface{}) error {
		defer undo()
		var b bytes.Buffer
		err := j.Encode(w.g, &b)
		st.Inc("unrepresentable values", 1)
		if err == nil {
			return fmt.Errorf("Encode reported success although %s has a property of type %T that JSON cannot represent: %s", what, v, b.Bytes())
		}
		return nil
	}
	if len(w.nodes) > 0 {
		m := w.nodes[ch.N(len(w.nodes))]
		v := unrepresentable[ch.N(len(unrepresentable))]
		m.n.SetProperty("bad", v)
		if err := bad(func() { m.n.RemoveProperty("bad") }, m.name, v); err != nil {
			return err
		}
	}
	if len(w.edges) > 0 {
		m := w.edges[ch.N(len(w.edges))]
		v := unrepresentable[ch.N(len(unrepresentable))]
		m.e.SetProperty("bad", v)
		if err := bad(func() { m.e.RemoveProperty("bad") }, m.name, v); err != nil {
			return err
		}
	}
	if nProps > 0 {
		// a marshaler that returns something that is not JSON
		k := 1 + ch.N(nProps)
		calls := 0
		jm := j
		jm.PropertyMarshaler = func(key string, v interface{}) (string, json.RawMessage, error) {
			calls++
			if calls == k {
				return key, json.RawMessage("{"), nil
			}
			b, err := json.Marshal(v)
			return key, b, err
		}
		var b bytes.Buffer
		if err := jm.Encode(w.g, &b); err == nil {
			return fmt.Errorf("Encode reported success although the property marshaler returned bad JSON: %s", b.Bytes())
		}
		st.Inc("bad JSON from marshalers", 1)
	}
	// decoding
	r := &Rnd{uint64(ch.U()) | uint64(ch.U())<<32}
	d := &docWriter{r: r, ws: ch.P(1, 3), unknown: ch.P(1, 3)}
	mode := ch.N(3)
	doc := strings.TrimSpace(d.write(want, func(i int) bool { return mode == 0 || mode == 1 && i%2 == 0 }, -1))
	st.Logf("document: %s", doc)
	step := 1 + len(doc)/150
	for k := ch.N(step); k < len(doc); k += step {
		g := lpg.NewGraph()
		err := j.Decode(g, json.NewDecoder(&failReader{[]byte(doc[:k]), 1 + ch.N(64), errInjected}))
		if err == nil {
			return fmt.Errorf("Decode reported success although reading failed after %d of %d bytes of %s", k, len(doc), doc)
		}
		st.Inc("read faults", 1)
	}
	for k := 1; k <= nProps; k++ {
		calls, failed := 0, false
		ju := j
		ju.PropertyUnmarshaler = func(key string, raw json.RawMessage) (string, interface{}, error) {
			calls++
			if calls == k {
				failed = true
				return []string{key, "", "other"}[ch.N(3)], nil, errInjected
			}
			var v interface{}
			err := json.Unmarshal(raw, &v)
			return key, v, err
		}
		err := ju.Decode(lpg.NewGraph(), json.NewDecoder(strings.NewReader(doc)))
		if !failed {
			return fmt.Errorf("Decode: the property unmarshaler was called %d times for %d properties", calls, nProps)
		}
		if !errors.Is(err, errInjected) {
			return fmt.Errorf("Decode: the property unmarshaler failed at call %d of %d, Decode returned %v; document %s", k, nProps, err, doc)
		}
		st.Inc("unmarshaler faults", 1)
	}
	// rendering
	okDot := func(b []byte) error {
		p, err := parseDOT(string(b))
		if err != nil {
			return fmt.Errorf("success was reported, but the output is %q: %w", b, err)
		}
		if len(p.nodes) != len(w.nodes) || len(p.edges) != len(w.edges) {
			return fmt.Errorf("success was reported, but the output %q has %d nodes and %d edges, the graph %d and %d", b, len(p.nodes), len(p.edges), len(w.nodes), len(w.edges))
		}
		return nil
	}
	if err := writeFaults(st, ch, "Render", func(o io.Writer) error { return lpg.DOTRenderer{}.Render(w.g, "g", o) }, okDot); err != nil {
		return err
	}
	if err := writeFaults(st, ch, "RenderNodesEdges", func(o io.Writer) error { return lpg.DOTRenderer{}.RenderNodesEdges(w.g, o) },
		func(b []byte) error { return okDot([]byte("digraph g {\n" + string(b) + "}\n")) }); err != nil {
		return err
	}
	total := len(w.nodes) + len(w.edges)
	for k := 1; k <= total; k++ {
		calls := 0
		dr := lpg.DOTRenderer{
			NodeRenderer: func(id string, n *lpg.Node, o io.Writer) (bool, error) {
				if calls++; calls == k {
					return ch.P(1, 2), errInjected
				}
				return true, lpg.DefaultDOTNodeRender(id, n, o)
			},
			EdgeRenderer: func(a, b string, e *lpg.Edge, o io.Writer) (bool, error) {
				if calls++; calls == k {
					return ch.P(1, 2), errInjected
				}
				return true, lpg.DefaultDOTEdgeRender(a, b, e, o)
			},
		}
		err := dr.Render(w.g, "g", io.Discard)
		if !errors.Is(err, errInjected) {
			return fmt.Errorf("Render: a renderer failed at call %d of %d, Render returned %v", k, total, err)
		}
		st.Inc("renderer faults", 1)
	}
	if len(w.edges) > 0 {
		st.Sig(hashCase(c))
	}
	return nil
}

// ---- C13: DOT ----------------------------------------------------------------

type dotEdge struct {
	from, to, label string
}

type dotGraph struct {
	nodes map[string]int
	edges []dotEdge
	order []string
}

type dotLexer struct {
	s string
	i int
}

// next returns a token: an identifier (id=true) or punctuation; "" at the end.
func (l *dotLexer) next() (tok string, id bool, err error) {
	for {
		for l.i < len(l.s) && strings.IndexByte(" \t\r\n", l.s[l.i]) >= 0 {
			l.i++
		}
		rest := l.s[l.i:]
		if strings.HasPrefix(rest, "//") || strings.HasPrefix(rest, "#") && (l.i == 0 || l.s[l.i-1] == '\n') {
			k := strings.IndexByte(rest, '\n')
			if k < 0 {
				k = len(rest)
			}
			l.i += k
			continue
		}
		if strings.HasPrefix(rest, "/*") {
			k := strings.Index(rest, "*/")
			if k < 0 {
				return "", false, fmt.Errorf("comment without end")
			}
			l.i += k + 2
			continue
		}
		break
	}
	if l.i >= len(l.s) {
		return "", false, nil
	}
	c := l.s[l.i]
	isStart := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c >= 0x80
	}
	switch {
	case c == '"':
		var sb strings.Builder
		for l.i++; l.i < len(l.s); l.i++ {
			c := l.s[l.i]
			if c == '"' {
				l.i++
				return sb.String(), true, nil
			}
			if c == '\\' {
				if l.i+1 >= len(l.s) {
					break
				}
				l.i++
				switch l.s[l.i] {
				case 'n':
					sb.WriteByte('\n')
				case '\\', '"':
					sb.WriteByte(l.s[l.i])
				case '\n':
				case 'N', 'G', 'E', 'T', 'H', 'L':
					sb.WriteString("<replaced>")
				default:
					sb.WriteByte(l.s[l.i])
				}
				continue
			}
			sb.WriteByte(c)
		}
		return "", false, fmt.Errorf("string without end")
	case strings.HasPrefix(l.s[l.i:], "->"):
		l.i += 2
		return "->", false, nil
	case strings.IndexByte("{}[];,=:", c) >= 0:
		l.i++
		return string(c), false, nil
	case isStart(c):
		k := l.i
		for l.i < len(l.s) && (isStart(l.s[l.i]) || l.s[l.i] >= '0' && l.s[l.i] <= '9') {
			l.i++
		}
		return l.s[k:l.i], true, nil
	case c == '-' || c == '.' || c >= '0' && c <= '9':
		k := l.i
		for l.i < len(l.s) && strings.IndexByte("-.0123456789", l.s[l.i]) >= 0 {
			l.i++
		}
		return l.s[k:l.i], true, nil
	}
	return "", false, fmt.Errorf("unexpected character %q at %d", c, l.i)
}

// parseDOT reads a digraph: statements of nodes, edges, attributes.
func parseDOT(s string) (*dotGraph, error) {
	l := &dotLexer{s: s}
	g := &dotGraph{nodes: map[string]int{}}
	type token struct {
		t  string
		id bool
	}
	var toks []token
	for {
		t, id, err := l.next()
		if err != nil {
			return nil, err
		}
		if t == "" && !id {
			break
		}
		toks = append(toks, token{t, id})
	}
	i := 0
	peek := func() token {
		if i < len(toks) {
			return toks[i]
		}
		return token{}
	}
	expect := func(t string) error {
		if p := peek(); p.t != t || p.id {
			return fmt.Errorf("expected %q, found %q", t, p.t)
		}
		i++
		return nil
	}
	ident := func() (string, error) {
		p := peek()
		if !p.id {
			return "", fmt.Errorf("expected an identifier, found %q", p.t)
		}
		i++
		return p.t, nil
	}
	if p := peek(); p.t == "strict" {
		return nil, fmt.Errorf("a strict graph merges parallel edges")
	}
	if p, err := ident(); err != nil || p != "digraph" {
		return nil, fmt.Errorf("not a digraph")
	}
	if peek().id {
		i++
	}
	if err := expect("{"); err != nil {
		return nil, err
	}
	for peek().id || peek().t != "}" {
		if p := peek(); p.t == ";" && !p.id {
			i++
			continue
		}
		a, err := ident()
		if err != nil {
			return nil, err
		}
		if p := peek(); p.t == "=" && !p.id {
			i++
			if _, err := ident(); err != nil {
				return nil, err
			}
			continue
		}
		chain := []string{a}
		for peek().t == "->" && !peek().id {
			i++
			b, err := ident()
			if err != nil {
				return nil, err
			}
			chain = append(chain, b)
		}
		label := ""
		for peek().t == "[" && !peek().id {
			i++
			for peek().id {
				k, _ := ident()
				if err := expect("="); err != nil {
					return nil, err
				}
				v, err := ident()
				if err != nil {
					return nil, err
				}
				if k == "label" {
					label = v
				}
				if p := peek(); !p.id && (p.t == "," || p.t == ";") {
					i++
				}
			}
			if err := expect("]"); err != nil {
				return nil, err
			}
		}
		if len(chain) == 1 {
			if a != "node" && a != "edge" && a != "graph" {
				g.nodes[a]++
				g.order = append(g.order, a)
			}
		} else {
			for k := 1; k < len(chain); k++ {
				g.edges = append(g.edges, dotEdge{chain[k-1], chain[k], label})
			}
		}
	}
	if err := expect("}"); err != nil {
		return nil, err
	}
	if i != len(toks) {
		return nil, fmt.Errorf("text after the graph")
	}
	return g, nil
}

var dotLabels = []string{"", "a", "\"", "\\", "\\\"", "a\"b", "\"];", "x\\", "\\n", "\n", "\u00e9\u4e16", "->", "}", "a b", "[label=\"x\"]", "\\N", "//", "/*", "<b>", "\\\\", "#", "label", "'", "\"\"", "\t"}

func runC13(c *Case, st *Stats) error {
	ch := &Ch{v: c.Q}
	r := &Rnd{uint64(ch.U()) | uint64(ch.U())<<32}
	d := &Dom{MaxNodes: 99, MaxEdges: 99, Labels: []string{"A", "\"", "B"}, Keys: []string{"i0"}}
	for i := 0; i < 4; i++ {
		s := dotLabels[r.N(len(dotLabels))]
		if r.P(1, 3) {
			s += dotLabels[r.N(len(dotLabels))]
		}
		d.EdgeLabels = append(d.EdgeLabels, s)
	}
	w := newWorld(d, st)
	n := ch.N(9)
	if ch.P(1, 10) {
		n = 10 + ch.N(20)
	}
	big := ch.P(1, 200)
	if big {
		n = 250 + r.N(400)
		d.MaxNodes, d.MaxEdges = 999, 2999
		st.Inc("large graphs", 1)
	}
	for i := 0; i < n; i++ {
		ls := w.pickLabels(r)
		w.addMN(w.g.NewNode(ls, nil), toSet(ls), map[string]interface{}{})
	}
	if n > 0 {
		for k := ch.N(2*n + 1); k > 0; k-- {
			a, b := w.nodes[r.N(n)], w.nodes[r.N(n)]
			l := d.EdgeLabels[r.N(4)]
			w.addME(w.g.NewEdge(a.n, b.n, l, nil), a, b, l, map[string]interface{}{})
		}
		if n > 2 && ch.P(1, 3) {
			m := w.node(r)
			m.n.DetachAndRemove()
			for _, e := range w.incident(m) {
				w.dropEdge(e)
			}
			w.dropNode(m)
		}
		if len(w.edges) > 0 && ch.P(1, 3) {
			m := w.edge(r)
			m.e.SetLabel(d.EdgeLabels[0])
			m.label = d.EdgeLabels[0]
		}
	}
	if st.logging {
		st.Logf("%s", w.describe())
	}
	// how the renderer is set up
	mode := ch.N(4)
	if big && mode == 0 {
		mode = 1
	}
	skip := map[*MN]bool{}
	if mode >= 2 {
		for _, m := range w.nodes {
			skip[m] = r.P(1, 4)
		}
	}
	byN, byE := map[*lpg.Node]*MN{}, map[*lpg.Edge]*ME{}
	for _, m := range w.nodes {
		byN[m.n] = m
	}
	for _, m := range w.edges {
		byE[m.e] = m
	}
	ids := map[*MN]string{}
	offN, offE := map[*MN]int{}, map[*ME]int{}
	var bad error
	fail := func(f string, a ...interface{}) {
		if bad == nil {
			bad = fmt.Errorf(f, a...)
		}
	}
	dr := lpg.DOTRenderer{}
	var sink io.Writer
	if mode >= 1 {
		dr.NodeRenderer = func(id string, n *lpg.Node, o io.Writer) (bool, error) {
			m := byN[n]
			if m == nil {
				fail("a node that is not in the graph was offered")
				return false, nil
			}
			if o != sink {
				fail("the node renderer was given another writer")
			}
			offN[m]++
			if skip[m] {
				return false, nil
			}
			ids[m] = id
			if mode == 3 {
				_, err := fmt.Fprintf(o, "%s [shape=box, label=%s];\n", id, quoteDOT(m.name))
				return true, err
			}
			return true, lpg.DefaultDOTNodeRender(id, n, o)
		}
	}
	hide := map[*ME]bool{}
	if mode >= 2 {
		dr.EdgeRenderer = func(a, b string, e *lpg.Edge, o io.Writer) (bool, error) {
			m := byE[e]
			if m == nil {
				fail("an edge that is not in the graph was offered")
				return false, nil
			}
			if o != sink {
				fail("the edge renderer was given another writer")
			}
			offE[m]++
			if skip[m.from] || skip[m.to] {
				fail("edge %s was offered although an endpoint was not rendered", m.name)
			} else if ids[m.from] != a || ids[m.to] != b || a == "" || b == "" {
				fail("edge %s was offered with identifiers %q, %q; its endpoints were rendered as %q, %q", m.name, a, b, ids[m.from], ids[m.to])
			}
			if m.id%3 == 0 {
				hide[m] = true
				return false, nil
			}
			return true, lpg.DefaultDOTEdgeRender(a, b, e, o)
		}
	}
	var buf bytes.Buffer
	sink = &buf
	var err error
	text := ""
	if ch.P(1, 3) {
		err = dr.RenderNodesEdges(w.g, &buf)
		text = "digraph x {\n" + buf.String() + "}\n"
	} else {
		err = dr.Render(w.g, "Name_1", &buf)
		text = buf.String()
	}
	if err != nil {
		return fmt.Errorf("unexpected error %v", err)
	}
	if bad != nil {
		return bad
	}
	st.Logf("mode %d: %s", mode, text)
	if mode >= 1 {
		for _, m := range w.nodes {
			if offN[m] != 1 {
				return fmt.Errorf("node %s was offered to the node renderer %d times", m.name, offN[m])
			}
		}
		st.Inc("nodes offered to renderers", len(w.nodes))
	}
	if mode >= 2 {
		for _, m := range w.edges {
			x := 1
			if skip[m.from] || skip[m.to] {
				x = 0
			}
			if offE[m] != x {
				return fmt.Errorf("edge %s was offered to the edge renderer %d times, expected %d", m.name, offE[m], x)
			}
		}
		st.Inc("edges offered to renderers", len(w.edges))
	}
	g, err := parseDOT(text)
	if err != nil {
		return fmt.Errorf("the output %q is not a digraph: %w", text, err)
	}
	rendered := 0
	for _, m := range w.nodes {
		if !skip[m] {
			rendered++
		}
	}
	if len(g.nodes) != rendered {
		return fmt.Errorf("the output %q declares %d nodes, the graph has %d to render", text, len(g.nodes), rendered)
	}
	for id, k := range g.nodes {
		if k != 1 {
			return fmt.Errorf("the output %q declares node %s %d times", text, id, k)
		}
	}
	// the edges, with the identifiers of their nodes
	var want []dotEdge
	for _, m := range w.edges {
		if !skip[m.from] && !skip[m.to] && !hide[m] {
			want = append(want, dotEdge{ids[m.from], ids[m.to], m.label})
		}
	}
	if len(want) != len(g.edges) {
		return fmt.Errorf("the output %q has %d edges, expected %d", text, len(g.edges), len(want))
	}
	if mode >= 1 {
		cnt := map[dotEdge]int{}
		for _, e := range want {
			cnt[e]++
		}
		for _, e := range g.edges {
			if cnt[e]--; cnt[e] < 0 {
				return fmt.Errorf("the output %q has an edge %s -> %s with label %q too many; expected %q", text, e.from, e.to, e.label, want)
			}
		}
	} else {
		if err := sameDot(w, g); err != nil {
			return fmt.Errorf("the output %q: %w", text, err)
		}
	}
	st.Inc("graphs parsed back", 1)
	st.Inc("edges parsed back", len(g.edges))
	for _, e := range g.edges {
		if strings.ContainsAny(e.label, "\"\\\n") {
			st.Inc("labels with quotes, backslashes or newlines", 1)
		}
	}
	if len(g.edges) > 0 {
		st.Sig(hashCase(c))
	}
	return nil
}

func quoteDOT(s string) string {
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
}

// sameDot compares up to the naming of the nodes.
func sameDot(w *World, g *dotGraph) error {
	cls := map[string]int{}
	c := func(s string) int {
		if x, ok := cls[s]; ok {
			return x
		}
		cls[s] = len(cls)
		return cls[s]
	}
	var a, b igraph
	idx := map[*MN]int{}
	for i, m := range w.nodes {
		idx[m] = i
		a.n = append(a.n, 0)
	}
	for _, m := range w.edges {
		a.e = append(a.e, [3]int{idx[m.from], idx[m.to], c(m.label)})
	}
	id := map[string]int{}
	for _, s := range g.order {
		if _, ok := id[s]; !ok {
			id[s] = len(b.n)
			b.n = append(b.n, 0)
		}
	}
	for _, e := range g.edges {
		f, ok1 := id[e.from]
		t, ok2 := id[e.to]
		if !ok1 || !ok2 {
			return fmt.Errorf("edge %s -> %s between undeclared nodes", e.from, e.to)
		}
		b.e = append(b.e, [3]int{f, t, c(e.label)})
	}
	// necessary in any case: labels, degrees by label
	sig := func(g igraph) map[string]int {
		deg := make([]map[string]int, len(g.n))
		for i := range deg {
			deg[i] = map[string]int{}
		}
		for _, e := range g.e {
			deg[e[0]][fmt.Sprint("o", e[2])]++
			deg[e[1]][fmt.Sprint("i", e[2])]++
			if e[0] == e[1] {
				deg[e[0]][fmt.Sprint("l", e[2])]++
			}
		}
		r := map[string]int{}
		for _, d := range deg {
			r[fmt.Sprint(d)]++ // maps print sorted
		}
		return r
	}
	if x, y := fmt.Sprint(sig(a)), fmt.Sprint(sig(b)); x != y {
		return fmt.Errorf("labels and degrees differ: %s, expected %s", y, x)
	}
	if len(a.n) <= 6 && !refIso(a, b) {
		return fmt.Errorf("not the same graph")
	}
	return nil
}

func init() {
	register(&Check{ID: "C12", Quick: 24000, Thorough: 300000, Run: runC12,
		Gen:      func(r *rand.Rand, idx int) *Case { return &Case{Idx: idx, Q: randQ(r, 80)} },
		Required: []string{"write faults", "marshaler faults", "unrepresentable values", "bad JSON from marshalers", "read faults", "unmarshaler faults", "renderer faults"},
		Rule:     "for random small graphs: encoding and rendering against writers that fail after any number of bytes, or at any one write, transiently or for good; property (un)marshalers, node and edge renderers failing at every call; values JSON cannot represent; readers failing after any number of bytes; non-trivial if the graph has edges"})
	register(&Check{ID: "C13", Quick: 960000, Thorough: 4000000, Run: runC13,
		Gen:      func(r *rand.Rand, idx int) *Case { return &Case{Idx: idx, Q: randQ(r, 30)} },
		Required: []string{"graphs parsed back", "edges parsed back", "labels with quotes, backslashes or newlines", "large graphs", "nodes offered to renderers", "edges offered to renderers"},
		Rule:     "random graphs whose edge labels contain DOT syntax, rendered by default and by custom node and edge renderers that skip some; the output is parsed by the harness's own DOT reader and compared with the graph; non-trivial if edges were rendered"})
}
