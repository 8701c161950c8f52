package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/cloudprivacylabs/lpg/v2"
)

// ---- values ---------------------------------------------------------------

// Native wraps a native value, as users of WithNativeValue do.
type Native struct{ V interface{} }

func (n Native) GetNativeValue() interface{} { return n.V }

type opaque struct{ X int }

// shifty is a value whose text is never the same twice, as that of a node with
// changing properties.
type shifty struct{ X int }

var shiftyCount atomic.Int64

func (s *shifty) String() string { return fmt.Sprintf("%d#%d", s.X, shiftyCount.Add(1)) }

var shifties = []*shifty{{0}, {1}, {2}}

// unhashable returns a value that cannot be compared, nor be a map key.
func unhashable(r *Rnd) interface{} {
	switch r.N(6) {
	case 0:
		return map[string]int{"k": r.N(3)}
	case 1:
		return []float64{1, 2}
	case 2:
		return func() {}
	case 3:
		return struct{ L []int }{[]int{1}}
	case 4:
		return []interface{}{r.N(3), map[string]int{}}
	}
	return Native{[]bool{true}}
}

// refNorm reduces a comparable value to int, string or []interface{} of such;
// ok is false for anything that cannot be compared. elem is 'i' or 's' for the
// typed lists.
func refNorm(v interface{}) (interface{}, byte, bool) {
	switch x := v.(type) {
	case Native:
		return refNorm(x.V)
	case *Counted:
		return refNorm(x.V)
	case int:
		return x, 'I', true
	case string:
		return x, 'S', true
	case []int:
		r := make([]interface{}, len(x))
		for i := range x {
			r[i] = x[i]
		}
		return r, 'i', true
	case []string:
		r := make([]interface{}, len(x))
		for i := range x {
			r[i] = x[i]
		}
		return r, 's', true
	case []interface{}:
		r := make([]interface{}, len(x))
		for i := range x {
			n, _, ok := refNorm(x[i])
			if !ok {
				return nil, 0, false
			}
			r[i] = n
		}
		return r, 'l', true
	}
	return nil, 0, false
}

func cmpNorm(a, b interface{}) (int, bool) {
	switch x := a.(type) {
	case int:
		y, ok := b.(int)
		if !ok {
			return 0, false
		}
		switch {
		case x < y:
			return -1, true
		case x > y:
			return 1, true
		}
		return 0, true
	case string:
		y, ok := b.(string)
		if !ok {
			return 0, false
		}
		return strings.Compare(x, y), true
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok {
			return 0, false
		}
		for i := 0; i < len(x) && i < len(y); i++ {
			c, ok := cmpNorm(x[i], y[i])
			if !ok {
				return 0, false
			}
			if c != 0 {
				return c, true
			}
		}
		switch {
		case len(x) < len(y):
			return -1, true
		case len(x) > len(y):
			return 1, true
		}
		return 0, true
	}
	return 0, false
}

// refCompare is the reference order; ok is false for incomparable values.
func refCompare(a, b interface{}) (int, bool) {
	x, _, ok1 := refNorm(a)
	y, _, ok2 := refNorm(b)
	if !ok1 || !ok2 {
		return 0, false
	}
	return cmpNorm(x, y)
}

func refEq(a, b interface{}) bool {
	c, ok := refCompare(a, b)
	return ok && c == 0
}

// ---- pseudo-random stream of one operation --------------------------------

type Rnd struct{ s uint64 }

func opRnd(o Op) *Rnd {
	s := uint64(o.K)
	for _, p := range o.P {
		s = s*0x100000001b3 ^ uint64(p)
	}
	return &Rnd{s}
}

func (r *Rnd) U() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rnd) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U() % uint64(n))
}

func (r *Rnd) P(num, den int) bool { return r.N(den) < num }

// ---- domain of one world --------------------------------------------------

// Dom is the domain histories draw from. Keys are named by family: the first
// letter fixes what values they hold (see genValue).
type Dom struct {
	Labels     []string
	EdgeLabels []string
	Keys       []string
	Wide       int // number of distinct ints/strings; 0 is small
	MaxNodes   int
	MaxEdges   int
	Index      bool // histories may declare indexes
	Hub        bool // some nodes have very many edges
	Fat        bool // many labels and keys; objects may have most of them
}

var allLabels = []string{"A", "B", "C", "", "a b", "\u00e9\u4e16", "x\"y\\", "D:E", "\n"}

// longLen is one of a few lengths, so that long values are often equal, or
// begin alike.
func longLen(r *Rnd) int {
	return []int{5, 8, 9, 17, 33, 65, 66, 130}[r.N(8)] + r.N(2)
}

// longInts gives lists that are alike except for one of their elements.
func longInts(r *Rnd) []int {
	l := make([]int, longLen(r))
	for i := range l {
		l[i] = i % 3
	}
	if r.P(2, 3) {
		i := len(l) - 1
		if r.P(1, 3) {
			i = r.N(len(l))
		}
		l[i] = r.N(3)
	}
	return l
}

// longStr gives strings that are alike except for one of their bytes.
func longStr(r *Rnd) string {
	var b []byte
	for _, x := range longInts(r) {
		b = append(b, "abz"[x])
	}
	return string(b)
}

func anyList[T any](l []T) []interface{} {
	ret := make([]interface{}, len(l))
	for i := range l {
		ret[i] = l[i]
	}
	return ret
}

func genValue(r *Rnd, key string, wide int) interface{} {
	smallInt := func() int {
		if wide > 0 {
			return r.N(wide)
		}
		return r.N(6) - 2
	}
	if key[0] == 'h' {
		// whatever can be a map key or a list of such: a hash index holds it
		switch r.N(11) {
		case 9:
			return []interface{}{math.NaN(), math.Float64frombits(0x7ff8000000000002), [1]float64{math.NaN()}, float32(math.NaN())}[r.N(4)]
		case 10:
			return []interface{}{shifties[r.N(3)], r.N(2)}
		case 0, 1:
			return nil
		case 2:
			return 3.5
		case 3:
			return r.P(1, 2)
		case 4:
			return opaque{r.N(3)}
		case 5:
			return []interface{}{r.N(2), "x", []int{1}}
		case 6:
			return []int{r.N(3)}
		case 7:
			return Native{r.N(3)}
		}
		return []interface{}{r.N(3), "a", "", "1"}[r.N(4)]
	}
	strs := []string{"", "a", "b", "A", "aa", "\u00e4", "a\x00", "10", "2"}
	smallStr := func() string {
		if r.P(1, 24) {
			return longStr(r)
		}
		if wide > 0 {
			return fmt.Sprintf("s%d", r.N(wide))
		}
		return strs[r.N(len(strs))]
	}
	wrap := func(v interface{}) interface{} {
		switch r.N(4) {
		case 0:
			return Native{v}
		case 1:
			if r.P(1, 4) {
				return Native{Native{v}}
			}
			return Native{v}
		}
		return v
	}
	switch key[0] {
	case 'i':
		return smallInt()
	case 's':
		return smallStr()
	case 'n':
		return wrap(smallInt())
	case 'm':
		return wrap(smallStr())
	case 'l':
		n := r.N(4)
		if r.P(1, 12) {
			l := longInts(r)
			if r.P(1, 2) {
				return l
			}
			return anyList(l)
		}
		if r.P(1, 2) {
			l := make([]int, n)
			for i := range l {
				l[i] = r.N(3)
			}
			return l
		}
		l := make([]interface{}, n)
		for i := range l {
			l[i] = r.N(3)
		}
		return l
	case 't':
		n := r.N(4)
		ss := []string{"", "a", "b"}
		if r.P(1, 12) {
			var l []string
			for _, x := range longInts(r) {
				l = append(l, ss[x])
			}
			if r.P(1, 2) {
				return l
			}
			return anyList(l)
		}
		if r.P(1, 2) {
			l := make([]string, n)
			for i := range l {
				l[i] = ss[r.N(3)]
			}
			return l
		}
		l := make([]interface{}, n)
		for i := range l {
			l[i] = ss[r.N(3)]
		}
		return l
	case 'a':
		switch r.N(11) {
		case 0:
			return nil
		case 1:
			return 3.5
		case 2:
			return true
		case 3:
			return opaque{r.N(3)}
		case 4:
			if r.P(1, 2) {
				return unhashable(r)
			}
			return map[string]int{"k": r.N(3)}
		case 5:
			return []interface{}{r.N(2), "x", []int{1}}
		case 6:
			return []int{r.N(3)}
		case 7:
			return []string{"a"}
		case 8:
			return Native{r.N(3)}
		case 9:
			return smallStr()
		}
		return smallInt()
	}
	panic(harnessBug{"key family of " + key})
}

// genQueryValue makes a value to search for: mostly of the key's family, at
// times of another one.
func genQueryValue(r *Rnd, key string, wide int) interface{} {
	if key[0] == 'a' || key[0] == 'h' {
		switch r.N(7) {
		case 5:
			return unhashable(r)
		case 6:
			return []interface{}{nil, math.NaN(), true, opaque{r.N(3)}, 3.5}[r.N(5)]
		case 0:
			return r.N(6) - 2
		case 1:
			return []int{r.N(3)}
		case 2:
			return []string{"a"}
		case 3:
			return Native{r.N(3)}
		}
		return []string{"", "a", "b"}[r.N(3)]
	}
	if r.P(1, 8) {
		switch r.N(8) {
		case 6:
			return unhashable(r)
		case 7:
			return []interface{}{nil, math.NaN(), true, opaque{r.N(3)}, 3.5}[r.N(5)]
		case 0:
			return r.N(6) - 2
		case 1:
			return "a"
		case 2:
			return []int{1}
		case 3:
			return []string{"a"}
		case 4:
			return []interface{}{1, "a"}
		}
		return Native{"a"}
	}
	if wide > 0 && r.P(1, 10) {
		wide += 20 // absent values
	}
	return genValue(r, key, wide)
}

// ---- model ----------------------------------------------------------------

type MN struct {
	n      *lpg.Node
	id     int
	name   string
	labels map[string]bool
	props  map[string]interface{}
}

type ME struct {
	e        *lpg.Edge
	id       int
	name     string
	from, to *MN
	label    string
	props    map[string]interface{}
}

type World struct {
	g       *lpg.Graph
	dom     *Dom
	st      *Stats
	nodes   []*MN
	edges   []*ME
	nodeIDs map[int]*MN // every node ever in g
	edgeIDs map[int]*ME
	everN   []*MN
	everE   []*ME
	idErr   error
	idxN    map[string]lpg.IndexType
	idxE    map[string]lpg.IndexType
	serial  int
	fg      *World // another graph, for refused calls
	// removedN and removedE are what the last operation removed.
	removedN []*MN
	removedE []*ME
	// goneN and goneE are the objects ever removed.
	goneN    []*MN
	goneE    []*ME
	changed  bool
	lastOp   string
	refused  int
	searches int
	// callerSets and callerMaps are what was passed in; C26 compares them.
	track   bool
	callers []callerData
	got     []gotSet
}

type callerData struct {
	m    map[string]interface{}
	copy map[string]interface{}
	set  lpg.StringSet
	want []string
	what string
}

type gotSet struct {
	set  lpg.StringSet
	want []string
	what string
}

func newWorld(dom *Dom, st *Stats) *World {
	return &World{g: lpg.NewGraph(), dom: dom, st: st, nodeIDs: map[int]*MN{}, edgeIDs: map[int]*ME{},
		idxN: map[string]lpg.IndexType{}, idxE: map[string]lpg.IndexType{}}
}

func (w *World) logf(f string, a ...interface{}) {
	if w.st.logging {
		w.st.Logf(f, a...)
	}
}

func (w *World) node(r *Rnd) *MN {
	n := len(w.nodes)
	if n == 0 {
		return nil
	}
	switch r.N(8) {
	case 0, 1:
		return w.nodes[n-1]
	case 2:
		return w.nodes[0]
	}
	return w.nodes[r.N(n)]
}

func (w *World) edge(r *Rnd) *ME {
	n := len(w.edges)
	if n == 0 {
		return nil
	}
	switch r.N(8) {
	case 0:
		return w.edges[n-1]
	case 1:
		return w.edges[0]
	}
	return w.edges[r.N(n)]
}

func (w *World) pickLabels(r *Rnd) []string {
	n := []int{0, 0, 1, 1, 1, 2, 2, 3}[r.N(8)]
	if n > len(w.dom.Labels) {
		n = len(w.dom.Labels)
	}
	out := []string{}
	if w.dom.Fat && r.P(1, 3) {
		for _, l := range w.dom.Labels {
			if r.P(4, 5) {
				out = append(out, l)
			}
		}
		return out
	}
	for i := 0; i < n; i++ {
		out = append(out, w.dom.Labels[r.N(len(w.dom.Labels))])
	}
	return out
}

func (w *World) pickProps(r *Rnd) map[string]interface{} {
	if len(w.dom.Keys) == 0 {
		return nil
	}
	n := []int{0, 0, 1, 1, 2, 3}[r.N(6)]
	if n == 0 {
		if r.P(1, 2) {
			return nil
		}
		return map[string]interface{}{}
	}
	m := map[string]interface{}{}
	if w.dom.Fat && r.P(1, 2) {
		for _, k := range w.dom.Keys {
			if r.P(4, 5) {
				m[k] = genValue(r, k, w.dom.Wide)
			}
		}
		return m
	}
	for i := 0; i < n; i++ {
		k := w.dom.Keys[r.N(len(w.dom.Keys))]
		m[k] = genValue(r, k, w.dom.Wide)
	}
	return m
}

func toSet(s []string) map[string]bool {
	m := map[string]bool{}
	for _, x := range s {
		m[x] = true
	}
	return m
}

func copyProps(m map[string]interface{}) map[string]interface{} {
	r := make(map[string]interface{}, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func setKeys(m map[string]bool) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func propKeys(m map[string]interface{}) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func fmtVal(v interface{}) string {
	switch x := v.(type) {
	case *shifty:
		return fmt.Sprintf("shifty%d", x.X)
	case []interface{}:
		var sb strings.Builder
		for i, e := range x {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(fmtVal(e))
		}
		return "[" + sb.String() + "]"
	case nil:
		return "nil"
	case Native:
		return "native(" + fmtVal(x.V) + ")"
	case *Counted:
		return "native(" + fmtVal(x.V) + ")"
	case string:
		return fmt.Sprintf("%q", x)
	case int:
		return fmt.Sprint(x)
	}
	return fmt.Sprintf("%T%v", v, v)
}

func fmtProps(m map[string]interface{}) string {
	var sb strings.Builder
	sb.WriteByte('{')
	for i, k := range propKeys(m) {
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(k + ":" + fmtVal(m[k]))
	}
	sb.WriteByte('}')
	return sb.String()
}

func (w *World) addMN(n *lpg.Node, labels map[string]bool, props map[string]interface{}) *MN {
	w.serial++
	m := &MN{n: n, id: n.GetID(), name: fmt.Sprintf("n%d", w.serial), labels: labels, props: props}
	if old := w.nodeIDs[m.id]; old != nil && w.idErr == nil {
		w.idErr = fmt.Errorf("nodes %s and %s were both given id %d", old.name, m.name, m.id)
	}
	w.nodeIDs[m.id] = m
	w.everN = append(w.everN, m)
	w.nodes = append(w.nodes, m)
	return m
}

func (w *World) addME(e *lpg.Edge, from, to *MN, label string, props map[string]interface{}) *ME {
	w.serial++
	m := &ME{e: e, id: e.GetID(), name: fmt.Sprintf("e%d", w.serial), from: from, to: to, label: label, props: props}
	if old := w.edgeIDs[m.id]; old != nil && w.idErr == nil {
		w.idErr = fmt.Errorf("edges %s and %s were both given id %d", old.name, m.name, m.id)
	}
	w.edgeIDs[m.id] = m
	w.everE = append(w.everE, m)
	w.edges = append(w.edges, m)
	return m
}

func (w *World) dropEdge(m *ME) {
	for i, x := range w.edges {
		if x == m {
			w.edges = append(w.edges[:i:i], w.edges[i+1:]...)
			w.removedE = append(w.removedE, m)
			w.goneE = append(w.goneE, m)
			return
		}
	}
	panic(harnessBug{"dropEdge"})
}

func (w *World) dropNode(m *MN) {
	for i, x := range w.nodes {
		if x == m {
			w.nodes = append(w.nodes[:i:i], w.nodes[i+1:]...)
			w.removedN = append(w.removedN, m)
			w.goneN = append(w.goneN, m)
			return
		}
	}
	panic(harnessBug{"dropNode"})
}

func (w *World) incident(m *MN) []*ME {
	var r []*ME
	for _, e := range w.edges {
		if e.from == m || e.to == m {
			r = append(r, e)
		}
	}
	return r
}

// ---- operations -----------------------------------------------------------

const (
	opNewNode = iota
	opFastNewNode
	opNewEdge
	opFastNewEdge
	opSetLabels
	opSetNodeProp
	opRemoveNodeProp
	opSetEdgeLabel
	opSetEdgeProp
	opRemoveEdgeProp
	opRemoveEdge
	opDetach
	opRemoveNode
	opIndexNode
	opIndexEdge
	opForeign
	opCopyNode
	opCloneEdge
	opCopySub
	opSelfLoop
	opParallel
	opStale
	nOps
)

var opNames = []string{"NewNode", "FastNewNode", "NewEdge", "FastNewEdge", "SetLabels", "SetNodeProperty", "RemoveNodeProperty",
	"SetEdgeLabel", "SetEdgeProperty", "RemoveEdgeProperty", "Edge.Remove", "Detach", "DetachAndRemove", "IndexNode", "IndexEdge",
	"ForeignEdge", "CopyNode", "CloneEdge", "CopySubgraph", "SelfLoop", "ParallelEdge", "Removed"}

func panics(f func()) (msg string, did bool) {
	defer func() {
		if r := recover(); r != nil {
			did = true
			msg = fmt.Sprint(r)
		}
	}()
	f()
	return
}

func ident(_ string, v interface{}) interface{} { return v }

// apply performs one operation on the real graph and on the model.
func (w *World) apply(o Op) error {
	r := opRnd(o)
	w.removedN, w.removedE, w.changed = nil, nil, false
	kind := int(o.K) % nOps
	done := func(f string, a ...interface{}) {
		w.changed = true
		w.st.Inc("op:"+opNames[kind], 1)
		if w.st.logging {
			w.lastOp = fmt.Sprintf(f, a...)
			w.st.Logf("%s", w.lastOp)
		}
	}
	switch kind {
	case opNewNode, opFastNewNode:
		if len(w.nodes) >= w.dom.MaxNodes {
			return nil
		}
		labels, props := w.pickLabels(r), w.pickProps(r)
		var n *lpg.Node
		model := copyProps(props)
		reused := false
		if kind == opNewNode {
			if w.track && len(w.callers) > 0 && r.P(1, 3) {
				// created from the very map another object was created from
				c := w.callers[r.N(len(w.callers))]
				if c.m != nil {
					props, model, reused = c.m, copyProps(c.copy), true
				}
			}
			n = w.g.NewNode(labels, props)
			if w.track && props != nil && !reused {
				w.callers = append(w.callers, callerData{m: props, copy: copyProps(model), what: "the map given to " + fmt.Sprintf("n%d", w.serial+1)})
			}
		} else {
			set := lpg.NewStringSet(labels...)
			if w.track && len(w.callers) > 0 && r.P(1, 3) {
				c := w.callers[r.N(len(w.callers))]
				if c.set.M != nil {
					set, labels = c.set, c.want
				}
			}
			n = w.g.FastNewNode(set, props)
			if w.track {
				w.callers = append(w.callers, callerData{set: set, want: setKeys(toSet(labels)), what: "the label set given to " + fmt.Sprintf("n%d", w.serial+1)})
			}
		}
		m := w.addMN(n, toSet(labels), model)
		done("%s=%s(%q,%s)", m.name, opNames[kind], setKeys(m.labels), fmtProps(model))
	case opNewEdge, opFastNewEdge, opSelfLoop, opParallel:
		if len(w.nodes) == 0 || len(w.edges) >= w.dom.MaxEdges {
			return nil
		}
		from, to := w.node(r), w.node(r)
		if w.dom.Hub && r.P(1, 2) {
			if r.P(1, 2) {
				from = w.nodes[0]
			} else {
				to = w.nodes[0]
			}
		}
		label := w.dom.EdgeLabels[r.N(len(w.dom.EdgeLabels))]
		if kind == opSelfLoop {
			to = from
		}
		if kind == opParallel {
			x := w.edge(r)
			if x == nil {
				return nil
			}
			from, to = x.from, x.to
			if r.P(1, 2) {
				label = x.label
			}
			if r.P(1, 3) {
				from, to = to, from
			}
		}
		props := w.pickProps(r)
		model := copyProps(props)
		var e *lpg.Edge
		if kind == opFastNewEdge {
			e = w.g.FastNewEdge(from.n, to.n, label, props)
		} else {
			reused := false
			if w.track && len(w.callers) > 0 && r.P(1, 3) {
				c := w.callers[r.N(len(w.callers))]
				if c.m != nil {
					props, model, reused = c.m, copyProps(c.copy), true
				}
			}
			e = w.g.NewEdge(from.n, to.n, label, props)
			if w.track && props != nil && !reused {
				w.callers = append(w.callers, callerData{m: props, copy: copyProps(model), what: "the map given to " + fmt.Sprintf("e%d", w.serial+1)})
			}
		}
		m := w.addME(e, from, to, label, model)
		done("%s=%s(%s,%s,%q,%s)", m.name, opNames[kind], from.name, to.name, label, fmtProps(model))
	case opSetLabels:
		m := w.node(r)
		if m == nil {
			return nil
		}
		var labels []string
		switch r.N(4) {
		case 0, 1:
			labels = w.pickLabels(r)
		case 2: // add one to the labels read back
			s := m.n.GetLabels()
			l := w.dom.Labels[r.N(len(w.dom.Labels))]
			s.Add(l)
			labels = append(setKeys(m.labels), l)
			m.n.SetLabels(s)
			m.labels = toSet(labels)
			done("%s.SetLabels(its labels + %q)", m.name, l)
			return nil
		case 3: // remove one from the labels read back
			s := m.n.GetLabels()
			ks := setKeys(m.labels)
			if len(ks) == 0 {
				return nil
			}
			l := ks[r.N(len(ks))]
			s.Remove(l)
			m.n.SetLabels(s)
			delete(m.labels, l)
			done("%s.SetLabels(its labels - %q)", m.name, l)
			return nil
		}
		set := lpg.NewStringSet(labels...)
		if w.track && len(w.callers) > 0 && r.P(1, 3) {
			c := w.callers[r.N(len(w.callers))]
			if c.set.M != nil {
				set, labels = c.set, c.want
			}
		}
		if len(labels) == 0 && r.P(1, 2) {
			set = lpg.StringSet{}
		}
		m.n.SetLabels(set)
		if w.track {
			w.callers = append(w.callers, callerData{set: set, want: setKeys(toSet(labels)), what: "the label set given to " + m.name})
		}
		m.labels = toSet(labels)
		done("%s.SetLabels(%q)", m.name, setKeys(m.labels))
	case opSetNodeProp:
		m := w.node(r)
		if m == nil || len(w.dom.Keys) == 0 {
			return nil
		}
		k := w.dom.Keys[r.N(len(w.dom.Keys))]
		v := genValue(r, k, w.dom.Wide)
		m.n.SetProperty(k, v)
		m.props[k] = v
		done("%s.SetProperty(%s,%s)", m.name, k, fmtVal(v))
	case opRemoveNodeProp:
		m := w.node(r)
		if m == nil || len(w.dom.Keys) == 0 {
			return nil
		}
		k := w.dom.Keys[r.N(len(w.dom.Keys))]
		if ks := propKeys(m.props); len(ks) > 0 && r.P(3, 4) {
			k = ks[r.N(len(ks))]
		}
		m.n.RemoveProperty(k)
		delete(m.props, k)
		done("%s.RemoveProperty(%s)", m.name, k)
	case opSetEdgeLabel:
		m := w.edge(r)
		if m == nil {
			return nil
		}
		l := w.dom.EdgeLabels[r.N(len(w.dom.EdgeLabels))]
		m.e.SetLabel(l)
		m.label = l
		done("%s.SetLabel(%q)", m.name, l)
	case opSetEdgeProp:
		m := w.edge(r)
		if m == nil || len(w.dom.Keys) == 0 {
			return nil
		}
		k := w.dom.Keys[r.N(len(w.dom.Keys))]
		v := genValue(r, k, w.dom.Wide)
		m.e.SetProperty(k, v)
		m.props[k] = v
		done("%s.SetProperty(%s,%s)", m.name, k, fmtVal(v))
	case opRemoveEdgeProp:
		m := w.edge(r)
		if m == nil || len(w.dom.Keys) == 0 {
			return nil
		}
		k := w.dom.Keys[r.N(len(w.dom.Keys))]
		if ks := propKeys(m.props); len(ks) > 0 && r.P(3, 4) {
			k = ks[r.N(len(ks))]
		}
		m.e.RemoveProperty(k)
		delete(m.props, k)
		done("%s.RemoveProperty(%s)", m.name, k)
	case opRemoveEdge:
		m := w.edge(r)
		if m == nil {
			return nil
		}
		m.e.Remove()
		w.dropEdge(m)
		done("%s.Remove()", m.name)
	case opDetach:
		m := w.node(r)
		if m == nil {
			return nil
		}
		m.n.Detach()
		for _, e := range w.incident(m) {
			w.dropEdge(e)
		}
		done("%s.Detach()", m.name)
	case opRemoveNode:
		m := w.node(r)
		if m == nil {
			return nil
		}
		m.n.DetachAndRemove()
		for _, e := range w.incident(m) {
			w.dropEdge(e)
		}
		w.dropNode(m)
		done("%s.DetachAndRemove()", m.name)
	case opIndexNode, opIndexEdge:
		if !w.dom.Index || len(w.dom.Keys) == 0 {
			return nil
		}
		k := w.dom.Keys[r.N(len(w.dom.Keys))]
		if w.dom.Fat && r.P(1, 3) {
			for _, k := range w.dom.Keys {
				w.declareIndex(r, k, kind == opIndexNode)
			}
			done("%s(every key)", opNames[kind])
			return nil
		}
		t, ok := w.declareIndex(r, k, kind == opIndexNode)
		if !ok {
			return nil
		}
		done("%s(%s,%s)", opNames[kind], k, []string{"btree", "hash"}[t])
	case opForeign:
		return w.applyForeign(r, done)
	case opStale:
		return w.applyStale(r, done)
	case opCopyNode:
		m := w.node(r)
		if m == nil || len(w.nodes) >= w.dom.MaxNodes {
			return nil
		}
		n := lpg.CopyNode(m.n, w.g, ident)
		c := w.addMN(n, toSet(setKeys(m.labels)), copyProps(m.props))
		done("%s=CopyNode(%s)", c.name, m.name)
	case opCloneEdge:
		m := w.edge(r)
		if m == nil || len(w.edges) >= w.dom.MaxEdges {
			return nil
		}
		from, to := w.node(r), w.node(r)
		e := lpg.CloneEdge(from.n, to.n, m.e, w.g, ident)
		c := w.addME(e, from, to, m.label, copyProps(m.props))
		done("%s=CloneEdge(%s,%s,%s)", c.name, from.name, to.name, m.name)
	case opCopySub:
		if len(w.nodes)+2 > w.dom.MaxNodes || len(w.edges)+2 > w.dom.MaxEdges {
			return nil
		}
		src := lpg.NewGraph()
		la, lb := w.pickLabels(r), w.pickLabels(r)
		pa, pb, pe := w.pickProps(r), w.pickProps(r), w.pickProps(r)
		a, b := src.NewNode(la, pa), src.NewNode(lb, pb)
		el := w.dom.EdgeLabels[r.N(len(w.dom.EdgeLabels))]
		src.NewEdge(a, b, el, pe)
		src.NewEdge(b, a, el, nil)
		nm := map[*lpg.Node]*lpg.Node{}
		lpg.CopySubgraph(a, w.g, ident, nm)
		if nm[a] == nil || nm[b] == nil {
			return fmt.Errorf("CopySubgraph did not report the copies of the reachable nodes")
		}
		ca, cb := w.addMN(nm[a], toSet(la), copyProps(pa)), w.addMN(nm[b], toSet(lb), copyProps(pb))
		find := func(x, y *lpg.Node) *lpg.Edge {
			for it := x.GetEdges(lpg.OutgoingEdge); it.Next(); {
				if it.Edge().GetTo() == y {
					return it.Edge()
				}
			}
			return nil
		}
		e1, e2 := find(nm[a], nm[b]), find(nm[b], nm[a])
		if e1 == nil || e2 == nil {
			return fmt.Errorf("CopySubgraph did not copy the edges between the reachable nodes")
		}
		w.addME(e1, ca, cb, el, copyProps(pe))
		w.addME(e2, cb, ca, el, map[string]interface{}{})
		done("%s,%s=CopySubgraph(two nodes in a cycle, labels %q %q)", ca.name, cb.name, la, lb)
	}
	return nil
}

// declareIndex declares an index of a key.
func (w *World) declareIndex(r *Rnd, k string, nodes bool) (lpg.IndexType, bool) {
	t := lpg.BtreeIndex
	if r.P(1, 2) {
		t = lpg.HashIndex
	}
	if nodes {
		w.g.AddNodePropertyIndex(k, t)
		if _, ok := w.idxN[k]; !ok {
			w.idxN[k] = t
		}
	} else {
		w.g.AddEdgePropertyIndex(k, t)
		if _, ok := w.idxE[k]; !ok {
			w.idxE[k] = t
		}
	}
	return t, true
}

func (w *World) applyForeign(r *Rnd, done func(string, ...interface{})) error {
	m := w.node(r)
	if m == nil {
		return nil
	}
	if w.fg == nil {
		w.fg = newWorld(w.dom, w.st)
		f := w.fg
		a := f.addMN(f.g.NewNode([]string{"F"}, nil), toSet([]string{"F"}), map[string]interface{}{})
		b := f.addMN(f.g.NewNode(nil, nil), map[string]bool{}, map[string]interface{}{})
		f.addME(f.g.NewEdge(a.n, b.n, "f", nil), a, b, "f", map[string]interface{}{})
		// make ids coincide with those of the first graph
		f.addMN(f.g.NewNode(nil, nil), map[string]bool{}, map[string]interface{}{})
	}
	f := w.fg.nodes[r.N(len(w.fg.nodes))].n
	g := w.g
	a, b := m.n, f
	switch r.N(4) {
	case 1:
		a, b = f, m.n
	case 2:
		b = w.fg.nodes[r.N(len(w.fg.nodes))].n
		a = f
	case 3:
		g = w.fg.g
	}
	call := r.N(4)
	src := w.fg.edges[0].e
	name := []string{"NewEdge", "FastNewEdge", "CloneEdge", "CopyEdge"}[call]
	_, did := panics(func() {
		switch call {
		case 0:
			g.NewEdge(a, b, "x", map[string]interface{}{})
		case 1:
			g.FastNewEdge(a, b, "x", nil)
		case 2:
			lpg.CloneEdge(a, b, src, g, ident)
		case 3:
			lpg.CopyEdge(src, g, ident, map[*lpg.Node]*lpg.Node{src.GetFrom(): a, src.GetTo(): b})
		}
	})
	done("%s between nodes not both in the graph", name)
	if !did {
		return fmt.Errorf("%s accepted nodes that are not both in the graph", name)
	}
	w.refused++
	w.st.Inc("refused calls", 1)
	return nil
}

// ---- generation -----------------------------------------------------------

type weights [nOps]int

func mkWeights(kv map[int]int) weights {
	var w weights
	for k, v := range kv {
		w[k] = v
	}
	return w
}

var phases = []weights{
	mkWeights(map[int]int{opNewNode: 6, opFastNewNode: 3, opNewEdge: 6, opFastNewEdge: 2, opSelfLoop: 1, opParallel: 2, opSetNodeProp: 1, opIndexNode: 1, opIndexEdge: 1}),                                                                                            // grow
	mkWeights(map[int]int{opNewNode: 3, opNewEdge: 4, opRemoveEdge: 3, opDetach: 1, opRemoveNode: 3, opSetLabels: 2, opSetEdgeLabel: 2, opParallel: 1, opSetNodeProp: 2, opSetEdgeProp: 2, opRemoveNodeProp: 1, opRemoveEdgeProp: 1, opIndexNode: 1, opIndexEdge: 1}), // churn
	mkWeights(map[int]int{opRemoveNode: 5, opRemoveEdge: 4, opDetach: 1, opNewNode: 1}),                                                                                    // shrink
	mkWeights(map[int]int{opSetLabels: 5, opSetEdgeLabel: 5, opRemoveEdge: 2, opRemoveNode: 1, opNewEdge: 2}),                                                              // relabel
	mkWeights(map[int]int{opSetNodeProp: 5, opRemoveNodeProp: 3, opSetEdgeProp: 5, opRemoveEdgeProp: 3, opIndexNode: 1, opIndexEdge: 1, opRemoveNode: 1, opRemoveEdge: 2}), // properties
	mkWeights(map[int]int{opNewEdge: 4, opSelfLoop: 2, opParallel: 4, opRemoveEdge: 6, opSetEdgeLabel: 3, opDetach: 1}),                                                    // edges
	mkWeights(map[int]int{opCopyNode: 3, opCloneEdge: 3, opCopySub: 2, opForeign: 3, opNewNode: 1, opRemoveNode: 2, opRemoveEdge: 2}),                                      // copies
}

// boost returns the phase with some operations made more likely.
func genOps(r *rand.Rand, n int, boost map[int]int, firstGrow int) []Op {
	ops := make([]Op, 0, n)
	var w weights
	total := 0
	set := func(x weights) {
		w = x
		for k, v := range boost {
			w[k] += v
		}
		total = 0
		for _, v := range w {
			total += v
		}
	}
	set(phases[0])
	left := firstGrow
	for len(ops) < n {
		if left == 0 {
			set(phases[r.Intn(len(phases))])
			left = 3 + r.Intn(12)
		}
		left--
		x := r.Intn(total)
		k := 0
		for ; x >= w[k]; k++ {
			x -= w[k]
		}
		var o Op
		o.K = uint8(k)
		for i := range o.P {
			o.P[i] = r.Uint32()
		}
		ops = append(ops, o)
	}
	return ops
}

func pickSome(r *Rnd, pool []string, min, max int) []string {
	n := min + r.N(max-min+1)
	if n > len(pool) {
		n = len(pool)
	}
	p := append([]string{}, pool...)
	for i := range p {
		j := i + r.N(len(p)-i)
		p[i], p[j] = p[j], p[i]
	}
	return p[:n]
}

// domFromCh derives the domain of a case from its choice sequence.
func domFromCh(c *Ch, index bool) *Dom {
	r := &Rnd{uint64(c.U()) | uint64(c.U())<<32}
	d := &Dom{MaxNodes: 14, MaxEdges: 24, Index: index}
	d.Labels = pickSome(r, allLabels, 2, 4)
	d.EdgeLabels = pickSome(r, allLabels, 1, 4)
	keys := []string{"i0", "i1", "s0", "s1", "n0", "m0", "l0", "t0", "a0", "h0"}
	d.Keys = pickSome(r, keys, 1, 4)
	if r.P(1, 20) {
		d.Fat = true
		d.Labels = append([]string{}, allLabels...)
		for i := 0; i < 24; i++ {
			d.Labels = append(d.Labels, fmt.Sprintf("L%d", i))
		}
		d.EdgeLabels = append([]string{}, d.Labels[:12]...)
		d.Keys = append(append([]string{}, keys...), "i2", "i3", "s2", "s3", "n1", "m1", "l1", "t1", "h1", "h2")
		if r.P(1, 2) {
			d.Keys = d.Keys[:len(d.Keys)-3]
		}
	}
	return d
}

// wideDom has many nodes and many distinct indexed values, so that trees split
// and merge.
func wideDom(c *Ch) *Dom {
	r := &Rnd{uint64(c.U()) | uint64(c.U())<<32}
	d := &Dom{MaxNodes: 400, MaxEdges: 500, Index: true, Wide: 40 + r.N(200)}
	if r.P(1, 3) {
		// many objects with the same value
		d.Wide = 1 + r.N(4)
	}
	d.Hub = r.P(1, 3)
	d.Labels = pickSome(r, allLabels, 2, 5)
	d.EdgeLabels = pickSome(r, allLabels, 1, 5)
	d.Keys = pickSome(r, []string{"i0", "s0", "n0", "m0", "l0", "t0", "h0"}, 1, 3)
	if r.P(1, 4) {
		// many labels and properties, too
		d.Fat = true
		d.MaxNodes, d.MaxEdges = 60, 200
		d.Keys = nil
		for i := 0; i < 70; i++ {
			d.Labels = append(d.Labels, fmt.Sprintf("L%d", i))
			d.EdgeLabels = append(d.EdgeLabels, fmt.Sprintf("L%d", i))
			d.Keys = append(d.Keys, fmt.Sprintf("%c%d", "isnmlth"[i%7], i))
		}
	}
	return d
}

// ---- helpers for monitors --------------------------------------------------

func (w *World) nameN(n *lpg.Node) string {
	if n == nil {
		return "<nil node>"
	}
	for _, m := range w.nodes {
		if m.n == n {
			return m.name
		}
	}
	for _, m := range w.everN {
		if m.n == n {
			return m.name + "(removed)"
		}
	}
	return "<unknown node>"
}

func (w *World) nameE(e *lpg.Edge) string {
	if e == nil {
		return "<nil edge>"
	}
	for _, m := range w.edges {
		if m.e == e {
			return m.name
		}
	}
	for _, m := range w.everE {
		if m.e == e {
			return m.name + "(removed)"
		}
	}
	return "<unknown edge>"
}

// drainNodes reads at most limit+8 nodes from an iterator.
func drainNodes(it lpg.NodeIterator, limit int) ([]*lpg.Node, bool) {
	var r []*lpg.Node
	for it.Next() {
		r = append(r, it.Node())
		if len(r) > limit+8 {
			return r, false
		}
	}
	return r, true
}

func drainEdges(it lpg.EdgeIterator, limit int) ([]*lpg.Edge, bool) {
	var r []*lpg.Edge
	for it.Next() {
		r = append(r, it.Edge())
		if len(r) > limit+8 {
			return r, false
		}
	}
	return r, true
}

func (w *World) cmpNodes(what string, got []*lpg.Node, ended bool, want []*MN) error {
	cnt := make(map[*lpg.Node]int, len(want))
	for _, m := range want {
		cnt[m.n]++
	}
	bad := !ended || len(got) != len(want)
	for _, n := range got {
		cnt[n]--
		if cnt[n] < 0 {
			bad = true
		}
	}
	if !bad {
		return nil
	}
	var g, x []string
	for _, n := range got {
		g = append(g, w.nameN(n))
	}
	for _, m := range want {
		x = append(x, m.name)
	}
	e := ""
	if !ended {
		e = " (and more: enumeration did not end)"
	}
	return fmt.Errorf("%s: got %v%s, expected %v", what, g, e, x)
}

func (w *World) cmpEdges(what string, got []*lpg.Edge, ended bool, want []*ME) error {
	cnt := make(map[*lpg.Edge]int, len(want))
	for _, m := range want {
		cnt[m.e]++
	}
	bad := !ended || len(got) != len(want)
	for _, n := range got {
		cnt[n]--
		if cnt[n] < 0 {
			bad = true
		}
	}
	if !bad {
		return nil
	}
	var g, x []string
	for _, n := range got {
		g = append(g, w.nameE(n))
	}
	for _, m := range want {
		x = append(x, m.name)
	}
	e := ""
	if !ended {
		e = " (and more: enumeration did not end)"
	}
	return fmt.Errorf("%s: got %v%s, expected %v", what, g, e, x)
}

func (w *World) checkNodeIt(what string, it lpg.NodeIterator, want []*MN) error {
	got, ended := drainNodes(it, len(w.nodes)+len(want))
	w.st.Inc("enumerations", 1)
	w.st.Inc("elements compared", len(got))
	return w.cmpNodes(what, got, ended, want)
}

func (w *World) checkEdgeIt(what string, it lpg.EdgeIterator, want []*ME) error {
	got, ended := drainEdges(it, len(w.edges)+len(want))
	w.st.Inc("enumerations", 1)
	w.st.Inc("elements compared", len(got))
	return w.cmpEdges(what, got, ended, want)
}

// sameVal tells whether a value read is the one written. Values that are not
// equal to themselves are the same if their text is.
func sameVal(a, b interface{}) bool {
	if reflect.DeepEqual(a, b) {
		return true
	}
	return a != nil && b != nil && reflect.TypeOf(a) == reflect.TypeOf(b) && !reflect.DeepEqual(a, a) && !reflect.DeepEqual(b, b) && fmt.Sprint(a) == fmt.Sprint(b)
}

// unchanged compares a pattern with a snapshot of it; its properties may have
// values that are not equal to themselves.
func unchanged(now, snapshot lpg.Pattern) bool {
	if len(now) != len(snapshot) {
		return false
	}
	for i := range now {
		a, b := now[i], snapshot[i]
		pa, pb := a.Properties, b.Properties
		if (pa == nil) != (pb == nil) || len(pa) != len(pb) {
			return false
		}
		for k, v := range pb {
			if x, ok := pa[k]; !ok || !sameVal(x, v) {
				return false
			}
		}
		a.Properties, b.Properties = nil, nil
		if !reflect.DeepEqual(a, b) {
			return false
		}
	}
	return true
}

func (w *World) filterN(f func(*MN) bool) []*MN {
	var r []*MN
	for _, m := range w.nodes {
		if f(m) {
			r = append(r, m)
		}
	}
	return r
}

func (w *World) filterE(f func(*ME) bool) []*ME {
	var r []*ME
	for _, m := range w.edges {
		if f(m) {
			r = append(r, m)
		}
	}
	return r
}
