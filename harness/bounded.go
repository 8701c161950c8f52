package main

import (
	"fmt"
	"math/bits"
	"math/rand"

	"github.com/cloudprivacylabs/lpg/v2"
)

// C25: how many stored values a search inspects. Property values are Counted:
// each counts the calls of GetNativeValue made on it.

type bObj struct {
	n      *lpg.Node
	e      *lpg.Edge
	from   *bObj
	to     *bObj
	labels map[string]bool
	label  string
	props  map[string]int // key -> native value
	count  int
	in     []*bObj
	out    []*bObj
	at     int // position in the listing
}

// val makes a stored value for this object. The values of i and u are numbers,
// those of s and t strings.
func (o *bObj) val(key string, x int) interface{} { return &Counted{V: native(key, x), C: &o.count} }

func native(key string, x int) interface{} {
	if key == "s" || key == "t" {
		return fmt.Sprintf("v%05d", x)
	}
	return x
}

type bWorld struct {
	g          *lpg.Graph
	st         *Stats
	r          *Rnd
	nodes      []*bObj
	edges      []*bObj
	gone       []*bObj // their values may live on as keys of an index
	idxN, idxE map[string]bool
	spread     map[string]int // number of distinct values per key
}

var bKeys = []string{"i", "s", "u", "t"}

func (b *bWorld) mk(o *bObj) map[string]interface{} {
	o.props = map[string]int{}
	p := map[string]interface{}{}
	for _, k := range bKeys {
		if b.r.P(7, 8) {
			o.props[k] = b.r.N(b.spread[k])
			p[k] = o.val(k, o.props[k])
		}
	}
	return p
}

func (b *bWorld) pickLabels() []string {
	// A is common, B less so, C and D are rare
	var l []string
	for _, x := range []struct {
		l string
		d int
	}{{"A", 2}, {"B", 6}, {"C", 30}, {"D", 60}} {
		if b.r.P(1, x.d) {
			l = append(l, x.l)
		}
	}
	return l
}

func (b *bWorld) addNode() {
	o := &bObj{}
	p := b.mk(o)
	l := b.pickLabels()
	o.labels = toSet(l)
	if b.r.P(1, 2) {
		o.n = b.g.NewNode(l, p)
	} else {
		o.n = b.g.FastNewNode(lpg.NewStringSet(l...), p)
	}
	o.at = len(b.nodes)
	b.nodes = append(b.nodes, o)
}

func (b *bWorld) addEdge() {
	if len(b.nodes) == 0 {
		return
	}
	from := b.nodes[b.r.N(len(b.nodes))]
	to := b.nodes[b.r.N(len(b.nodes))]
	if len(from.in)+len(from.out) > 5 || len(to.in)+len(to.out) > 5 {
		return
	}
	o := &bObj{from: from, to: to, label: []string{"x", "y"}[b.r.N(2)]}
	if b.r.P(1, 25) {
		o.label = "z"
	}
	p := b.mk(o)
	if b.r.P(1, 2) {
		o.e = b.g.NewEdge(from.n, to.n, o.label, p)
	} else {
		o.e = b.g.FastNewEdge(from.n, to.n, o.label, p)
	}
	o.at = len(b.edges)
	b.edges = append(b.edges, o)
	from.out = append(from.out, o)
	to.in = append(to.in, o)
}

func cut(l []*bObj, o *bObj) []*bObj {
	for i, x := range l {
		if x == o {
			return append(l[:i:i], l[i+1:]...)
		}
	}
	return l
}

func (b *bWorld) forgetEdge(o *bObj) {
	last := b.edges[len(b.edges)-1]
	b.edges[o.at], last.at = last, o.at
	b.edges = b.edges[:len(b.edges)-1]
	o.from.out = cut(o.from.out, o)
	o.to.in = cut(o.to.in, o)
	b.gone = append(b.gone, o)
}

func (b *bWorld) update() {
	r := b.r
	switch r.N(12) {
	case 0:
		b.addNode()
	case 1:
		b.addEdge()
	case 2:
		if len(b.nodes) > 10 {
			o := b.nodes[r.N(len(b.nodes))]
			o.n.DetachAndRemove()
			for _, l := range [][]*bObj{append([]*bObj{}, o.out...), append([]*bObj{}, o.in...)} {
				for _, e := range l {
					if len(b.edges) > e.at && b.edges[e.at] == e {
						b.forgetEdge(e)
					}
				}
			}
			last := b.nodes[len(b.nodes)-1]
			b.nodes[o.at], last.at = last, o.at
			b.nodes = b.nodes[:len(b.nodes)-1]
			b.gone = append(b.gone, o)
			b.st.Inc("nodes removed", 1)
		}
	case 3:
		if len(b.edges) > 10 {
			o := b.edges[r.N(len(b.edges))]
			o.e.Remove()
			b.forgetEdge(o)
			b.st.Inc("edges removed", 1)
		}
	case 4, 5, 6:
		if len(b.nodes) > 0 {
			o := b.nodes[r.N(len(b.nodes))]
			k := bKeys[r.N(4)]
			x := r.N(b.spread[k])
			o.n.SetProperty(k, o.val(k, x))
			o.props[k] = x
			b.st.Inc("values updated", 1)
		}
	case 7, 8:
		if len(b.edges) > 0 {
			o := b.edges[r.N(len(b.edges))]
			k := bKeys[r.N(4)]
			x := r.N(b.spread[k])
			o.e.SetProperty(k, o.val(k, x))
			o.props[k] = x
			b.st.Inc("values updated", 1)
		}
	case 9:
		if len(b.nodes) > 0 {
			o := b.nodes[r.N(len(b.nodes))]
			k := bKeys[r.N(4)]
			o.n.RemoveProperty(k)
			delete(o.props, k)
		}
	case 10:
		if len(b.edges) > 0 {
			o := b.edges[r.N(len(b.edges))]
			k := bKeys[r.N(4)]
			o.e.RemoveProperty(k)
			delete(o.props, k)
		}
	case 11:
		if len(b.nodes) > 0 {
			o := b.nodes[r.N(len(b.nodes))]
			l := b.pickLabels()
			o.n.SetLabels(lpg.NewStringSet(l...))
			o.labels = toSet(l)
			b.st.Inc("nodes relabelled", 1)
		}
	}
}

func (b *bWorld) index(k string, edges bool) {
	t := lpg.BtreeIndex
	if b.r.P(1, 2) {
		t = lpg.HashIndex
	}
	if edges {
		b.g.AddEdgePropertyIndex(k, t)
		b.idxE[k] = true
	} else {
		b.g.AddNodePropertyIndex(k, t)
		b.idxN[k] = true
	}
	b.st.Inc(map[lpg.IndexType]string{lpg.BtreeIndex: "btree indexes", lpg.HashIndex: "hash indexes"}[t], 1)
}

func (b *bWorld) reset() {
	for _, l := range [][]*bObj{b.nodes, b.edges, b.gone} {
		for _, o := range l {
			o.count = 0
		}
	}
}

func (b *bWorld) inspected() int {
	n := 0
	for _, l := range [][]*bObj{b.nodes, b.edges, b.gone} {
		for _, o := range l {
			n += o.count
		}
	}
	return n
}

func has(l []*bObj, k string, x int) int {
	n := 0
	for _, o := range l {
		if v, ok := o.props[k]; ok && v == x {
			n++
		}
	}
	return n
}

func log2(n int) int { return bits.Len(uint(n) + 1) }

// query searches by value: at least one key is indexed. The candidates are the
// holders of the rarest requested indexed value.
func (b *bWorld) query(edges bool) error {
	objs, idx := b.nodes, b.idxN
	if edges {
		objs, idx = b.edges, b.idxE
	}
	var indexed []string
	for _, k := range bKeys {
		if idx[k] {
			indexed = append(indexed, k)
		}
	}
	if len(indexed) == 0 || len(objs) == 0 {
		return nil
	}
	q := map[string]int{}
	from := objs[b.r.N(len(objs))]
	pick := func(k string) {
		if x, ok := from.props[k]; ok && b.r.P(4, 5) {
			q[k] = x
		} else {
			q[k] = b.r.N(b.spread[k] + 3)
		}
	}
	pick(indexed[b.r.N(len(indexed))])
	for _, k := range bKeys {
		if _, ok := q[k]; !ok && b.r.P(1, 4) {
			pick(k)
		}
	}
	var labels []string
	if b.r.P(1, 4) {
		if edges {
			labels = [][]string{{"x"}, {"x", "y"}, {"z"}, {"y", "z"}}[b.r.N(4)]
		} else {
			labels = [][]string{{"A"}, {"B"}, {"C"}, {"A", "D"}}[b.r.N(4)]
		}
	}
	m := -1
	rare := "value"
	props := map[string]interface{}{}
	for k, x := range q {
		props[k] = native(k, x)
		if idx[k] {
			if c := has(objs, k, x); m == -1 || c < m {
				m = c
			}
		}
	}
	if !edges {
		for _, l := range labels {
			c := 0
			for _, o := range objs {
				if o.labels[l] {
					c++
				}
			}
			if c < m {
				m, rare = c, "label"
			}
		}
	}
	want := 0
	for _, o := range objs {
		ok := len(labels) == 0 || !edges
		for _, l := range labels {
			if edges {
				ok = ok || o.label == l
			} else {
				ok = ok && o.labels[l]
			}
		}
		for k, x := range q {
			if v, has := o.props[k]; !has || v != x {
				ok = false
			}
		}
		if ok {
			want++
		}
	}
	allowed := 4*m*len(q) + len(q)*4*log2(len(objs)+len(b.gone)) + 16
	b.reset()
	got := 0
	if edges {
		for it := b.g.FindEdges(lpg.NewStringSet(labels...), props); it.Next(); {
			got++
		}
	} else {
		for it := b.g.FindNodes(lpg.NewStringSet(labels...), props); it.Next(); {
			got++
		}
	}
	n := b.inspected()
	kind := "nodes"
	if edges {
		kind = "edges"
	}
	what := fmt.Sprintf("searching %d %s for %v with labels %q (indexed: %v)", len(objs), kind, q, labels, indexed)
	if got != want {
		return fmt.Errorf("%s: %d found, expected %d", what, got, want)
	}
	if n > allowed {
		return fmt.Errorf("%s: %d values inspected, although only %d objects carry the rarest %s (at most %d allowed)", what, n, m, rare, allowed)
	}
	if rare == "label" {
		b.st.Inc("searches with an indexed value and a rarer label", 1)
	}
	b.st.Inc("indexed "+kind+" searches", 1)
	wide := 0
	for k, x := range q {
		if idx[k] && has(objs, k, x) > allowed {
			wide++
		}
	}
	if wide > 0 {
		b.st.Inc("searches with a rare and a common indexed value, "+kind, 1)
	}
	b.st.Inc("values inspected by indexed searches", n)
	b.st.Inc("values stored at indexed searches", len(objs))
	if want > 0 {
		b.st.Inc("indexed searches with matches", 1)
	}
	return nil
}

// queryLabels searches nodes by labels and an unindexed property.
func (b *bWorld) queryLabels() error {
	labels := pickSome(b.r, []string{"A", "B", "C", "D"}, 1, 3)
	k := ""
	for _, x := range bKeys {
		if !b.idxN[x] {
			k = x
		}
	}
	if k == "" {
		return nil
	}
	x := b.r.N(b.spread[k])
	size := map[string]int{}
	for _, o := range b.nodes {
		for l := range o.labels {
			size[l]++
		}
	}
	min := -1
	for _, l := range labels {
		if min == -1 || size[l] < min {
			min = size[l]
		}
	}
	want := 0
	for _, o := range b.nodes {
		ok := true
		for _, l := range labels {
			ok = ok && o.labels[l]
		}
		if v, has := o.props[k]; ok && has && v == x {
			want++
		}
	}
	b.reset()
	got := 0
	for it := b.g.FindNodes(lpg.NewStringSet(labels...), map[string]interface{}{k: native(k, x)}); it.Next(); {
		got++
	}
	what := fmt.Sprintf("searching %d nodes with labels %q (carried by %v) for %s=%d", len(b.nodes), labels, size, k, x)
	if got != want {
		return fmt.Errorf("%s: %d found, expected %d", what, got, want)
	}
	seen := 0
	for _, o := range b.nodes {
		if o.count == 0 {
			continue
		}
		seen++
		rare := false
		for _, l := range labels {
			if size[l] == min && o.labels[l] {
				rare = true
			}
		}
		if !rare {
			return fmt.Errorf("%s: inspected a node that does not carry the rarest label", what)
		}
	}
	if n := b.inspected(); n > 4*min+16 || seen > min {
		return fmt.Errorf("%s: %d values of %d nodes inspected, although only %d nodes carry the rarest label", what, n, seen, min)
	}
	b.st.Inc("label searches", 1)
	b.st.Inc("nodes inspected by label searches", seen)
	b.st.Inc("nodes at label searches", len(b.nodes))
	return nil
}

// queryEdgeLabels searches edges by labels and an unindexed property.
func (b *bWorld) queryEdgeLabels() error {
	k := ""
	for _, x := range bKeys {
		if !b.idxE[x] {
			k = x
		}
	}
	if k == "" || len(b.edges) == 0 {
		return nil
	}
	labels := [][]string{{"x"}, {"z"}, {"z", "none"}, {"y", "z"}, {"none"}}[b.r.N(5)]
	x := b.r.N(b.spread[k])
	size, want := 0, 0
	set := toSet(labels)
	for _, o := range b.edges {
		if set[o.label] {
			size++
			if v, has := o.props[k]; has && v == x {
				want++
			}
		}
	}
	b.reset()
	got := 0
	for it := b.g.FindEdges(lpg.NewStringSet(labels...), map[string]interface{}{k: native(k, x)}); it.Next(); {
		got++
	}
	what := fmt.Sprintf("searching %d edges with labels %q (carried by %d) for %s=%d", len(b.edges), labels, size, k, x)
	if got != want {
		return fmt.Errorf("%s: %d found, expected %d", what, got, want)
	}
	for _, o := range b.edges {
		if o.count > 0 && !set[o.label] {
			return fmt.Errorf("%s: inspected an edge labelled %q", what, o.label)
		}
	}
	if n := b.inspected(); n > 4*size+16 {
		return fmt.Errorf("%s: %d values inspected", what, n)
	}
	b.st.Inc("edge label searches", 1)
	if 4*size+16 < len(b.edges) {
		b.st.Inc("searches by rare edge labels", 1)
	}
	return nil
}

// queryPattern runs a pattern one of whose node items has an indexed value.
func (b *bWorld) queryPattern() error {
	var indexed []string
	for _, k := range bKeys {
		if b.idxN[k] {
			indexed = append(indexed, k)
		}
	}
	if len(indexed) == 0 || len(b.nodes) == 0 || len(b.edges) == 0 {
		return nil
	}
	hops := b.r.N(3)
	pos := b.r.N(hops + 1)
	key := indexed[b.r.N(len(indexed))]
	from := b.nodes[b.r.N(len(b.nodes))]
	x, ok := from.props[key]
	if !ok {
		x = b.r.N(b.spread[key])
	}
	m := has(b.nodes, key, x)
	if m*3 > len(b.nodes) || m*3 > len(b.edges) {
		return nil // something else may be as selective
	}
	type item struct {
		left, undir bool
		label       string
	}
	var pat lpg.Pattern
	var items []item
	desc := ""
	hasProps := func() map[string]interface{} {
		// a property that is not indexed does not help the choice
		for _, k := range bKeys {
			if !b.idxN[k] && b.r.P(1, 4) {
				return map[string]interface{}{k: native(k, b.r.N(b.spread[k]))}
			}
		}
		return nil
	}
	nodeProps := make([]map[string]interface{}, hops+1)
	for i := 0; i <= hops; i++ {
		nodeProps[i] = hasProps()
		if i == pos {
			if nodeProps[i] == nil {
				nodeProps[i] = map[string]interface{}{}
			}
			nodeProps[i][key] = native(key, x)
		}
		pat = append(pat, lpg.PatternItem{Properties: nodeProps[i]})
		desc += fmt.Sprintf("(%v)", nodeProps[i])
		if i < hops {
			it := item{undir: b.r.P(1, 3)}
			it.left = !it.undir && b.r.P(1, 2)
			items = append(items, it)
			pat = append(pat, lpg.PatternItem{Min: 1, Max: 1, ToLeft: it.left, Undirected: it.undir})
			desc += map[bool]string{true: "--", false: map[bool]string{true: "<-", false: "->"}[it.left]}[it.undir]
		}
	}
	// the walks that start at the candidates, whatever their properties
	walks := func(o *bObj, towardsEnd bool, i int) int {
		var rec func(o *bObj, i int) int
		rec = func(o *bObj, i int) int {
			j := i
			if !towardsEnd {
				j = i - 1
			}
			if j < 0 || j >= hops {
				return 1
			}
			it := items[j]
			n := 1
			if it.undir || it.left != towardsEnd {
				for _, e := range o.out {
					n += rec(e.to, i+map[bool]int{true: 1, false: -1}[towardsEnd])
				}
			}
			if it.undir || it.left == towardsEnd {
				for _, e := range o.in {
					n += rec(e.from, i+map[bool]int{true: 1, false: -1}[towardsEnd])
				}
			}
			return n
		}
		return rec(o, i)
	}
	work := 0
	for _, o := range b.nodes {
		if v, ok := o.props[key]; ok && v == x {
			work += walks(o, true, pos) * walks(o, false, pos)
		}
	}
	allowed := 8*work + 4*log2(len(b.nodes)+len(b.gone)) + 16
	b.reset()
	acc, err := pat.FindPaths(b.g, nil)
	if err != nil {
		return err
	}
	n := b.inspected()
	if n > allowed {
		return fmt.Errorf("pattern %s on %d nodes and %d edges, %s indexed: %d values inspected, although only %d nodes have the indexed value and %d paths lead from them (at most %d allowed)", desc, len(b.nodes), len(b.edges), key, n, m, work, allowed)
	}
	if allowed*2 < len(b.nodes) {
		b.st.Inc("indexed patterns with a bound below half the nodes", 1)
	}
	b.st.Inc("indexed patterns", 1)
	b.st.Inc("indexed pattern matches", len(acc.Paths))
	b.st.Inc("values inspected by indexed patterns", n)
	b.st.Inc("nodes at indexed patterns", len(b.nodes))
	if pos > 0 {
		b.st.Inc("indexed patterns not starting with the indexed item", 1)
	}
	return nil
}

// queryPatternEdge runs a pattern one of whose edge items has an indexed value.
func (b *bWorld) queryPatternEdge() error {
	var indexed []string
	for _, k := range bKeys {
		if b.idxE[k] {
			indexed = append(indexed, k)
		}
	}
	if len(indexed) == 0 || len(b.nodes) == 0 || len(b.edges) == 0 {
		return nil
	}
	key := indexed[b.r.N(len(indexed))]
	from := b.edges[b.r.N(len(b.edges))]
	x, ok := from.props[key]
	if !ok {
		x = b.r.N(b.spread[key])
	}
	m := has(b.edges, key, x)
	if m*3 > len(b.nodes) || m*3 > len(b.edges) {
		return nil
	}
	before, after, undir, left := b.r.P(1, 3), b.r.P(1, 3), b.r.P(1, 3), b.r.P(1, 2)
	left = left && !undir
	var pat lpg.Pattern
	desc := ""
	item := func(p lpg.PatternItem, s string) { pat = append(pat, p); desc += s }
	nodeItem := func() {
		p := lpg.PatternItem{}
		for _, k := range bKeys {
			if !b.idxN[k] && b.r.P(1, 4) {
				p.Properties = map[string]interface{}{k: native(k, b.r.N(b.spread[k]))}
				break
			}
		}
		item(p, fmt.Sprintf("(%v)", p.Properties))
	}
	nodeItem()
	if before {
		item(lpg.PatternItem{Min: 1, Max: 1, Undirected: true}, "--")
		nodeItem()
	}
	item(lpg.PatternItem{Min: 1, Max: 1, ToLeft: left, Undirected: undir, Properties: map[string]interface{}{key: native(key, x)}},
		fmt.Sprintf("-[%s=%v left=%v undirected=%v]-", key, x, left, undir))
	nodeItem()
	if after {
		item(lpg.PatternItem{Min: 1, Max: 1, Undirected: true}, "--")
		nodeItem()
	}
	work := 0
	for _, o := range b.edges {
		if v, ok := o.props[key]; ok && v == x {
			k := 2
			for _, end := range []*bObj{o.from, o.to} {
				k *= 1 + len(end.in) + len(end.out)
			}
			work += k
		}
	}
	allowed := 8*work + 4*log2(len(b.edges)+len(b.gone)) + 16
	b.reset()
	acc, err := pat.FindPaths(b.g, nil)
	if err != nil {
		return err
	}
	if n := b.inspected(); n > allowed {
		return fmt.Errorf("pattern %s on %d nodes and %d edges, %s of edges indexed: %d values inspected, although only %d edges have the indexed value and at most %d paths lead over them (at most %d allowed)", desc, len(b.nodes), len(b.edges), key, n, m, work, allowed)
	}
	if allowed*2 < len(b.edges) {
		b.st.Inc("indexed edge patterns with a bound below half the edges", 1)
	}
	b.st.Inc("indexed edge patterns", 1)
	b.st.Inc("indexed edge pattern matches", len(acc.Paths))
	return nil
}

// queryPlain shows that the counters count: without an index, all holders are
// inspected.
func (b *bWorld) queryPlain() {
	for _, k := range bKeys {
		if !b.idxN[k] && len(b.nodes) > 0 {
			b.reset()
			for it := b.g.FindNodes(lpg.StringSet{}, map[string]interface{}{k: native(k, 0)}); it.Next(); {
			}
			b.st.Inc("unindexed searches", 1)
			b.st.Inc("values inspected by unindexed searches", b.inspected())
			return
		}
	}
}

func runC25(c *Case, st *Stats) error {
	ch := &Ch{v: c.Q}
	r := &Rnd{uint64(ch.U()) | uint64(ch.U())<<32}
	n := []int{16, 64, 200, 400, 800, 1600}[ch.N(6)]
	b := &bWorld{g: lpg.NewGraph(), st: st, r: r, idxN: map[string]bool{}, idxE: map[string]bool{}, spread: map[string]int{}}
	for _, k := range bKeys {
		b.spread[k] = 1 + n/[]int{1, 1, 4, 20, n / 2, n/6 + 1}[r.N(6)]
	}
	rounds := 1 + ch.N(3)
	early := ch.P(1, 2)
	some := func() {
		for _, k := range []string{"i", "s"} {
			if r.P(2, 3) {
				b.index(k, false)
			}
			if r.P(2, 3) {
				b.index(k, true)
			}
		}
	}
	if early {
		some()
	}
	for i := 0; i < n; i++ {
		b.addNode()
	}
	for i := 0; i < n+n/3; i++ {
		b.addEdge()
	}
	st.Inc("objects stored", len(b.nodes)+len(b.edges))
	if !early {
		some()
	}
	for k := 0; k < rounds; k++ {
		for i := r.N(n); i > 0; i-- {
			b.update()
		}
		if r.P(1, 4) {
			b.index([]string{"i", "s", "u"}[r.N(3)], r.P(1, 2))
		}
		for i := 0; i < 4; i++ {
			if err := b.query(i%2 == 1); err != nil {
				return err
			}
			if err := b.queryPattern(); err != nil {
				return err
			}
			if err := b.queryPatternEdge(); err != nil {
				return err
			}
			if err := b.queryLabels(); err != nil {
				return err
			}
			if err := b.queryEdgeLabels(); err != nil {
				return err
			}
		}
		b.queryPlain()
	}
	if st.logging {
		st.Logf("%d nodes, %d edges, node indexes %v, edge indexes %v, distinct values %v, %d rounds", len(b.nodes), len(b.edges), setKeys(b.idxN), setKeys(b.idxE), b.spread, rounds)
	}
	if n >= 200 && len(b.idxN)+len(b.idxE) > 0 {
		st.Sig(hashCase(c))
	}
	return nil
}

func init() {
	register(&Check{ID: "C25", Quick: 11600, Thorough: 140000, Run: runC25,
		Gen: func(r *rand.Rand, idx int) *Case { return &Case{Idx: idx, Q: randQ(r, 6)} },
		Required: []string{"indexed nodes searches", "indexed edges searches", "indexed searches with matches", "indexed patterns with a bound below half the nodes",
			"searches with a rare and a common indexed value, nodes", "searches with a rare and a common indexed value, edges", "indexed patterns not starting with the indexed item", "indexed edge patterns with a bound below half the edges", "indexed edge pattern matches", "label searches", "searches by rare edge labels", "searches with an indexed value and a rarer label", "unindexed searches", "btree indexes", "hash indexes"},
		Rule: "graphs of 16 to 1600 nodes whose property values count each GetNativeValue call on them; after rounds of insertion, removal, relabelling and value updates, searches by indexed value, by labels and by pattern are run and the calls compared with a bound linear in the matches and logarithmic in the graph; non-trivial if the graph has at least 200 nodes and an index"})
}
