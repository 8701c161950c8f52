package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"unsafe"

	"github.com/cloudprivacylabs/lpg/v2"
)

// C33: documents in streams, and codecs that are used again.

// freshInterner interns copies of its own, so that what it returned can be
// told from equal strings.
type freshInterner struct {
	m     map[string]string
	calls int
}

func (f *freshInterner) Intern(s string) string {
	f.calls++
	if x, ok := f.m[s]; ok {
		return x
	}
	c := strings.Clone(s)
	f.m[s] = c
	return c
}

// eachKey visits the property keys of everything in the graph.
func eachKey(g *lpg.Graph, f func(string)) {
	for it := g.GetNodes(); it.Next(); {
		it.Node().ForEachProperty(func(k string, _ interface{}) bool { f(k); return true })
	}
	for it := g.GetEdges(); it.Next(); {
		it.Edge().ForEachProperty(func(k string, _ interface{}) bool { f(k); return true })
	}
}

// between returns what stands between two documents of a stream: white space,
// or values that are not graphs, and how many values these are.
func between(d *docWriter) (string, int) {
	switch d.r.N(5) {
	case 0:
		return "", 0
	case 1:
		return "\n", 0
	case 2:
		return " \t\r\n ", 0
	}
	n := 1 + d.r.N(2)
	s := " "
	for i := 0; i < n; i++ {
		s += d.any(0) + "\n"
	}
	return s, n
}

func runC33(c *Case, st *Stats) error {
	ch := &Ch{v: c.Q}
	r := &Rnd{uint64(ch.U()) | uint64(ch.U())<<32}
	d := &docWriter{r: r, ws: true, esc: r.P(1, 2), unknown: true}
	codecs := []lpg.JSON{{}, {MarshalEdgesSeparately: true}}
	var fresh *freshInterner
	var mi lpg.MapInterner
	switch ch.N(3) {
	case 1:
		fresh = &freshInterner{m: map[string]string{}}
		codecs[0].Interner, codecs[1].Interner = fresh, fresh
	case 2:
		mi = lpg.MapInterner{}
		codecs[0].Interner, codecs[1].Interner = mi, mi
	}
	custom := ch.P(1, 3)
	if custom {
		for i := range codecs {
			codecs[i].PropertyUnmarshaler = func(k string, raw json.RawMessage) (string, interface{}, error) {
				var v interface{}
				if err := json.Unmarshal(raw, &v); err != nil {
					return "", nil, err
				}
				return string(append([]byte{}, k...)), v, nil
			}
		}
	}
	n := 2 + ch.N(4)
	form := ch.N(4) // 0, 1: one after the other; 2: in an array; 3: in an object
	var out bytes.Buffer
	var worlds []*World
	var others []int
	if form == 2 {
		out.WriteString("[")
	} else if form == 3 {
		out.WriteString("{")
	}
	for i := 0; i < n; i++ {
		var w *World
		if len(worlds) > 0 && ch.P(1, 4) {
			w = worlds[len(worlds)-1] // once more
		} else {
			if ch.P(1, 150) {
				w = genJWorld(ch, st, true, 150, 250)
				st.Inc("large documents in streams", 1)
			} else {
				w = genJWorld(ch, st, true, 6, 8)
			}
		}
		worlds = append(worlds, w)
		if form >= 2 && i > 0 {
			out.WriteString(",")
		}
		if form == 3 {
			fmt.Fprintf(&out, "%q:", fmt.Sprint("graph ", i))
		}
		if err := codecs[ch.N(2)].Encode(w.g, &out); err != nil {
			return fmt.Errorf("encoding document %d of a stream: %v", i+1, err)
		}
		k := 0
		if form < 2 {
			var s string
			if s, k = between(d); i < n-1 || form == 0 {
				out.WriteString(s)
			} else {
				k = 0
			}
		}
		others = append(others, k)
	}
	rest := ""
	switch {
	case form == 2:
		out.WriteString("]")
	case form == 3:
		out.WriteString("}")
	case form == 1:
		// bytes that are nobody's: not for the decoder to look at
		rest = []string{"", "}", "\x00\xff rest", "] trailing", "{\"nodes\":"}[ch.N(5)]
		out.WriteString(rest)
	}
	stream := out.Bytes()
	if st.logging {
		st.Logf("stream of %d documents: %s", n, stream)
	}
	var in io.Reader = bytes.NewReader(stream)
	if ch.P(1, 2) {
		in = &chunked{append([]byte{}, stream...), 1 + ch.N(9)}
	}
	dec := json.NewDecoder(in)
	token := func(want json.Token) error {
		tok, err := dec.Token()
		if err != nil || tok != want {
			return fmt.Errorf("reading %v of the enclosing value after a document: got %v, error %v", want, tok, err)
		}
		return nil
	}
	if form >= 2 {
		if err := token([]json.Token{json.Delim('['), json.Delim('{')}[form-2]); err != nil {
			return err
		}
	}
	keys := map[string]*byte{}
	keysEarlier := 0
	same := lpg.NewGraph() // takes all documents
	sameModel := &jgraph{}
	into := ch.P(1, 4)
	for i, w := range worlds {
		if form >= 2 && !dec.More() {
			return fmt.Errorf("nothing is left of the enclosing value after %d of %d documents", i, n)
		}
		if form == 3 {
			if err := token(fmt.Sprint("graph ", i)); err != nil {
				return err
			}
		}
		g := lpg.NewGraph()
		if into {
			g = same
		}
		j := codecs[ch.N(2)]
		had := j.Interner
		if err := j.Decode(g, dec); err != nil {
			return fmt.Errorf("decoding document %d of %d: %v", i+1, n, err)
		}
		if (had == nil) != (j.Interner == nil) {
			return fmt.Errorf("decoding changed the codec")
		}
		want := modelJ(w, nil)
		if into {
			off := len(sameModel.nodes)
			sameModel.nodes = append(sameModel.nodes, want.nodes...)
			for _, e := range want.edges {
				e.from += off
				e.to += off
				sameModel.edges = append(sameModel.edges, e)
			}
			if gn, ge := g.NumNodes(), g.NumEdges(); gn != len(sameModel.nodes) || ge != len(sameModel.edges) {
				return fmt.Errorf("after document %d of %d, all decoded into one graph, it has %d nodes and %d edges, expected %d and %d", i+1, n, gn, ge, len(sameModel.nodes), len(sameModel.edges))
			}
			st.Inc("documents decoded into one graph", 1)
		} else {
			got, err := jgraphOf(g, newWorld(w.dom, st))
			if err != nil {
				return fmt.Errorf("document %d of %d: %w", i+1, n, err)
			}
			if err := sameJ(got, want); err != nil {
				return fmt.Errorf("document %d of %d: %w", i+1, n, err)
			}
		}
		st.Inc("documents of streams decoded", 1)
		// keys are kept once: in the codec's interner, or per document
		if had == nil {
			keys = map[string]*byte{}
		}
		if !into {
			var bad error
			eachKey(g, func(k string) {
				if k == "" || bad != nil {
					return
				}
				p := unsafe.StringData(k)
				if q, ok := keys[k]; ok {
					if p != q {
						bad = fmt.Errorf("document %d of %d: the property key %q is kept more than once, although the codec interns keys", i+1, n, k)
					}
					keysEarlier++
				}
				keys[k] = p
				if had != nil {
					x, ok := mi[k]
					if fresh != nil {
						x, ok = fresh.m[k]
					}
					if !ok || unsafe.StringData(x) != p {
						bad = fmt.Errorf("document %d of %d: the property key %q is not the string the interner returned", i+1, n, k)
					}
					st.Inc("keys traced to the interner", 1)
				}
			})
			if bad != nil {
				return bad
			}
		}
		for k := others[i]; k > 0; k-- {
			var raw json.RawMessage
			if err := dec.Decode(&raw); err != nil {
				return fmt.Errorf("reading the value after document %d of %d: %v", i+1, n, err)
			}
			st.Inc("other values read between documents", 1)
		}
	}
	st.Inc("repeated keys found shared", keysEarlier)
	switch form {
	case 0:
		g := lpg.NewGraph()
		if err := codecs[ch.N(2)].Decode(g, dec); !errors.Is(err, io.EOF) {
			return fmt.Errorf("decoding at the end of the stream gives the error %v, expected io.EOF", err)
		}
		if g.NumNodes() != 0 {
			return fmt.Errorf("decoding at the end of the stream added nodes")
		}
		st.Inc("ends of streams reported", 1)
	case 1:
		left, err := io.ReadAll(io.MultiReader(dec.Buffered(), in))
		if err != nil || string(left) != rest {
			return fmt.Errorf("after the last document %q is left to read, expected %q", left, rest)
		}
		if rest != "" {
			st.Inc("bytes after a document left alone", 1)
		}
	default:
		if err := token([]json.Token{json.Delim(']'), json.Delim('}')}[form-2]); err != nil {
			return err
		}
		st.Inc("documents within other values", n)
	}
	for _, w := range worlds {
		if err := w.auditC02(w.nodes); err != nil {
			return fmt.Errorf("encoding changed the graph: %w", err)
		}
		for _, m := range w.nodes {
			if err := w.auditNodeAttrs(m); err != nil {
				return fmt.Errorf("encoding changed the graph: %w", err)
			}
		}
	}
	st.Sig(hashCase(c))
	return nil
}

func init() {
	register(&Check{ID: "C33", Quick: 120000, Thorough: 1500000, Run: runC33,
		Gen:      func(r *rand.Rand, idx int) *Case { return &Case{Idx: idx, Q: randQ(r, 60)} },
		Required: []string{"documents of streams decoded", "documents decoded into one graph", "other values read between documents", "documents within other values", "ends of streams reported", "bytes after a document left alone", "keys traced to the interner", "repeated keys found shared", "large documents in streams", "graphs with many properties"},
		Rule:     "two to five graphs encoded one after the other into one stream, within an array or within an object, in both forms, with white space, other values or foreign bytes in between and afterwards; read by one decoder (at times in chunks of a few bytes) with codecs that have no interner, a shared one or one that returns strings of its own; every case is non-trivial"})
}
