package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
)

// Op is one step of a generated history. Its parameters are drawn up front and
// interpreted modulo the current state, so that any subsequence of a history is
// again a history: shrinking is deletion.
type Op struct {
	K uint8
	P [6]uint32
}

// Case is one generated execution: a history of updates and a choice sequence
// for whatever the check does with the result.
type Case struct {
	Idx int
	Ops []Op
	Q   []uint32
}

// Ch reads a choice sequence; an exhausted sequence reads as zeros.
type Ch struct {
	v []uint32
	i int
}

func (c *Ch) U() uint32 {
	if c.i >= len(c.v) {
		c.i++
		return 0
	}
	x := c.v[c.i]
	c.i++
	return x
}

func (c *Ch) N(n int) int {
	if n <= 0 {
		c.U()
		return 0
	}
	return int(c.U() % uint32(n))
}

func (c *Ch) P(num, den int) bool { return c.N(den) < num }

func (c *Ch) Done() bool { return c.i >= len(c.v) }

// Stats is what the monitors observed.
type Stats struct {
	Counters map[string]int64
	Sigs     map[uint64]struct{}
	Samples  []string
	log      []string
	logging  bool
}

func newStats() *Stats {
	return &Stats{Counters: map[string]int64{}, Sigs: map[uint64]struct{}{}}
}

func (s *Stats) Inc(k string, n int) { s.Counters[k] += int64(n) }

// traceLive makes a replay print its log as it goes, for a case that hangs.
var traceLive = os.Getenv("VERIF_TRACE") != ""

func (s *Stats) Logf(f string, a ...interface{}) {
	if s.logging {
		s.log = append(s.log, fmt.Sprintf(f, a...))
		if traceLive {
			fmt.Fprintf(os.Stderr, f+"\n", a...)
		}
	}
}

// Sig records that a non-trivial case with this content was executed.
func (s *Stats) Sig(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprint(h, p, "|")
	}
	s.Sigs[h.Sum64()] = struct{}{}
}

func hashCase(c *Case) uint64 {
	h := fnv.New64a()
	var b [8]byte
	for _, o := range c.Ops {
		h.Write([]byte{o.K})
		for _, p := range o.P {
			binary.LittleEndian.PutUint32(b[:], p)
			h.Write(b[:4])
		}
	}
	for _, q := range c.Q {
		binary.LittleEndian.PutUint32(b[:], q)
		h.Write(b[:4])
	}
	return h.Sum64()
}

// Check decides one property.
type Check struct {
	ID       string
	Quick    int
	Thorough int
	Gen      func(r *rand.Rand, idx int) *Case
	Run      func(c *Case, st *Stats) error
	Required []string
	Rule     string
	Race     bool
	Jobs     int  // at most this many workers, if not zero
	NoShrink bool // cases are too slow to run over and over
	Assume   []string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

func caseRng(seed int64, id string, idx int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, id, idx)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// runCase executes one case; a panic that escapes the library is a violation.
func runCase(ck *Check, c *Case, st *Stats) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if hb, ok := r.(harnessBug); ok {
				fmt.Fprintf(os.Stderr, "HARNESS BUG: %v\n%s\n", hb.msg, debug.Stack())
				os.Exit(70)
			}
			err = fmt.Errorf("unexpected panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return ck.Run(c, st)
}

type harnessBug struct{ msg string }

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// failsAgain re-runs a candidate a few times: the library iterates Go maps, so
// a violation may depend on map order.
func failsAgain(ck *Check, c *Case, tries int) error {
	for i := 0; i < tries; i++ {
		if err := runCase(ck, c, newStats()); err != nil {
			return err
		}
	}
	return nil
}

func shrink(ck *Check, c *Case, budget int) *Case {
	cur := &Case{Idx: c.Idx, Ops: append([]Op{}, c.Ops...), Q: append([]uint32{}, c.Q...)}
	tries := 3
	test := func(n *Case) bool {
		if budget <= 0 {
			return false
		}
		budget--
		return failsAgain(ck, n, tries) != nil
	}
	for changed := true; changed && budget > 0; {
		changed = false
		for sz := len(cur.Ops) / 2; sz >= 1; sz /= 2 {
			for i := 0; i+sz <= len(cur.Ops); {
				n := &Case{Idx: cur.Idx, Q: cur.Q}
				n.Ops = append(append([]Op{}, cur.Ops[:i]...), cur.Ops[i+sz:]...)
				if test(n) {
					cur = n
					changed = true
				} else {
					i += sz
				}
			}
		}
		for sz := len(cur.Q) / 2; sz >= 1; sz /= 2 {
			for i := 0; i+sz <= len(cur.Q); {
				n := &Case{Idx: cur.Idx, Ops: cur.Ops}
				n.Q = append(append([]uint32{}, cur.Q[:i]...), cur.Q[i+sz:]...)
				if test(n) {
					cur = n
					changed = true
				} else {
					i += sz
				}
			}
		}
		for i := range cur.Q {
			if cur.Q[i] == 0 {
				continue
			}
			n := &Case{Idx: cur.Idx, Ops: cur.Ops, Q: append([]uint32{}, cur.Q...)}
			n.Q[i] = 0
			if test(n) {
				cur = n
				changed = true
			}
		}
	}
	return cur
}

// Violation is what a replay file holds.
type Violation struct {
	Property string   `json:"property"`
	Seed     int64    `json:"seed"`
	Idx      int      `json:"case"`
	Kind     string   `json:"kind"`
	Message  string   `json:"message"`
	Log      []string `json:"log,omitempty"`
	Case     *Case    `json:"input,omitempty"`
	Original *Case    `json:"original_input,omitempty"`
}

func mustJSON(v interface{}) []byte {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(harnessBug{err.Error()})
	}
	return b
}

func sortedKeys(m map[string]int64) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func randQ(r *rand.Rand, n int) []uint32 {
	q := make([]uint32, n)
	for i := range q {
		q[i] = r.Uint32() >> 1
	}
	return q
}
