package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"

	"github.com/cloudprivacylabs/lpg/v2"
)

// C21: the order of property values.

var extremeInts = []int{0, 1, -1, 2, -2, 10, math.MaxInt, math.MinInt, math.MaxInt - 1, math.MinInt + 1, 1 << 32, -(1 << 32), 1 << 53, 1<<53 + 1}
var oddStrings = []string{"", "a", "b", "ab", "aa", "A", "\x00", "a\x00", "\xff", "\u00e9", "e\u0301", "10", "9", "zz", " a"}

// kinds: what a generated value holds.
const (
	kInt = iota
	kStr
	kIntList
	kStrList
	kNested // lists of lists and scalars, element by element of fixed kinds
	nKinds
)

func genOfKind(ch *Ch, kind, depth int) interface{} {
	var v interface{}
	switch kind {
	case kInt:
		if ch.P(1, 2) {
			v = extremeInts[ch.N(len(extremeInts))]
		} else {
			v = ch.N(5) - 2
		}
	case kStr:
		v = oddStrings[ch.N(len(oddStrings))]
		if ch.P(1, 10) {
			v = longStr(&Rnd{uint64(ch.U())})
		}
	case kIntList, kStrList:
		n := ch.N(4)
		if ch.P(1, 10) {
			l := longInts(&Rnd{uint64(ch.U())})
			ss := make([]string, len(l))
			for i := range l {
				ss[i] = oddStrings[l[i]]
			}
			switch {
			case kind == kIntList && ch.P(1, 2):
				v = l
			case kind == kIntList:
				v = anyList(l)
			case ch.P(1, 2):
				v = ss
			default:
				v = anyList(ss)
			}
			break
		}
		el := kInt
		if kind == kStrList {
			el = kStr
		}
		rep := ch.N(3)
		if rep == 2 {
			l := make([]interface{}, n)
			for i := range l {
				l[i] = genOfKind(ch, el, depth+1)
			}
			v = l
			break
		}
		if kind == kIntList {
			l := make([]int, n)
			for i := range l {
				l[i] = ch.N(3) - 1
				if ch.P(1, 6) {
					l[i] = extremeInts[ch.N(len(extremeInts))]
				}
			}
			v = l
		} else {
			l := make([]string, n)
			for i := range l {
				l[i] = oddStrings[ch.N(len(oddStrings))]
			}
			v = l
		}
	case kNested:
		n := ch.N(4)
		if ch.P(1, 12) {
			n = 4 + ch.N(12)
		}
		l := make([]interface{}, n)
		for i := range l {
			// position fixes the kind, so two such lists are comparable
			k := []int{kInt, kIntList, kStr, kStrList}[i%4]
			l[i] = genOfKind(ch, k, depth+1)
		}
		v = l
	}
	if ch.P(1, 4) {
		v = Native{v}
		if ch.P(1, 4) {
			v = Native{v}
		}
	}
	return v
}

// related makes a value close to v: equal in another spelling, or changed in
// one place, so that equality and late differences are common.
func related(ch *Ch, v interface{}, kind int) interface{} {
	switch ch.N(4) {
	case 0:
		return genOfKind(ch, kind, 0)
	case 1:
		r := &Rnd{uint64(ch.U())}
		return respell(r, v)
	}
	n, _, ok := refNorm(v)
	if !ok {
		return v
	}
	c := deepCopy(n)
	if l, ok := c.([]interface{}); ok {
		switch ch.N(4) {
		case 0:
			if len(l) > 0 {
				return l[:len(l)-1]
			}
		case 1:
			if len(l) > 0 {
				i := len(l) - 1
				if ch.P(2, 3) {
					i = ch.N(len(l))
				}
				switch x := l[i].(type) {
				case int:
					l[i] = x + ch.N(3) - 1
				case string:
					l[i] = x + []string{"", "a", "\x00"}[ch.N(3)]
				}
			}
		}
		return l
	}
	switch x := c.(type) {
	case int:
		return x + ch.N(3) - 1
	case string:
		if len(x) > 4 && ch.P(1, 2) {
			b := []byte(x)
			b[ch.N(len(b))] ^= 1
			return string(b)
		}
		return x + []string{"", "a", "\x00"}[ch.N(3)]
	}
	return c
}

func deepCopy(v interface{}) interface{} {
	switch x := v.(type) {
	case Native:
		return Native{deepCopy(x.V)}
	case []int:
		return append(make([]int, 0, len(x)), x...)
	case []string:
		return append(make([]string, 0, len(x)), x...)
	case []interface{}:
		l := make([]interface{}, len(x))
		for i := range x {
			l[i] = deepCopy(x[i])
		}
		return l
	}
	return v
}

// ambiguous holds for pairs the property leaves open: an empty typed list
// against a list typed otherwise, at any level.
func ambiguous(a, b interface{}) bool {
	for {
		n, ok := a.(Native)
		if !ok {
			break
		}
		a = n.V
	}
	for {
		n, ok := b.(Native)
		if !ok {
			break
		}
		b = n.V
	}
	_, ai := a.([]int)
	_, as := a.([]string)
	_, bi := b.([]int)
	_, bs := b.([]string)
	if ai && bs || as && bi {
		return reflect.ValueOf(a).Len() == 0 || reflect.ValueOf(b).Len() == 0
	}
	la, ok1 := a.([]interface{})
	lb, ok2 := b.([]interface{})
	if ok1 && ok2 {
		for i := 0; i < len(la) && i < len(lb); i++ {
			if ambiguous(la[i], lb[i]) {
				return true
			}
		}
	}
	return false
}

func sign(x int) int {
	if x < 0 {
		return -1
	}
	if x > 0 {
		return 1
	}
	return 0
}

func cmpMonitored(a, b interface{}, st *Stats) (int, bool, error) {
	ca, cb := deepCopy(a), deepCopy(b)
	var r int
	_, did := panics(func() { r = lpg.ComparePropertyValue(a, b) })
	if !reflect.DeepEqual(a, ca) || !reflect.DeepEqual(b, cb) {
		return 0, false, fmt.Errorf("comparing %s and %s modified an argument", fmtVal(ca), fmtVal(cb))
	}
	st.Inc("comparisons", 1)
	return sign(r), !did, nil
}

func init() {
	register(&Check{ID: "C21", Quick: 1700000, Thorough: 30000000,
		Required: []string{"equal", "less", "greater", "refused", "transitive triples"},
		Rule:     "triples of generated values, of one kind (often differing late or only in spelling) or of mixed kinds; a case is non-trivial when at least one pair is comparable, and distinct by the three values",
		Gen:      func(r *rand.Rand, idx int) *Case { return &Case{Q: randQ(r, 60)} },
		Run: func(c *Case, st *Stats) error {
			ch := &Ch{v: c.Q}
			k := [3]int{}
			k[0] = ch.N(nKinds)
			k[1], k[2] = k[0], k[0]
			if ch.P(1, 4) {
				k[1], k[2] = ch.N(nKinds), ch.N(nKinds)
			}
			var v [3]interface{}
			v[0] = genOfKind(ch, k[0], 0)
			for i := 1; i < 3; i++ {
				if k[i] == k[0] && ch.P(2, 3) {
					v[i] = related(ch, v[ch.N(i)], k[i])
				} else {
					v[i] = genOfKind(ch, k[i], 0)
				}
			}
			if st.logging {
				st.Logf("%s, %s, %s", fmtVal(v[0]), fmtVal(v[1]), fmtVal(v[2]))
			}
			var s [3][3]int
			var ok [3][3]bool
			any := false
			for i := range v {
				for j := range v {
					if ambiguous(v[i], v[j]) {
						st.Inc("left open", 1)
						continue
					}
					got, gok, err := cmpMonitored(v[i], v[j], st)
					if err != nil {
						return err
					}
					want, wok := refCompare(v[i], v[j])
					if gok != wok {
						return fmt.Errorf("comparing %s and %s: compared=%v (%d), expected comparable=%v", fmtVal(v[i]), fmtVal(v[j]), gok, got, wok)
					}
					if !wok {
						st.Inc("refused", 1)
						continue
					}
					any = true
					if got != want {
						return fmt.Errorf("comparing %s and %s: %d, expected %d", fmtVal(v[i]), fmtVal(v[j]), got, want)
					}
					st.Inc([]string{"less", "equal", "greater"}[got+1], 1)
					s[i][j], ok[i][j] = got, true
				}
			}
			for i := range v {
				for j := range v {
					if ok[i][j] && ok[j][i] && s[i][j] != -s[j][i] {
						return fmt.Errorf("%s and %s: not antisymmetric", fmtVal(v[i]), fmtVal(v[j]))
					}
					for l := range v {
						if ok[i][j] && ok[j][l] && ok[i][l] && s[i][j] <= 0 && s[j][l] <= 0 {
							st.Inc("transitive triples", 1)
							if s[i][l] > 0 {
								return fmt.Errorf("%s, %s, %s: not transitive", fmtVal(v[i]), fmtVal(v[j]), fmtVal(v[l]))
							}
						}
					}
				}
			}
			// values that are no comparable kind at all
			alien := []interface{}{nil, 1.5, true, opaque{1}, map[string]int{}}[ch.N(5)]
			for _, p := range [][2]interface{}{{v[0], alien}, {alien, v[0]}} {
				got, gok, err := cmpMonitored(p[0], p[1], st)
				if err != nil {
					return err
				}
				if gok {
					return fmt.Errorf("comparing %s and %s: reported %d, expected a refusal", fmtVal(p[0]), fmtVal(p[1]), got)
				}
				st.Inc("refused", 1)
			}
			if any {
				st.Sig(fmtVal(v[0]), fmtVal(v[1]), fmtVal(v[2]))
			}
			return nil
		}})
}
