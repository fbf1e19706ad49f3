// Package props states the properties of gostl as generated checks.
package props

import (
	"fmt"
	"math"
	"strings"

	"github.com/liyue201/gostl/utils/comparator"
	"verifharness/pbt"
)

type T = pbt.T

// Key has an order class O and an identity I the comparator does not see.
type Key struct{ O, I int }

func (k Key) String() string { return fmt.Sprintf("%d'%d", k.O, k.I) }

// dom is a generated key domain: keys and their order.
type dom[K any] struct {
	name string
	gen  func() K         // a key to insert
	near func(K) K        // a key close to k
	at   func(i int) K    // the i-th key of an ascending run
	cmp  func(a, b K) int // exactly -1, 0 or 1
	t    *T

	plain  bool    // the comparator is cmp itself, for use by several goroutines
	shared *shared // option values used for several containers, or nil
	armed  *int    // the comparator panics when this many calls are left (-1: never)
}

func (d *dom[K]) arm(calls int) { *d.armed = calls }
func (d *dom[K]) disarm()       { *d.armed = -1 }

func sgn(b bool) int {
	if b {
		return 1
	}
	return 0
}

func cmpInt(a, b int) int { return sgn(a > b) - sgn(a < b) }

// comparator as handed to gostl: counts its calls against the budget of the case. Some
// give their result as a difference would, with any positive or negative number.
func (d *dom[K]) cmpFn() comparator.Comparator[K] {
	if d.plain {
		return d.cmp
	}
	base, t, armed := d.cmp, d.t, d.armed
	cmp := base
	if t.Bool(1, 8) {
		far := []int{2, 100, 1 << 20, math.MaxInt}[t.IntN(4)]
		cmp = func(a, b K) int { return base(a, b) * far }
	}
	return func(a, b K) int {
		t.Tick()
		if armed != nil && *armed >= 0 {
			if *armed == 0 {
				panic("comparator panics")
			}
			*armed--
		}
		return cmp(a, b)
	}
}

// spread draws how many different keys a case uses.
func spread(t *T) int {
	return []int{2, 1, 4, 9, 30, 200, 3000}[t.Pick(3, 1, 4, 4, 4, 2, 1)]
}

func newIntDom(t *T) *dom[int] {
	w := spread(t)
	d := &dom[int]{t: t}
	base := 0
	extreme := t.Bool(1, 6)
	rev := t.Bool(1, 4)
	d.cmp = cmpInt
	if rev {
		d.cmp = func(a, b int) int { return cmpInt(b, a) }
	}
	d.name = fmt.Sprintf("int/%d", w)
	pick := func(i int) int {
		if extreme {
			switch i % 4 {
			case 0:
				return -1 << 63 >> 0
			case 1:
				return 1<<63 - 1
			case 2:
				return -i
			}
		}
		return base + i
	}
	d.gen = func() int { return pick(t.IntN(w)) }
	d.near = func(k int) int { return k + t.IntN(3) - 1 }
	d.at = func(i int) int {
		if rev {
			return -i
		}
		return i
	}
	if extreme {
		d.near = func(k int) int { return pick(t.IntN(w)) }
	}
	return d
}

func newStrDom(t *T) *dom[string] {
	w := spread(t)
	d := &dom[string]{t: t, name: fmt.Sprintf("string/%d", w), cmp: strings.Compare}
	enc := func(i int) string {
		if i == 0 {
			return ""
		}
		s := ""
		for ; i > 0; i /= 3 {
			s += string("a\x00\xff"[i%3])
		}
		return s
	}
	d.gen = func() string { return enc(t.IntN(w)) }
	d.near = func(k string) string {
		if t.Bool(1, 2) || len(k) == 0 {
			return k + "\x00"
		}
		return k[:len(k)-1]
	}
	d.at = func(i int) string { return fmt.Sprintf("%08d", i) }
	return d
}

// keys whose order classes hold many distinguishable members
func newKeyDom(t *T) *dom[Key] {
	w := spread(t)
	id := 0
	d := &dom[Key]{t: t, name: fmt.Sprintf("key/%d", w)}
	d.cmp = func(a, b Key) int { return cmpInt(a.O, b.O) }
	d.gen = func() Key { id++; return Key{t.IntN(w), id} }
	d.near = func(k Key) Key { id++; return Key{k.O + t.IntN(3) - 1, id} }
	d.at = func(i int) Key { id++; return Key{i, id} }
	return d
}

// withDom runs one of the generic functions with a generated key domain.
func withDom(t *T, i func(*dom[int]), s func(*dom[string]), k func(*dom[Key])) {
	switch t.Pick(3, 2, 4) {
	case 0:
		i(newIntDom(t))
	case 1:
		s(newStrDom(t))
	default:
		k(newKeyDom(t))
	}
}

// entry is a pair of the reference model.
type entry[K any] struct {
	k  K
	v  int
	id int // identity of the element
}

// omodel is a sorted list of pairs, equal keys in insertion order.
type omodel[K any] struct {
	es  []entry[K]
	cmp func(a, b K) int
	ids int
}

func (m *omodel[K]) lower(k K) int {
	lo, hi := 0, len(m.es)
	for lo < hi {
		mid := (lo + hi) / 2
		if m.cmp(m.es[mid].k, k) < 0 {
			lo = mid + 1
		} else {
			hi = mid
		}
	}
	return lo
}

func (m *omodel[K]) upper(k K) int {
	lo, hi := 0, len(m.es)
	for lo < hi {
		mid := (lo + hi) / 2
		if m.cmp(m.es[mid].k, k) <= 0 {
			lo = mid + 1
		} else {
			hi = mid
		}
	}
	return lo
}

func (m *omodel[K]) has(k K) bool { return m.lower(k) < m.upper(k) }

func (m *omodel[K]) insertAt(i int, e entry[K]) {
	m.es = append(m.es, e)
	copy(m.es[i+1:], m.es[i:])
	m.es[i] = e
}

func (m *omodel[K]) insert(k K, v int) {
	m.ids++
	m.insertAt(m.upper(k), entry[K]{k, v, m.ids})
}

func (m *omodel[K]) removeAt(i int) { m.es = append(m.es[:i], m.es[i+1:]...) }

func insertSlice[E any](s []E, i int, e E) []E {
	s = append(s, e)
	copy(s[i+1:], s[i:])
	s[i] = e
	return s
}

func removeSlice[E any](s []E, i int) []E {
	return append(append([]E(nil), s[:i]...), s[i+1:]...)
}

func cloneSlice[E any](s []E) []E { return append([]E(nil), s...) }

func eqSlice[E comparable](a, b []E) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// str shows a slice, abbreviated.
func str[E any](s []E) string {
	if len(s) > 60 {
		return fmt.Sprintf("%v... (%d elements)", s[:60], len(s))
	}
	return fmt.Sprintf("%v", s)
}

// listString is the string form all sequences share.
func listString[E any](s []E) string {
	var b strings.Builder
	b.WriteByte('[')
	for i, e := range s {
		if i > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "%v", e)
	}
	b.WriteByte(']')
	return b.String()
}

// given remembers slices a container gave out, to see that they stay as given while
// the container changes.
type given[E any] struct {
	eq   func(a, b E) bool
	kept []keptSlice[E]
}

type keptSlice[E any] struct {
	what      string
	got, want []E
}

func (k *given[E]) keep(what string, s []E) {
	if len(k.kept) == 4 {
		k.kept = k.kept[1:]
	}
	k.kept = append(k.kept, keptSlice[E]{what, s, append([]E(nil), s...)})
}

func (k *given[E]) verify(t *T) {
	for _, g := range k.kept {
		for i, w := range g.want {
			if !k.eq(g.got[i], w) {
				t.Failf("a slice %s gave earlier has changed since: element %d of %d was %v, is %v", g.what, i, len(g.want), w, g.got[i])
			}
		}
	}
}
