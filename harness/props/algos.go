package props

import (
	"fmt"
	"math/bits"
	"sort"

	"github.com/liyue201/gostl/algorithm"
	gsort "github.com/liyue201/gostl/algorithm/sort"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	"github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/utils/iterator"
	"verifharness/pbt"
)

// guard is a caller's own random-access container whose iterators allow
// reading and writing only inside one range.
type guard[E comparable] struct {
	t                    *T
	s                    []E
	lo, hi               int
	reads, writes, moves int
}

type guardIt[E comparable] struct {
	g *guard[E]
	p int
}

func (x *guardIt[E]) in(what string) {
	if x.p < x.g.lo || x.p >= x.g.hi {
		x.g.t.Failf("position %d is %s, outside the range [%d, %d)", x.p, what, x.g.lo, x.g.hi)
	}
	x.g.t.Tick()
}
func (x *guardIt[E]) IsValid() bool { return x.p >= 0 && x.p < len(x.g.s) }
func (x *guardIt[E]) Value() E      { x.in("read"); x.g.reads++; return x.g.s[x.p] }
func (x *guardIt[E]) SetValue(v E)  { x.in("written"); x.g.writes++; x.g.s[x.p] = v }
func (x *guardIt[E]) Next() iterator.ConstIterator[E] {
	x.g.t.Tick()
	x.g.moves++
	if x.p < len(x.g.s) {
		x.p++
	}
	return x
}
func (x *guardIt[E]) Prev() iterator.ConstBidIterator[E] {
	x.g.t.Tick()
	x.g.moves++
	if x.p >= 0 {
		x.p--
	}
	return x
}
func (x *guardIt[E]) Clone() iterator.ConstIterator[E] { return &guardIt[E]{x.g, x.p} }
func (x *guardIt[E]) Equal(o iterator.ConstIterator[E]) bool {
	y, ok := o.(*guardIt[E])
	return ok && y.g == x.g && y.p == x.p
}
func (x *guardIt[E]) IteratorAt(p int) iterator.RandomAccessIterator[E] {
	return &guardIt[E]{x.g, p}
}
func (x *guardIt[E]) Position() int { return x.p }

// span is a range of a random-access container.
type span[E comparable] struct {
	t        *T
	kind     string
	before   []E // the whole container
	lo, hi   int
	contents func() []E
	iter     func(int) iterator.RandomAccessIterator[E]
	guard    *guard[E]
	ways     []func() iterator.RandomAccessIterator[E] // begin, end
	a, b     iterator.RandomAccessIterator[E]          // what ends gave last
}

var spanKinds = []string{"guarded", "array", "slice", "vector", "deque"}

// newSpan puts vals into a container of a generated kind and picks a range.
func newSpan[E comparable](t *T, vals []E) *span[E] {
	sp := &span[E]{t: t, kind: spanKinds[t.Variant(len(spanKinds))], before: cloneSlice(vals)}
	n := len(vals)
	switch t.Pick(5, 3, 1, 1) {
	case 0:
		sp.lo, sp.hi = 0, n
	case 1:
		a, b := t.IntN(n+1), t.IntN(n+1)
		sp.lo, sp.hi = min(a, b), max(a, b)
	case 2:
		sp.lo = t.IntN(n + 1)
		sp.hi = min(sp.lo+t.IntN(4), n)
	case 3:
		sp.lo, sp.hi = min(t.IntN(3), n), max(n-t.IntN(3), min(3, n))
		if sp.lo > sp.hi {
			sp.lo = sp.hi
		}
	}
	if sp.kind == "guarded" {
		g := &guard[E]{t: t, s: cloneSlice(vals), lo: sp.lo, hi: sp.hi}
		sp.guard = g
		sp.contents = func() []E { return g.s }
		sp.iter = func(p int) iterator.RandomAccessIterator[E] { return &guardIt[E]{g, p} }
	} else {
		s := newSeq(sp.kind, vals, t.IntN(n+1))
		sp.contents, sp.iter = s.contents, s.iter
		if sp.lo == 0 && t.Bool(1, 2) {
			sp.ways = append(sp.ways, s.begin)
			if sp.hi == n {
				sp.ways = append(sp.ways, s.end)
			}
		}
	}
	t.Log("%s, range [%d, %d) of %s", sp.kind, sp.lo, sp.hi, str(vals))
	t.Class(sp.kind)
	t.ClassIf(sp.lo > 0 || sp.hi < n, "proper sub-range")
	t.ClassIf(sp.hi-sp.lo <= 1, "empty or one element")
	return sp
}

func (sp *span[E]) len() int { return sp.hi - sp.lo }

// ends returns fresh iterators on the range.
func (sp *span[E]) ends() (a, b iterator.RandomAccessIterator[E]) {
	a, b = sp.iter(sp.lo), sp.iter(sp.hi)
	if len(sp.ways) > 0 {
		a = sp.ways[0]()
	}
	if len(sp.ways) > 1 {
		b = sp.ways[1]()
	}
	sp.a, sp.b = a, b
	return
}

// inside returns the range's elements and checks that the rest is as before, and
// that the caller's iterators stand where they stood.
func (sp *span[E]) inside(what string) []E {
	c := sp.contents()
	if sp.a != nil && (sp.a.Position() != sp.lo || sp.b.Position() != sp.hi) {
		sp.t.Failf("%s on [%d, %d) of a %s moves the caller's iterators to %d and %d", what, sp.lo, sp.hi, sp.kind, sp.a.Position(), sp.b.Position())
	}
	if len(c) != len(sp.before) {
		sp.t.Failf("%s on a %s: %d elements became %d", what, sp.kind, len(sp.before), len(c))
	}
	for i := range c {
		if (i < sp.lo || i >= sp.hi) && c[i] != sp.before[i] {
			sp.t.Failf("%s on [%d, %d) of a %s of %d: element %d outside the range changed from %v to %v", what, sp.lo, sp.hi, sp.kind, len(c), i, sp.before[i], c[i])
		}
	}
	return cloneSlice(c[sp.lo:sp.hi])
}

func (sp *span[E]) unchanged(what string) {
	in := sp.inside(what)
	for i, v := range in {
		if v != sp.before[sp.lo+i] {
			sp.t.Failf("%s on [%d, %d) of a %s changed element %d from %v to %v", what, sp.lo, sp.hi, sp.kind, sp.lo+i, sp.before[sp.lo+i], v)
		}
	}
}

// permuted checks that the range holds what it held.
func (sp *span[E]) permuted(what string, now []E) {
	n := map[E]int{}
	for _, v := range sp.before[sp.lo:sp.hi] {
		n[v]++
	}
	for _, v := range now {
		n[v]--
		if n[v] < 0 {
			sp.t.Failf("%s on a %s: %v occurs more often than before; %s became %s", what, sp.kind, v, str(sp.before[sp.lo:sp.hi]), str(now))
		}
	}
}

// values draws a slice of values in one of several patterns.
func values[K comparable](t *T, d *dom[K], maxN int) []K {
	n := t.Size(maxN)
	pat := t.IntN(8)
	out := make([]K, 0, n)
	if pat < 4 || n <= 8 {
		for i := 0; i < n; i++ {
			out = append(out, d.gen())
		}
		if pat == 3 { // sorted
			sort.SliceStable(out, func(i, j int) bool { return d.cmp(out[i], out[j]) < 0 })
		}
		return out
	}
	r := pbt.NewRng(uint64(t.IntN(1000)))
	m := 1 + t.IntN(n)
	for i := 0; i < n; i++ {
		j := i
		switch pat {
		case 4:
			j = n - i
		case 5: // organ pipe
			j = min(i, n-i)
		case 6: // saw
			j = i % m
		case 7: // random from m
			j = int(r.N(uint64(m)))
		}
		out = append(out, d.at(j))
	}
	if t.Bool(1, 3) { // a few out of place
		for i := 0; i < 1+t.IntN(4); i++ {
			a, b := t.IntN(n), t.IntN(n)
			out[a], out[b] = out[b], out[a]
		}
	}
	return out
}

// anyDom runs one of the generic functions, which need comparable keys.
func anyDom(t *T, i func(*dom[int]), s func(*dom[string]), k func(*dom[Key])) { withDom(t, i, s, k) }

func (d *dom[K]) has(in []K, tie bool) bool {
	for i := 1; i < len(in); i++ {
		c := d.cmp(in[i-1], in[i])
		if tie && c == 0 || !tie && c > 0 {
			return true
		}
	}
	return false
}

func sortedCopy[K any](d *dom[K], s []K) []K {
	out := cloneSlice(s)
	sort.SliceStable(out, func(i, j int) bool { return d.cmp(out[i], out[j]) < 0 })
	return out
}

// ---- C30, C31

func runSort[K comparable](t *T, d *dom[K], stable bool, maxN int) {
	vals := values(t, d, maxN)
	sp := newSpan(t, vals)
	a, b := sp.ends()
	in := cloneSlice(vals[sp.lo:sp.hi])
	want := sortedCopy(d, in)
	what := "Sort"
	if stable {
		what = "Stable"
		gsort.Stable[K](a, b, d.cmpFn())
	} else {
		gsort.Sort[K](a, b, d.cmpFn())
	}
	got := sp.inside(what)
	for i := 1; i < len(got); i++ {
		if d.cmp(got[i-1], got[i]) > 0 {
			t.Failf("%s of %s on a %s gives %s: elements %d and %d are out of order", what, str(in), sp.kind, str(got), i-1, i)
		}
	}
	sp.permuted(what, got)
	if stable {
		for i := range want {
			if got[i] != want[i] {
				t.Failf("Stable of %s on a %s gives %s, expected %s", str(in), sp.kind, str(got), str(want))
			}
		}
	}
	tie := d.has(want, true)
	t.ClassIf(tie, "ties")
	t.ClassIf(len(in) >= 50, "50 or more elements")
	if d.has(in, false) && (!stable || tie) {
		t.NonTrivial()
	}
}

// ---- C32

func runSearch[K comparable](t *T, d *dom[K], maxN int) {
	vals := values(t, d, maxN)
	sp := newSpan(t, vals)
	// only the range itself has to be sorted
	copy(vals[sp.lo:sp.hi], sortedCopy(d, vals[sp.lo:sp.hi]))
	in := vals[sp.lo:sp.hi]
	copy(sp.before, vals)
	if sp.guard != nil {
		copy(sp.guard.s, vals)
	} else {
		for i, v := range vals {
			sp.iter(i).SetValue(v)
		}
	}
	limit := 4*bits.Len(uint(sp.len())) + 8
	cmps := 0
	cmp := func(a, b K) int { t.Tick(); cmps++; return d.cmp(a, b) }
	present, absent, beyond := false, false, false
	t.Repeat(1, 10, func(int) {
		v := d.gen()
		if len(vals) > 0 && t.Bool(2, 3) {
			v = vals[t.IntN(len(vals))]
			if len(in) > 0 && t.Bool(3, 4) {
				v = in[t.IntN(len(in))]
			}
			if t.Bool(1, 2) {
				v = d.near(v)
			}
		}
		a, b := sp.ends()
		lo := sort.Search(len(in), func(i int) bool { return d.cmp(in[i], v) >= 0 })
		hi := sort.Search(len(in), func(i int) bool { return d.cmp(in[i], v) > 0 })
		t.Log("search %v", v)
		present, absent = present || lo < hi, absent || lo == hi
		beyond = beyond || lo == len(in)
		check := func(what string, f func() string) {
			cmps = 0
			if sp.guard != nil {
				sp.guard.moves, sp.guard.reads = 0, 0
			}
			if p := f(); p != "" {
				t.Failf("%s(%v) on [%d, %d) of a %s of %s: %s", what, v, sp.lo, sp.hi, sp.kind, str(vals), p)
			}
			if cmps > limit {
				t.Failf("%s(%v) on a range of %d makes %d comparisons", what, v, sp.len(), cmps)
			}
			if g := sp.guard; g != nil {
				if g.moves > 8*limit || g.reads > 4*limit || g.writes > 0 {
					t.Failf("%s(%v) on a range of %d makes %d moves, %d reads and %d writes", what, v, sp.len(), g.moves, g.reads, g.writes)
				}
			}
			sp.unchanged(what)
			if a.Position() != sp.lo || b.Position() != sp.hi {
				t.Failf("%s(%v) moves the caller's iterators to %d and %d from %d and %d", what, v, a.Position(), b.Position(), sp.lo, sp.hi)
			}
		}
		at := func(x iterator.RandomAccessIterator[K], i int) string {
			if x.Position() != sp.lo+i || !x.Equal(sp.iter(sp.lo+i)) {
				return fmt.Sprintf("gives position %d, expected %d", x.Position(), sp.lo+i)
			}
			if i == len(in) && !x.Equal(b) {
				return "is not equal to the end of the range"
			}
			return ""
		}
		check("BinarySearch", func() string {
			if g := gsort.BinarySearch[K](a, b, v, cmp); g != (lo < hi) {
				return fmt.Sprintf("is %v", g)
			}
			return ""
		})
		check("LowerBound", func() string { return at(gsort.LowerBound[K](a, b, v, cmp), lo) })
		check("UpperBound", func() string { return at(gsort.UpperBound[K](a, b, v, cmp), hi) })
	})
	t.ClassIf(present, "value present")
	t.ClassIf(absent, "value absent")
	t.ClassIf(beyond, "value greater than the range")
	t.ClassIf(d.has(in, true), "ties")
	t.ClassIf(len(in) >= 100, "100 or more elements")
	if len(in) >= 3 && present && absent {
		t.NonTrivial()
	}
}

// ---- C33

func runNth[K comparable](t *T, d *dom[K], maxN int) {
	vals := values(t, d, maxN)
	sp := newSpan(t, vals)
	in := cloneSlice(vals[sp.lo:sp.hi])
	if len(in) == 0 {
		a, b := sp.ends()
		gsort.NthElement[K](a, b, 0, d.cmpFn())
		sp.unchanged("NthElement")
		return
	}
	a, b := sp.ends()
	if t.Bool(1, 12) { // there is no such element
		n := []int{len(in) + 1, len(in) + 2, 2*len(in) + 1, 1 << 40, 1<<63 - 1, len(in), -1, -len(in), -1 << 63}[t.IntN(9)]
		t.Log("n = %d, outside", n)
		gsort.NthElement[K](a, b, n, d.cmpFn())
		if n > len(in) {
			sp.unchanged("NthElement")
		} else {
			sp.permuted("NthElement", sp.inside("NthElement"))
		}
		t.Class("n outside the range")
		return
	}
	n := pos(t, len(in))
	want := sortedCopy(d, in)[n]
	t.Log("n = %d", n)
	gsort.NthElement[K](a, b, n, d.cmpFn())
	got := sp.inside("NthElement")
	sp.permuted("NthElement", got)
	if d.cmp(got[n], want) != 0 {
		t.Failf("NthElement(%d) of %s on a %s gives %s: %v at %d, expected an equal of %v", n, str(in), sp.kind, str(got), got[n], n, want)
	}
	for i, v := range got {
		if i < n && d.cmp(v, got[n]) > 0 || i > n && d.cmp(v, got[n]) < 0 {
			t.Failf("NthElement(%d) of %s on a %s gives %s: %v at %d is on the wrong side", n, str(in), sp.kind, str(got), v, i)
		}
	}
	t.ClassIf(d.has(sortedCopy(d, in), true), "ties")
	t.ClassIf(n == 0 || n == len(in)-1, "n is an end")
	if len(in) >= 3 && d.has(in, false) {
		t.NonTrivial()
	}
}

// ---- C34

// nextPerm steps s to the next order of classes.
func nextPerm[K any](s []K, cmp func(a, b K) int) bool {
	i := len(s) - 2
	for i >= 0 && cmp(s[i], s[i+1]) >= 0 {
		i--
	}
	if i < 0 {
		return false
	}
	j := len(s) - 1
	for cmp(s[j], s[i]) <= 0 {
		j--
	}
	s[i], s[j] = s[j], s[i]
	for a, b := i+1, len(s)-1; a < b; a, b = a+1, b-1 {
		s[a], s[b] = s[b], s[a]
	}
	return true
}

func runPerm[K comparable](t *T, d *dom[K], maxN int) {
	vals := values(t, d, maxN)
	sp := newSpan(t, vals)
	in := vals[sp.lo:sp.hi]
	switch t.IntN(4) {
	case 0: // few steps from the last
		for i, v := range sortedCopy(d, in) {
			in[len(in)-1-i] = v
		}
		for i := 0; i < t.IntN(3) && len(in) > 1; i++ {
			a, b := t.IntN(len(in)), t.IntN(len(in))
			in[a], in[b] = in[b], in[a]
		}
	case 1: // a descending tail
		if len(in) > 2 {
			k := t.IntN(len(in) - 1)
			tail := sortedCopy(d, in[k:])
			for i, v := range tail {
				in[len(in)-1-i] = v
			}
		}
	}
	copy(sp.before, vals)
	if sp.guard != nil {
		copy(sp.guard.s, vals)
	} else {
		for i, v := range vals {
			sp.iter(i).SetValue(v)
		}
	}
	a, b := sp.ends()
	fresh := t.Bool(1, 2)
	m := cloneSlice(in)
	stepped, ended := 0, false
	t.Repeat(1, 30, func(int) {
		was := cloneSlice(m)
		want := nextPerm(m, d.cmp)
		if fresh {
			a, b = sp.ends()
		}
		ok := gsort.NextPermutation[K](a, b, d.cmpFn())
		got := sp.inside("NextPermutation")
		if ok != want {
			t.Failf("NextPermutation of %s on a %s returns %v and leaves %s", str(was), sp.kind, ok, str(got))
		}
		sp.permuted("NextPermutation", got)
		for i := range got {
			if d.cmp(got[i], m[i]) != 0 || !ok && got[i] != was[i] {
				t.Failf("NextPermutation of %s on a %s gives %s, expected %s", str(was), sp.kind, str(got), str(m))
			}
		}
		copy(m, got)
		if ok {
			stepped++
		} else {
			ended = true
		}
	})
	t.ClassIf(ended, "reached the last permutation")
	t.ClassIf(stepped > 1, "several steps")
	t.ClassIf(d.has(sortedCopy(d, in), true), "ties")
	if len(in) >= 3 && stepped > 0 {
		t.NonTrivial()
	}
}

// runAllPerms goes through all arrangements from the sorted one.
func runAllPerms(t *T) {
	n := t.IntN(7)
	if t.Thorough() {
		n = t.IntN(9)
	}
	w := 1 + t.IntN(n+1)
	vals := make([]Key, n)
	count := map[int]int{}
	for i := range vals {
		vals[i] = Key{t.IntN(w), i}
		count[vals[i].O]++
	}
	sort.SliceStable(vals, func(i, j int) bool { return vals[i].O < vals[j].O })
	want := 1
	for i := 2; i <= n; i++ {
		want *= i
	}
	for _, c := range count {
		for i := 2; i <= c; i++ {
			want /= i
		}
	}
	cmp := func(a, b Key) int { t.Tick(); return cmpInt(a.O, b.O) }
	pad := t.IntN(3)
	all := append(make([]Key, pad), vals...)
	all = append(all, make([]Key, t.IntN(3))...)
	kind := seqKinds[t.Variant(len(seqKinds))]
	s := newSeq(kind, all, t.IntN(len(all)+1))
	seen := map[string]bool{}
	classes := func() string {
		c := ""
		for i := 0; i < n; i++ {
			c += fmt.Sprint(s.at(pad + i).O)
		}
		return c
	}
	last := classes()
	seen[last] = true
	a, b := s.iter(pad), s.iter(pad+n)
	for gsort.NextPermutation[Key](a, b, cmp) {
		c := classes()
		if c <= last {
			t.Failf("%s: %s is followed by %s", kind, last, c)
		}
		last = c
		seen[c] = true
		if len(seen) > want {
			t.Failf("%s: more than %d arrangements of %v", kind, want, vals)
		}
	}
	if len(seen) != want {
		t.Failf("%s: %d of %d arrangements of %v are visited", kind, len(seen), want, vals)
	}
	t.ClassIf(len(count) < n, "ties")
	if n >= 3 && want > 1 {
		t.NonTrivial()
	}
}

// ---- C35

// crange is a container of any kind seen through const iterators.
type crange[E comparable] struct {
	kind     string
	all      func() []E
	first    func() iterator.ConstIterator[E]
	sequence bool // mutable: has set
	end      func() iterator.ConstIterator[E]
}

var crangeKinds = []string{"array", "slice", "vector", "deque", "bidlist", "simplelist", "rbtree", "map", "multimap", "set", "multiset"}

func newCrange[E comparable](t *T, d *dom[E], kind string, vals []E) *crange[E] {
	type ci = iterator.ConstIterator[E]
	keys := make([]int, len(vals))
	for i := range keys {
		keys[i] = i
		if kind == "rbtree" || kind == "multimap" {
			keys[i] = i / 2
		}
	}
	switch kind {
	case "bidlist":
		l := bidlist.New[E]()
		for _, v := range vals {
			l.PushBack(v)
		}
		return &crange[E]{kind: kind, first: func() ci { return bidlist.NewIterator(l.FrontNode()) },
			all: func() (out []E) { l.Traversal(func(v E) bool { out = append(out, v); return true }); return }}
	case "simplelist":
		l := simplelist.New[E]()
		for _, v := range vals {
			l.PushBack(v)
		}
		return &crange[E]{kind: kind, first: func() ci { return simplelist.NewIterator(l.FrontNode()) },
			all: func() (out []E) { l.Traversal(func(v E) bool { out = append(out, v); return true }); return }}
	case "rbtree":
		tr := rbtree.New[int, E](cmpInt)
		for i, v := range vals {
			tr.Insert(keys[i], v)
		}
		return &crange[E]{kind: kind, first: func() ci { return tr.IterFirst() },
			all: func() (out []E) { tr.Traversal(func(_ int, v E) bool { out = append(out, v); return true }); return }}
	case "map":
		m := treemap.New[int, E](cmpInt)
		for i, v := range vals {
			m.Insert(keys[i], v)
		}
		return &crange[E]{kind: kind, first: func() ci { return m.Begin() },
			all: func() (out []E) { m.Traversal(func(_ int, v E) bool { out = append(out, v); return true }); return }}
	case "multimap":
		m := treemap.NewMultiMap[int, E](cmpInt)
		for i, v := range vals {
			m.Insert(keys[i], v)
		}
		return &crange[E]{kind: kind, first: func() ci { return m.Begin() },
			all: func() (out []E) { m.Traversal(func(_ int, v E) bool { out = append(out, v); return true }); return }}
	case "set":
		s := set.New[E](d.cmpFn())
		for _, v := range vals {
			s.Insert(v)
		}
		return &crange[E]{kind: kind, first: func() ci { return s.Begin() },
			all: func() (out []E) { s.Traversal(func(v E) bool { out = append(out, v); return true }); return }}
	case "multiset":
		s := set.NewMultiSet[E](d.cmpFn())
		for _, v := range vals {
			s.Insert(v)
		}
		return &crange[E]{kind: kind, first: func() ci { return s.Begin() },
			all: func() (out []E) { s.Traversal(func(v E) bool { out = append(out, v); return true }); return }}
	}
	s := newSeq(kind, vals, t.IntN(len(vals)+1))
	return &crange[E]{kind: kind, first: func() ci { return s.begin() }, all: s.contents, end: func() ci { return s.end() }}
}

func (c *crange[E]) at(i int) iterator.ConstIterator[E] {
	x := c.first()
	for ; i > 0; i-- {
		x.Next()
	}
	return x
}

func runScan[K comparable](t *T, d *dom[K], maxN int) {
	vals := values(t, d, maxN)
	kind := crangeKinds[t.Variant(len(crangeKinds)+1)%len(crangeKinds)]
	guarded := kind == "array" && t.Bool(1, 2)
	var at func(int) iterator.ConstIterator[K]
	var contents func() []K
	var g *guard[K]
	var lo, hi int
	var all []K
	pick := func(n int) {
		a, b := t.IntN(n+1), t.IntN(n+1)
		lo, hi = min(a, b), max(a, b)
		if t.Bool(1, 3) {
			lo, hi = 0, n
		}
	}
	var end func() iterator.ConstIterator[K]
	if guarded {
		kind = "guarded"
		all = vals
		pick(len(all))
		g = &guard[K]{t: t, s: cloneSlice(vals), lo: lo, hi: hi}
		at = func(i int) iterator.ConstIterator[K] { return &guardIt[K]{g, i} }
		contents = func() []K { return g.s }
	} else {
		c := newCrange(t, d, kind, vals)
		all = cloneSlice(c.all())
		pick(len(all))
		at, contents, end = c.at, c.all, c.end
	}
	in := all[lo:hi]
	first, last := at(lo), at(hi)
	if hi == len(all) && end != nil && t.Bool(1, 2) {
		last = end()
	}
	t.Log("%s, range [%d, %d) of %s", kind, lo, hi, str(all))
	var what string
	bad := func(format string, args ...any) {
		t.Failf("%s on [%d, %d) of a %s of %s: %s", what, lo, hi, kind, str(all), fmt.Sprintf(format, args...))
	}
	after := func() {
		if !eqSlice(contents(), all) {
			bad("the elements became %s", str(contents()))
		}
		if !first.Equal(at(lo)) || !last.Equal(at(hi)) {
			bad("the caller's iterators were moved")
		}
		if g != nil && g.writes > 0 {
			bad("writes %d times", g.writes)
		}
	}
	on := func(x iterator.ConstIterator[K], i int) { // i: offset in the range
		if !x.Equal(at(lo+i)) || lo+i < len(all) && g == nil && x.Value() != all[lo+i] {
			p := -1
			for k := 0; k <= len(all); k++ {
				if x.Equal(at(k)) {
					p = k
					break
				}
			}
			bad("gives position %d, expected %d", p, lo+i)
		}
		if i == len(in) && !x.Equal(last) {
			bad("is not equal to the end of the range")
		}
	}
	found, miss := false, false
	scan := func(ok func(K) bool, what string) (count, at int) {
		at = len(in)
		for i, v := range in {
			if ok(v) {
				count++
				if at == len(in) {
					at = i
				}
			}
		}
		found, miss = found || count > 0, miss || count == 0
		return
	}
	t.Repeat(1, 6, func(int) {
		var v K
		if len(all) > 0 && t.Bool(3, 4) {
			v = all[t.IntN(len(all))]
			if t.Bool(1, 4) {
				v = d.near(v)
			}
		} else {
			v = d.gen()
		}
		t.Log("value %v", v)
		op := t.IntN(4)
		want := func(x K) bool {
			c := d.cmp(x, v)
			return op == 0 && c == 0 || op == 1 && c < 0 || op == 2 && c != 0 || op == 3 && c >= 0
		}
		asked := 0
		pred := func(x iterator.ConstIterator[K]) bool {
			t.Tick()
			y := x.Value()
			if asked >= len(in) || y != in[asked] {
				bad("question %d to the predicate is about %v", asked, y)
			}
			asked++
			return want(y)
		}
		eqn, eqAt := scan(func(x K) bool { return d.cmp(x, v) == 0 }, "equal")
		n, at0 := scan(want, "predicate")
		what = fmt.Sprintf("Count(%v)", v)
		if c := algorithm.Count[K](first, last, v, d.cmpFn()); c != eqn {
			bad("gives %d, expected %d", c, eqn)
		}
		after()
		what = fmt.Sprintf("Find(%v)", v)
		on(algorithm.Find[K](first, last, v, d.cmpFn()), eqAt)
		after()
		p := fmt.Sprintf("(element %s %v)", []string{"==", "<", "!=", ">="}[op], v)
		what, asked = "CountIf"+p, 0
		if c := algorithm.CountIf[K](first, last, pred); c != n {
			bad("gives %d, expected %d", c, n)
		}
		after()
		what, asked = "FindIf"+p, 0
		on(algorithm.FindIf[K](first, last, pred), at0)
		after()
		what, asked = "AnyOf"+p, 0
		if c := algorithm.AnyOf[K](first, last, pred); c != (n > 0) {
			bad("is %v", c)
		}
		after()
		what, asked = "AllOf"+p, 0
		if c := algorithm.AllOf[K](first, last, pred); c != (n == len(in)) {
			bad("is %v", c)
		}
		after()
		what, asked = "NoneOf"+p, 0
		if c := algorithm.NoneOf[K](first, last, pred); c != (n == 0) {
			bad("is %v", c)
		}
		after()
	})
	mn, mx := 0, 0
	for i, v := range in {
		if d.cmp(v, in[mn]) < 0 {
			mn = i
		}
		if d.cmp(v, in[mx]) > 0 {
			mx = i
		}
	}
	what = "MinElement"
	on(algorithm.MinElement[K](first, last, d.cmpFn()), mn)
	after()
	what = "MaxElement"
	on(algorithm.MaxElement[K](first, last, d.cmpFn()), mx)
	after()
	t.Class(kind)
	t.ClassIf(len(in) == 0, "empty range")
	t.ClassIf(lo > 0 || hi < len(all), "proper sub-range")
	t.ClassIf(found, "something found")
	t.ClassIf(miss, "nothing found")
	if len(in) >= 3 {
		t.NonTrivial()
	}
}

// ---- C36

// cells is a container whose positions can be written through iterators.
type cells[E comparable] struct {
	kind string
	m    []E
	all  func() []E
	at   func(int) iterator.Iterator[E]
}

var cellKinds = []string{"array", "slice", "vector", "deque", "bidlist", "map", "multimap", "simplelist", "guarded"}

func newCells[E comparable](t *T, el elems[E], kind string, maxN int) *cells[E] {
	n := t.Size(maxN)
	c := &cells[E]{kind: kind}
	for i := 0; i < n; i++ {
		c.m = append(c.m, el.gen())
	}
	vals := cloneSlice(c.m)
	step := func(x iterator.Iterator[E], i int) iterator.Iterator[E] {
		for ; i > 0; i-- {
			x.Next()
		}
		return x
	}
	switch kind {
	case "bidlist":
		l := bidlist.New[E]()
		for _, v := range vals {
			l.PushBack(v)
		}
		c.at = func(i int) iterator.Iterator[E] { return step(bidlist.NewIterator(l.FrontNode()), i) }
		c.all = func() (out []E) { l.Traversal(func(v E) bool { out = append(out, v); return true }); return }
	case "simplelist":
		l := simplelist.New[E]()
		for _, v := range vals {
			l.PushBack(v)
		}
		c.at = func(i int) iterator.Iterator[E] { return step(simplelist.NewIterator(l.FrontNode()), i) }
		c.all = func() (out []E) { l.Traversal(func(v E) bool { out = append(out, v); return true }); return }
	case "map":
		m := treemap.New[int, E](cmpInt)
		for i, v := range vals {
			m.Insert(i, v)
		}
		c.at = func(i int) iterator.Iterator[E] { return step(m.Begin(), i) }
		c.all = func() (out []E) { m.Traversal(func(_ int, v E) bool { out = append(out, v); return true }); return }
	case "multimap":
		m := treemap.NewMultiMap[int, E](cmpInt)
		for i, v := range vals {
			m.Insert(i/3, v)
		}
		c.at = func(i int) iterator.Iterator[E] { return step(m.Begin(), i) }
		c.all = func() (out []E) { m.Traversal(func(_ int, v E) bool { out = append(out, v); return true }); return }
	case "guarded":
		g := &guard[E]{t: t, s: vals, hi: n}
		c.at = func(i int) iterator.Iterator[E] { return &guardIt[E]{g, i} }
		c.all = func() []E { return g.s }
	default:
		s := newSeq(kind, vals, t.IntN(n+1))
		c.at = func(i int) iterator.Iterator[E] { return s.iter(i) }
		c.all = s.contents
	}
	t.Log("%s of %s", kind, str(c.m))
	return c
}

func (c *cells[E]) check(t *T, what string) {
	if got := c.all(); !eqSlice(got, c.m) {
		t.Failf("%s: the %s holds %s, expected %s", what, c.kind, str(got), str(c.m))
	}
}

func runSwap[E comparable](t *T, el elems[E], maxN int) {
	k := t.Variant(len(cellKinds) * 2)
	cs := []*cells[E]{newCells(t, el, cellKinds[k%len(cellKinds)], maxN)}
	if k >= len(cellKinds) {
		cs = append(cs, newCells(t, el, cellKinds[t.IntN(len(cellKinds))], maxN))
	}
	across, swaps, revs := false, 0, 0
	t.Repeat(1, 12, func(int) {
		a := cs[t.IntN(len(cs))]
		if t.Bool(1, 2) {
			b := cs[t.IntN(len(cs))]
			if len(a.m) == 0 || len(b.m) == 0 {
				return
			}
			i, j := t.IntN(len(a.m)), t.IntN(len(b.m))
			t.Log("swap %s %d with %s %d", a.kind, i, b.kind, j)
			x, y := a.at(i), b.at(j)
			algorithm.Swap[E](x, y)
			if !x.Equal(a.at(i)) || !y.Equal(b.at(j)) {
				t.Failf("Swap moves the iterators it is given: %s %d and %s %d", a.kind, i, b.kind, j)
			}
			a.m[i], b.m[j] = b.m[j], a.m[i]
			across = across || a != b
			swaps++
		} else {
			n := len(a.m)
			if a.kind == "simplelist" {
				return
			}
			i, j := t.IntN(n+1), t.IntN(n+1)
			i, j = min(i, j), max(i, j)
			if t.Bool(1, 3) {
				i, j = 0, n
			}
			first, last := a.at(i).(iterator.BidIterator[E]), a.at(j).(iterator.BidIterator[E])
			t.Log("reverse [%d, %d) of the %s", i, j, a.kind)
			algorithm.Reverse[E](first, last)
			if i < n && !first.Equal(a.at(i)) || j < n && !last.Equal(a.at(j)) {
				t.Failf("Reverse of [%d, %d) moves the iterators it is given, in a %s", i, j, a.kind)
			}
			if r, ok := last.(iterator.RandomAccessIterator[E]); ok && r.Position() != j {
				t.Failf("Reverse of [%d, %d) moves the end it is given to %d, in a %s", i, j, r.Position(), a.kind)
			}
			was := cloneSlice(a.m)
			for p, q := i, j-1; p < q; p, q = p+1, q-1 {
				a.m[p], a.m[q] = a.m[q], a.m[p]
			}
			if t.Bool(1, 3) {
				a.check(t, fmt.Sprintf("Reverse of [%d, %d)", i, j))
				algorithm.Reverse[E](first, last)
				copy(a.m, was)
				t.Class("reversed twice")
			}
			t.ClassIf((j-i)%2 == 1 && j-i > 1, "odd length reversed")
			if j-i > 1 {
				revs++
			}
			t.ClassIf(i == j, "empty range reversed")
		}
		for _, c := range cs {
			c.check(t, "after the last step")
		}
	})
	t.ClassIf(across, "swapped across containers")
	for _, c := range cs {
		t.Class(c.kind)
	}
	if swaps > 0 && revs > 0 {
		t.NonTrivial()
	}
}

func init() {
	domPhase := func(name string, quick, thorough int, i func(*T, *dom[int]), s func(*T, *dom[string]), k func(*T, *dom[Key])) pbt.Phase {
		return pbt.Phase{Name: name, Quick: quick, Thorough: thorough, Run: func(t *T) {
			withDom(t, func(d *dom[int]) { i(t, d) }, func(d *dom[string]) { s(t, d) }, func(d *dom[Key]) { k(t, d) })
		}}
	}
	assume := []string{"the comparator is a consistent ordering (the sign of its result counts)", "first and last belong to one container and first is not after last"}
	for _, stable := range []bool{false, true} {
		id, max := "C30", 400
		rule := "cases sort a generated range of a generated container (a guarded one that fails on any access outside the range, array, slice, vector, deque at many segment offsets). Non-trivial: the range was out of order"
		if stable {
			id, max = "C31", 400
			rule += " and had elements that tie"
		}
		ph := func(name string, quick, thorough, n int) pbt.Phase {
			return domPhase(name, quick, thorough, func(t *T, d *dom[int]) { runSort(t, d, stable, n) }, func(t *T, d *dom[string]) { runSort(t, d, stable, n) }, func(t *T, d *dom[Key]) { runSort(t, d, stable, n) })
		}
		pbt.Register(pbt.Prop{ID: id, Rule: rule + ".", Assumptions: assume,
			Phases: []pbt.Phase{ph("short", 2400000, 12000000, 24), ph("long", 72000, 500000, max)}})
	}
	pbt.Register(pbt.Prop{ID: "C32", Rule: "cases search values (stored, next to stored, any) in sorted ranges of generated containers and compare with a scan; comparisons, reads and moves are counted. Non-trivial: three or more elements, with a present and an absent value.", Assumptions: assume,
		Phases: []pbt.Phase{
			domPhase("short", 1200000, 6000000, func(t *T, d *dom[int]) { runSearch(t, d, 24) }, func(t *T, d *dom[string]) { runSearch(t, d, 24) }, func(t *T, d *dom[Key]) { runSearch(t, d, 24) }),
			domPhase("long", 12000, 300000, func(t *T, d *dom[int]) { runSearch(t, d, 1500) }, func(t *T, d *dom[string]) { runSearch(t, d, 1500) }, func(t *T, d *dom[Key]) { runSearch(t, d, 1500) })}})
	pbt.Register(pbt.Prop{ID: "C33", Rule: "cases run NthElement on a generated range with n in [0, length). Non-trivial: three or more elements, out of order.", Assumptions: append(assume, "0 <= n < length"),
		Phases: []pbt.Phase{
			domPhase("short", 1200000, 12000000, func(t *T, d *dom[int]) { runNth(t, d, 24) }, func(t *T, d *dom[string]) { runNth(t, d, 24) }, func(t *T, d *dom[Key]) { runNth(t, d, 24) }),
			domPhase("long", 15000, 600000, func(t *T, d *dom[int]) { runNth(t, d, 400) }, func(t *T, d *dom[string]) { runNth(t, d, 400) }, func(t *T, d *dom[Key]) { runNth(t, d, 400) })}})
	pbt.Register(pbt.Prop{ID: "C34", Rule: "cases step a generated range through up to 30 permutations and compare each with a reference, or go through all arrangements of a small multiset. Non-trivial: three or more elements and at least one step.", Assumptions: assume,
		Phases: []pbt.Phase{
			domPhase("steps", 1200000, 5000000, func(t *T, d *dom[int]) { runPerm(t, d, 14) }, func(t *T, d *dom[string]) { runPerm(t, d, 14) }, func(t *T, d *dom[Key]) { runPerm(t, d, 14) }),
			{Name: "all arrangements", Quick: 8000, Thorough: 60000, Run: runAllPerms}}})
	pbt.Register(pbt.Prop{ID: "C35", Rule: "cases run the nine read-only algorithms on a generated range of a generated container (four sequences, two lists, five ordered containers, a guarded one) and compare with a scan of a copy. Non-trivial: three or more elements in the range.", Assumptions: append(assume, "predicates do not move the iterator they are given"),
		Phases: []pbt.Phase{
			domPhase("ranges", 1200000, 5000000, func(t *T, d *dom[int]) { runScan(t, d, 20) }, func(t *T, d *dom[string]) { runScan(t, d, 20) }, func(t *T, d *dom[Key]) { runScan(t, d, 20) })}})
	pbt.Register(pbt.Prop{ID: "C36", Rule: "cases swap and reverse positions and ranges of one or two generated containers (four sequences, both lists, map and multimap values, a caller's own). Non-trivial: at least one swap and one reversal of two or more elements.", Assumptions: []string{"one goroutine"},
		Phases: []pbt.Phase{{Name: "histories", Quick: 1200000, Thorough: 6000000, Run: func(t *T) {
			withElem(t, func(e elems[int]) { runSwap(t, e, 20) }, func(e elems[string]) { runSwap(t, e, 20) }, func(e elems[rec]) { runSwap(t, e, 20) }, func(e elems[*int]) { runSwap(t, e, 20) })
		}},
			{Name: "long", Quick: 4000, Thorough: 200000, Run: func(t *T) {
				withElem(t, func(e elems[int]) { runSwap(t, e, 300) }, func(e elems[string]) { runSwap(t, e, 300) }, func(e elems[rec]) { runSwap(t, e, 300) }, func(e elems[*int]) { runSwap(t, e, 300) })
			}}}})
}
