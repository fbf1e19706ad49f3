package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"slices"
	"sort"

	"github.com/liyue201/gostl/algorithm"
	"github.com/liyue201/gostl/algorithm/hash"
	gsort "github.com/liyue201/gostl/algorithm/sort"
	"github.com/liyue201/gostl/ds/bitmap"
	bloom "github.com/liyue201/gostl/ds/bloomfilter"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/heap"
	"github.com/liyue201/gostl/ds/ketama"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/ds/stack"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/iterator"
	"verifharness/pbt"
)

// Checks on few but huge containers, for what depends on a size or a count beyond
// those of the histories: index widths, many segments, deep trees.

func hugeSize(t *T) (int, *pbt.Rng) {
	base := []int{1 << 12, 1 << 14, 1 << 15, 1 << 16, 1 << 17}[t.IntN(5)]
	n := base + t.IntN(base/4)
	t.NonTrivial()
	return n, pbt.NewRng(t.Uniform64())
}

// sameInts compares n values read one by one with a slice.
func sameInts(t *T, what string, n int, at func(i int) int, want []int) {
	if n != len(want) {
		t.Failf("%s: %d elements, expected %d", what, n, len(want))
	}
	for i, w := range want {
		if g := at(i); g != w {
			t.Failf("%s: element %d of %d is %d, expected %d", what, i, n, g, w)
		}
	}
}

// ends is a model of a double-ended queue.
type ends struct {
	a      []int
	lo, hi int
}

func newEnds(n int) *ends { return &ends{make([]int, 2*n+2), n + 1, n + 1} }
func (e *ends) pushBack(v int) {
	e.a[e.hi] = v
	e.hi++
}
func (e *ends) pushFront(v int) {
	e.lo--
	e.a[e.lo] = v
}
func (e *ends) s() []int { return e.a[e.lo:e.hi] }

func hugeDeque(t *T) {
	n, rng := hugeSize(t)
	d := deque.New[int]()
	m := newEnds(2 * n)
	no := 0
	skew := t.IntN(5) // of four pushes so many go to the front
	push := func(k int) {
		for i := 0; i < k; i++ {
			no++
			if int(rng.N(4)) < skew {
				d.PushFront(no)
				m.pushFront(no)
			} else {
				d.PushBack(no)
				m.pushBack(no)
			}
		}
	}
	pop := func(k, skew int) {
		for i := 0; i < k && m.lo < m.hi; i++ {
			var g, w int
			if int(rng.N(4)) < skew {
				g, w = d.PopFront(), m.a[m.lo]
				m.lo++
			} else {
				m.hi--
				g, w = d.PopBack(), m.a[m.hi]
			}
			if g != w {
				t.Failf("deque with %d elements left: a pop gives %d, expected %d", m.hi-m.lo, g, w)
			}
		}
	}
	check := func(what string) {
		s := m.s()
		t.Log("%s: %d elements", what, len(s))
		sameInts(t, "deque by position "+what, d.Size(), d.At, s)
		i := 0
		for x := d.Begin(); x.IsValid(); x.Next() {
			if i >= len(s) || x.Value() != s[i] {
				t.Failf("deque %s: an iteration differs at %d", what, i)
			}
			i++
		}
		if len(s) > 0 && (d.Front() != s[0] || d.Back() != s[len(s)-1]) {
			t.Failf("deque %s: Front() %d and Back() %d, expected %d and %d", what, d.Front(), d.Back(), s[0], s[len(s)-1])
		}
	}
	push(n)
	check("filled")
	pop(n*3/4, 4-skew) // mostly at the other end
	check("popped")
	push(n / 2)
	check("refilled")
	s := cloneSlice(m.s())
	for i := 0; i < 150; i++ { // positional changes
		p := int(rng.N(uint64(len(s))))
		if i%5 == 4 { // at many lengths
			k := min(int(rng.N(uint64(n/32))), len(s)-1)
			for j := 0; j < k; j++ {
				d.PopBack()
			}
			s = s[:len(s)-k]
			p = min(p, len(s)-1)
		}
		switch rng.N(3) {
		case 0:
			d.Insert(p, -i)
			s = insertSlice(s, p, -i)
		case 1:
			d.EraseAt(p)
			s = slices.Delete(s, p, p+1)
		default:
			d.Set(p, -i)
			s[p] = -i
		}
	}
	sameInts(t, "deque after positional changes", d.Size(), d.At, s)
	for i := 0; i < 3; i++ {
		a := int(rng.N(uint64(len(s) + 1)))
		b := a + int(rng.N(uint64(len(s)-a+1)))
		if i < 2 {
			b = a + (b-a)/4
		}
		d.EraseRange(a, b)
		s = slices.Delete(s, a, b)
		sameInts(t, fmt.Sprintf("deque after EraseRange(%d, %d)", a, b), d.Size(), d.At, s)
	}
	d.Clear()
	if d.Size() != 0 || !d.Empty() {
		t.Failf("a cleared deque has %d elements", d.Size())
	}
	m = newEnds(2 * n)
	push(n / 8)
	check("filled after a clear")
}

func hugeVector(t *T) {
	n, rng := hugeSize(t)
	v := vector.New[int]()
	var s []int
	push := func(k int) {
		for i := 0; i < k; i++ {
			x := int(rng.N(1 << 40))
			v.PushBack(x)
			s = append(s, x)
		}
	}
	push(n)
	sameInts(t, "vector", v.Size(), v.At, s)
	for i := 0; i < 100; i++ {
		p := int(rng.N(uint64(len(s))))
		switch rng.N(5) {
		case 0:
			v.InsertAt(p, -i)
			s = insertSlice(s, p, -i)
		case 1:
			v.EraseAt(p)
			s = slices.Delete(s, p, p+1)
		case 2:
			span := 100
			if rng.N(4) == 0 {
				span = len(s) / 4
			}
			q := min(p+int(rng.N(uint64(span+1))), len(s))
			if rng.N(2) == 0 {
				v.EraseIndexRange(p, q)
			} else {
				v.EraseRange(v.IterAt(p), v.IterAt(q))
			}
			s = slices.Delete(s, p, q)
			push(int(rng.N(uint64(q - p + 1))))
		case 3:
			v.Reserve(len(s) + int(rng.N(2000)))
		case 4:
			v.ShrinkToFit()
		}
	}
	sameInts(t, "vector after changes", v.Size(), v.At, s)
	push(max(n-len(s), 0))
	w, before := vector.NewFromVector(v), cloneSlice(s)
	push(n / 3)
	sameInts(t, "grown vector", v.Size(), v.At, s)
	for len(s) > n/2 {
		if g := v.PopBack(); g != s[len(s)-1] {
			t.Failf("PopBack() of %d elements is %d, expected %d", len(s), g, s[len(s)-1])
		}
		s = s[:len(s)-1]
	}
	v.Resize(n / 4)
	sameInts(t, "resized vector", v.Size(), v.At, s[:n/4])
	sameInts(t, "the vector's earlier copy", w.Size(), w.At, before)
	cut := int(rng.N(uint64(len(before) + 1)))
	w.EraseIndexRange(cut/2, cut)
	before = slices.Delete(before, cut/2, cut)
	sameInts(t, "the copy with a range erased", w.Size(), w.At, before)
	w.Clear()
	s = nil
	v = w
	push(n / 8)
	sameInts(t, "a cleared and refilled vector", v.Size(), v.At, s)
}

// hugeRA checks iterators at far positions.
func hugeRA(t *T) {
	n, rng := hugeSize(t)
	vals := arranged(2, n, rng)
	kind := seqKinds[t.Variant(4)]
	s := newSeq(kind, vals, t.IntN(n))
	t.Log("%s of %d", kind, n)
	x := s.begin()
	for i := 0; i < 2000; i++ {
		p := int(rng.N(uint64(n)))
		x = x.IteratorAt(p)
		y := s.iter(p)
		if !x.IsValid() || x.Position() != p || x.Value() != vals[p] || !x.Equal(y) || !y.Equal(x) {
			t.Failf("%s of %d: the iterator at %d has position %d, value %d, valid %v", kind, n, p, x.Position(), x.Value(), x.IsValid())
		}
		z := x.Clone().(iterator.RandomAccessIterator[int])
		k := int(rng.N(150))
		if rng.N(2) == 0 {
			for ; k > 0 && p < n; k-- {
				z.Next()
				p++
			}
		} else {
			for ; k > 0 && p >= 0; k-- {
				z.Prev()
				p--
			}
		}
		ok := p >= 0 && p < n
		if z.Position() != p || z.IsValid() != ok || ok && z.Value() != vals[p] {
			t.Failf("%s of %d: after moves the iterator has position %d, expected %d", kind, n, z.Position(), p)
		}
		if ok {
			vals[p] = -i
			z.SetValue(-i)
		}
	}
	s.expect(t, vals)
	t.Class(kind)
}

// hugeOrdered is for C02 to C06, C08, C09, C37 and C43.
func hugeOrdered(t *T, kinds []string) {
	n, rng := hugeSize(t)
	n /= 2
	kind := kinds[t.Variant(len(kinds))]
	order := t.IntN(5)
	d := &dom[int]{name: "int", t: t, cmp: cmpInt}
	c := newOrdered(kind, d, t.Bool(1, 4))
	multi := c.multi
	type kv struct{ k, v int }
	var m []kv
	keys := arranged(order, n, rng)
	group := 1 // so many keys are equal
	if multi {
		group = []int{1, 1, 40, 1000, n/3 + 1, n}[t.IntN(6)]
	}
	for i := range keys {
		keys[i] /= group
	}
	for i, k := range keys {
		c.insert(2*k, i)
		m = append(m, kv{2 * k, i})
		if i%9 == 4 { // again
			c.insert(2*k, -i)
			if multi {
				m = append(m, kv{2 * k, -i})
			} else {
				m[len(m)-1].v = -i
			}
		}
	}
	sort.SliceStable(m, func(i, j int) bool { return m[i].k < m[j].k })
	check := func(what string) {
		t.Log("%s: %d entries", what, len(m))
		if c.size() != len(m) {
			t.Failf("%s %s: Size() is %d, expected %d", kind, what, c.size(), len(m))
		}
		same := func(how string, i int, x it[int]) {
			if x.Valid() != (i >= 0 && i < len(m)) {
				t.Failf("%s %s: %s ends at %d of %d", kind, what, how, i, len(m))
			}
			if x.Valid() && (x.Key() != m[i].k || c.hasVal && x.Val() != m[i].v) {
				t.Failf("%s %s: %s gives %d=%d at %d, expected %d=%d", kind, what, how, x.Key(), x.Val(), i, m[i].k, m[i].v)
			}
		}
		i := 0
		for x := c.first[0](); ; x.Next() {
			same("an iteration", i, x)
			if !x.Valid() {
				break
			}
			i++
		}
		for x := c.last[0](); ; x.Prev() {
			i--
			same("a reverse iteration", i, x)
			if !x.Valid() {
				break
			}
		}
		stop := int(rng.N(uint64(2*len(m) + 1)))
		i = 0
		c.traverse(func(k, v int) bool {
			if i >= len(m) || k != m[i].k || c.hasVal && v != m[i].v {
				t.Failf("%s %s: Traversal gives %d=%d at %d", kind, what, k, v, i)
			}
			i++
			return i < stop
		})
		if w := max(min(stop, len(m)), min(1, len(m))); i != w {
			t.Failf("%s %s: Traversal visits %d of %d entries and should stop after %d", kind, what, i, len(m), w)
		}
		for j := 0; j < 500; j++ {
			k := int(rng.N(uint64(2*n/group+5))) - 2
			lo := sort.Search(len(m), func(i int) bool { return m[i].k >= k })
			hi := sort.Search(len(m), func(i int) bool { return m[i].k > k })
			if c.contains(k) != (lo < hi) {
				t.Failf("%s %s: Contains(%d) is %v", kind, what, k, lo >= hi)
			}
			if c.count != nil && j < 8 {
				if g := c.count(k); g != hi-lo {
					t.Failf("%s %s: Count(%d) is %d, expected %d", kind, what, k, g, hi-lo)
				}
			}
			same(fmt.Sprintf("LowerBound(%d)", k), lo, c.lower(k))
			same(fmt.Sprintf("UpperBound(%d)", k), hi, c.upper(k))
			if x := c.find(k); lo < hi {
				same(fmt.Sprintf("Find(%d)", k), lo, x)
			} else if x.Valid() {
				t.Failf("%s %s: Find(%d) finds an entry", kind, what, k)
			}
			if c.get != nil {
				if v, ok := c.get(k); ok != (lo < hi) || ok && v != m[lo].v {
					t.Failf("%s %s: Get(%d) = %d, %v", kind, what, k, v, ok)
				}
			}
		}
	}
	check("filled")
	// erase many
	drop := map[int]bool{}
	how := t.IntN(3)
	for i := 0; i < n; i++ {
		if g := n / group; how == 0 && rng.N(2) == 0 || how == 1 && i > g/8 && i < g*7/8 || how == 2 && i%16 != 0 {
			drop[2*i] = true
		}
	}
	if n/group <= 16 {
		for k := range n/group + 1 {
			drop[2*k] = t.Bool(1, 2)
		}
	}
	perOccurrence := kind == "rbtree" || kind == "multiset"
	all := c.eraseAll != nil && t.Bool(1, 2)
	walk := false
	if x := c.first[0](); t.Bool(1, 2) && c.eraseIt(x) { // while walking
		walk = true
		drop[m[0].k] = true
		var rest []kv
		for _, e := range m[1:] {
			if e.k != m[0].k {
				rest = append(rest, e)
			} else {
				rest = append(rest, e)
				delete(drop, e.k)
			}
		}
		m = rest
		for x := c.first[0](); x.Valid(); {
			y := x.Clone()
			x.Next()
			if drop[y.Key()] {
				c.eraseIt(y)
			}
		}
		var left []kv
		for _, e := range m {
			if !drop[e.k] {
				left = append(left, e)
			}
		}
		m = left
	} else {
		for _, k := range keys {
			if !drop[2*k] {
				continue
			}
			if all {
				c.eraseAll(2 * k)
			} else {
				c.erase(2 * k)
			}
			if (all || !perOccurrence) && c.contains(2*k) {
				t.Failf("%s: erasing every entry of %d leaves some", kind, 2*k)
			}
			for c.contains(2 * k) {
				c.erase(2 * k)
			}
		}
		var left []kv
		for _, e := range m {
			if !drop[e.k] {
				left = append(left, e)
			}
		}
		m = left
	}
	check("thinned")
	for i := 0; i < n/4; i++ {
		k := int(rng.N(uint64(2*n)))*2 + 1
		if !c.contains(k) {
			c.insert(k, i)
			m = append(m, kv{k, i})
		}
	}
	sort.SliceStable(m, func(i, j int) bool { return m[i].k < m[j].k })
	check("refilled")
	t.Class(kind)
	t.ClassIf(walk, "erased while walking")
	t.ClassIf(group > 1, "many equal keys")
	t.ClassIf(all, "EraseAll")
}

func hugeAlgebra(t *T) {
	n, rng := hugeSize(t)
	d := &dom[int]{name: "int", t: t, cmp: cmpInt}
	a, b := newSet(d, false), newSet(d, false)
	ma, mb := map[int]bool{}, map[int]bool{}
	span := uint64(n) * uint64(t.Range(1, 3))
	for i := 0; i < n/2; i++ {
		x, y := int(rng.N(span)), int(rng.N(span))
		a.insert(x, 0)
		b.insert(y, 0)
		ma[x], mb[y] = true, true
	}
	for which, f := range []func(*ocont[int]) *ocont[int]{a.union, a.inter, a.diff} {
		r := f(b)
		count := 0
		r.traverse(func(k, _ int) bool {
			in := []bool{ma[k] || mb[k], ma[k] && mb[k], ma[k] && !mb[k]}[which]
			if !in {
				t.Failf("operation %d of sets of %d and %d contains %d", which, len(ma), len(mb), k)
			}
			count++
			return true
		})
		want := 0
		for k := range ma {
			want += sgn(which == 0 || mb[k] == (which == 1))
		}
		for k := range mb {
			want += sgn(which == 0 && !ma[k])
		}
		if count != want || r.size() != want {
			t.Failf("operation %d of sets of %d and %d has %d elements, visits %d, expected %d", which, len(ma), len(mb), r.size(), count, want)
		}
	}
}

func hugeSkiplist(t *T) {
	pinRand(t)
	n, rng := hugeSize(t)
	limit := []int{0, 14, 20, 64}[t.IntN(4)]
	l := skiplist.New[int, int](cmpInt, skipOpts(limit, false)...)
	m := map[int]int{}
	keys := arranged(t.IntN(5), n, rng)
	for i, k := range keys {
		l.Insert(3*k, i)
		m[3*k] = i
		if i%5 == 0 {
			l.Insert(3*k, -i)
			m[3*k] = -i
		}
		if i%7 == 3 {
			k := 3 * keys[rng.N(uint64(i+1))]
			_, in := m[k]
			if l.Remove(k) != in {
				t.Failf("Remove(%d) is %v", k, !in)
			}
			delete(m, k)
		}
	}
	check := func() {
		want := make([]int, 0, len(m))
		for k := range m {
			want = append(want, k)
		}
		sort.Ints(want)
		got := l.Keys()
		sameInts(t, "Keys of a skiplist", len(got), func(i int) int { return got[i] }, want)
		if l.Len() != len(m) {
			t.Failf("Len() is %d, expected %d", l.Len(), len(m))
		}
		i, stop := 0, int(rng.N(uint64(2*len(m)+1)))
		l.Traversal(func(k, v int) bool {
			if i >= len(want) || k != want[i] || v != m[k] {
				t.Failf("Traversal gives %d=%d at %d", k, v, i)
			}
			i++
			return i < stop
		})
		if w := max(min(stop, len(m)), min(1, len(m))); i != w {
			t.Failf("Traversal visits %d of %d entries and should stop after %d", i, len(m), w)
		}
		for i := 0; i < 2000; i++ {
			k := int(rng.N(uint64(3*n+4))) - 2
			v, err := l.Get(k)
			if w, in := m[k]; (err == nil) != in || in && v != w {
				t.Failf("Get(%d) = %d, %v; expected %d, %v; %d keys, level limit %d", k, v, err, w, in, len(m), limit)
			}
		}
	}
	check()
	for k := range n {
		if k%3 != 0 {
			_, in := m[3*k]
			if l.Remove(3*k) != in {
				t.Failf("Remove(%d) is %v", 3*k, !in)
			}
			delete(m, 3*k)
		}
	}
	check()
}

func hugeList(t *T) {
	n, rng := hugeSize(t)
	l := bidlist.New[int]()
	var nodes []*bidlist.Node[int]
	m := newEnds(2 * n)
	for i := 0; i < n; i++ {
		if rng.N(3) == 0 {
			l.PushFront(i)
			m.pushFront(i)
		} else {
			l.PushBack(i)
			m.pushBack(i)
		}
	}
	s := cloneSlice(m.s())
	check := func(what string) {
		i := 0
		for x := l.FrontNode(); x != nil; x = x.Next() {
			if i >= len(s) || x.Value != s[i] {
				t.Failf("bidlist %s: the walk differs at %d of %d", what, i, len(s))
			}
			i++
		}
		if i != len(s) || l.Len() != i {
			t.Failf("bidlist %s: %d nodes, Len() %d, expected %d", what, i, l.Len(), len(s))
		}
		for x := l.BackNode(); x != nil; x = x.Prev() {
			i--
			if i < 0 || x.Value != s[i] {
				t.Failf("bidlist %s: the walk back differs at %d", what, i)
			}
		}
		stop := int(rng.N(uint64(2*len(s) + 1)))
		l.Traversal(func(v int) bool {
			if i >= len(s) || v != s[i] {
				t.Failf("bidlist %s: the traversal differs at %d", what, i)
			}
			i++
			return i < stop
		})
		if w := max(min(stop, len(s)), min(1, len(s))); i != w {
			t.Failf("bidlist %s: Traversal visits %d of %d and should stop after %d", what, i, len(s), w)
		}
	}
	check("filled")
	for x := l.FrontNode(); x != nil; x = x.Next() {
		nodes = append(nodes, x)
	}
	var left []int
	for i, x := range nodes {
		if rng.N(3) == 0 {
			if v := l.Remove(x); v != s[i] {
				t.Failf("Remove gives %d, expected %d", v, s[i])
			}
		} else {
			left = append(left, s[i])
		}
	}
	s = left
	check("thinned")
	o := bidlist.New[int]()
	for i := 0; i < n/2; i++ {
		o.PushBack(-i)
		left = append(left, -i)
	}
	l.PushBackList(o)
	s = append(s[:len(s):len(s)], left[len(s):]...)
	check("joined")
	l.MoveToFront(l.BackNode())
	s = append([]int{s[len(s)-1]}, s[:len(s)-1]...)
	l.MoveToBack(l.FrontNode().Next())
	s = append(append([]int{s[0]}, s[2:]...), s[1])
	check("moved")
	p := bidlist.New[int]()
	for i := 0; i < n/4; i++ {
		p.PushFront(-i - n)
	}
	l.PushFrontList(p)
	s = slices.Clone(s)
	head := make([]int, 0, p.Len()+len(s))
	for x := p.FrontNode(); x != nil; x = x.Next() {
		head = append(head, x.Value)
	}
	s = append(head, s...)
	check("joined in front")
	left = nil
	i := 0
	for x := l.FrontNode(); x != nil; i++ {
		next := x.Next()
		switch rng.N(6) {
		case 0:
			l.InsertBefore(i, x)
			left = append(left, i, s[i])
		case 1:
			l.InsertAfter(i, x)
			left = append(left, s[i], i)
		case 2:
			if k := len(left); k > 0 && x.Prev() != nil && x.Prev().Prev() != nil {
				l.MoveAfter(x, x.Prev().Prev())
				left = append(left[:k-1], s[i], left[k-1])
			} else {
				left = append(left, s[i])
			}
		case 3:
			l.Remove(x)
		default:
			left = append(left, s[i])
		}
		x = next
	}
	s = left
	check("changed all over")
	for k := 0; k < 40; k++ { // the ends at many lengths
		for j := n / 80; j > 0 && len(s) > 0; j-- {
			l.PopBack()
			s = s[:len(s)-1]
		}
		if len(s) < 2 {
			break
		}
		switch rng.N(4) {
		case 0:
			l.MoveToBack(l.FrontNode())
			s = append(s[1:len(s):len(s)], s[0])
		case 1:
			l.MoveToFront(l.BackNode())
			s = append([]int{s[len(s)-1]}, s[:len(s)-1]...)
		case 2:
			l.MoveAfter(l.FrontNode(), l.BackNode())
			s = append(s[1:len(s):len(s)], s[0])
		case 3:
			l.MoveAfter(l.BackNode(), l.FrontNode())
			s = append([]int{s[0], s[len(s)-1]}, s[1:len(s)-1]...)
		}
		if l.Front() != s[0] || l.Back() != s[len(s)-1] || l.Len() != len(s) {
			t.Failf("bidlist of %d: Front() %d, Back() %d, Len() %d; expected %d and %d", len(s), l.Front(), l.Back(), l.Len(), s[0], s[len(s)-1])
		}
	}
	check("moved at the ends")
	for len(s) > n/3 {
		if rng.N(2) == 0 {
			if g := l.PopFront(); g != s[0] {
				t.Failf("PopFront() is %d, expected %d", g, s[0])
			}
			s = s[1:]
		} else {
			if g := l.PopBack(); g != s[len(s)-1] {
				t.Failf("PopBack() is %d, expected %d", g, s[len(s)-1])
			}
			s = s[:len(s)-1]
		}
	}
	check("popped")
	kept := l.FrontNode()
	l.Clear()
	s = nil
	check("cleared")
	if kept != nil && l.InsertAfter(1, kept) != nil {
		t.Failf("InsertAfter a node of a cleared list works")
	}
	for i := 0; i < 1000; i++ {
		l.PushBack(i)
		s = append(s, i)
	}
	check("refilled")
}

func hugeSimple(t *T) {
	n, rng := hugeSize(t)
	l := simplelist.New[int]()
	m := newEnds(2 * n)
	for i := 0; i < n; i++ {
		if rng.N(3) == 0 {
			l.PushFront(i)
			m.pushFront(i)
		} else {
			l.PushBack(i)
			m.pushBack(i)
		}
	}
	s := cloneSlice(m.s())
	check := func(what string) {
		i := 0
		stop := int(rng.N(uint64(2*len(s) + 1)))
		for x := l.FrontNode(); x != nil; x = x.Next() {
			if i >= len(s) || x.Value != s[i] {
				t.Failf("simplelist %s: the walk differs at %d of %d", what, i, len(s))
			}
			i++
		}
		if i != len(s) || l.Len() != i {
			t.Failf("simplelist %s: %d nodes, Len() %d, expected %d", what, i, l.Len(), len(s))
		}
		i = 0
		l.Traversal(func(v int) bool {
			if i >= len(s) || v != s[i] {
				t.Failf("simplelist %s: the traversal differs at %d", what, i)
			}
			i++
			return i < stop
		})
		if w := max(min(stop, len(s)), min(1, len(s))); i != w {
			t.Failf("simplelist %s: Traversal visits %d of %d and should stop after %d", what, i, len(s), w)
		}
	}
	check("filled")
	var left []int
	var before *simplelist.Node[int]
	i := 0
	for x := l.FrontNode(); x != nil; i++ {
		next := x.Next()
		if rng.N(3) == 0 {
			l.Remove(before, x)
		} else {
			left = append(left, s[i])
			before = x
			if rng.N(8) == 0 {
				before = l.InsertAfter(-i, x)
				left = append(left, -i)
			}
		}
		x = next
	}
	s = left
	check("thinned")
	l.PushBack(7)
	s = append(s, 7)
	check("pushed")
	for k := 0; k < 40; k++ { // the ends at many lengths
		for j := n / 80; j > 0 && len(s) > 1; j-- {
			l.Remove(nil, l.FrontNode())
			s = s[1:]
		}
		if len(s) < 4 {
			break
		}
		switch rng.N(4) {
		case 0:
			l.MoveToBack(nil, l.FrontNode())
			s = append(s[1:len(s):len(s)], s[0])
		case 1:
			l.MoveToFront(l.FrontNode(), l.FrontNode().Next())
			s = append([]int{s[1], s[0]}, s[2:]...)
		case 2:
			at := l.FrontNode()
			for at.Next() != l.BackNode() {
				at = at.Next()
			}
			l.MoveToFront(at, l.BackNode())
			s = append([]int{s[len(s)-1]}, s[:len(s)-1]...)
		case 3:
			at := l.FrontNode()
			for at.Next() != l.BackNode() {
				at = at.Next()
			}
			l.Remove(at, l.BackNode())
			s = s[: len(s)-1 : len(s)-1]
		}
		l.PushBack(-k)
		s = append(s, -k)
		if l.FrontNode().Value != s[0] || l.BackNode().Value != -k || l.BackNode().Next() != nil || l.Len() != len(s) {
			t.Failf("simplelist of %d: front %d, back %d, Len() %d; expected %d and %d", len(s), l.FrontNode().Value, l.BackNode().Value, l.Len(), s[0], -k)
		}
	}
	check("moved at the ends")
}

func hugeAdapt(t *T, fifo bool) {
	n, rng := hugeSize(t)
	list := t.Bool(1, 2)
	var qo []queue.Option[int]
	var so []stack.Option[int]
	if list {
		qo = append(qo, queue.WithListContainer[int]())
		so = append(so, stack.WithListContainer[int]())
	}
	a := newAdapt(fifo, qo, so)
	m := newEnds(4 * n)
	for round := 0; round < 4; round++ {
		for i := 0; i < n; i++ {
			v := int(rng.N(1 << 40))
			a.push(v)
			m.pushBack(v)
		}
		k := n*3/4 + int(rng.N(uint64(n/2)))
		for i := 0; i < k && m.lo < m.hi; i++ {
			s := m.s()
			if a.size() != len(s) || a.back() != s[len(s)-1] || a.front != nil && a.front() != s[0] {
				t.Failf("%s of %d: Size() %d, back %d", a.name, len(s), a.size(), a.back())
			}
			w := s[len(s)-1]
			if fifo {
				w = s[0]
				m.lo++
			} else {
				m.hi--
			}
			if g := a.pop(); g != w {
				t.Failf("%s of %d (list %v): Pop() is %d, expected %d", a.name, len(s), list, g, w)
			}
		}
		if m.hi > 6*n {
			break
		}
	}
	t.ClassIf(list, "list")
}

func hugePQ(t *T) {
	n, rng := hugeSize(t)
	q := priorityqueue.New(func(a, b Key) int { return cmpInt(a.O, b.O) })
	span := []uint64{3, 100, 1 << 40}[t.IntN(3)]
	var m []Key
	no := 0
	push := func(k int) {
		for i := 0; i < k; i++ {
			no++
			v := Key{int(rng.N(span)), no}
			q.Push(v)
			m = append(m, v)
		}
	}
	pop := func(k int) {
		sort.SliceStable(m, func(i, j int) bool { return m[i].O < m[j].O })
		for i := 0; i < k; i++ {
			if g := q.Top(); g != m[i] {
				t.Failf("Top() of %d elements is %v, expected %v", len(m)-i, g, m[i])
			}
			if g := q.Pop(); g != m[i] {
				t.Failf("Pop() of %d elements is %v, expected %v", len(m)-i, g, m[i])
			}
		}
		m = append([]Key(nil), m[k:]...)
		sort.Slice(m, func(i, j int) bool { return m[i].I < m[j].I })
	}
	push(n)
	pop(n / 2)
	push(n / 2)
	if q.Size() != len(m) {
		t.Failf("Size() is %d, expected %d", q.Size(), len(m))
	}
	pop(len(m))
	if !q.Empty() {
		t.Failf("not empty after as many pops as pushes")
	}
}

func hugeHeap(t *T) {
	n, rng := hugeSize(t)
	h := &counted{}
	for i := 0; i < n; i++ {
		h.s = append(h.s, int(rng.N(uint64(n))))
	}
	m := cloneSlice(h.s)
	valid := func(what string) {
		for i := 1; i < len(h.s); i++ {
			if h.s[i] < h.s[(i-1)/2] {
				t.Failf("after %s of %d elements, %d at %d is less than its parent", what, len(h.s), h.s[i], i)
			}
		}
	}
	heap.Init[int](h)
	valid("Init")
	m = m[:0]
	for i := 0; i < 1000; i++ {
		at := int(rng.N(uint64(len(h.s))))
		switch rng.N(3) {
		case 0:
			w := h.s[at]
			if g := heap.Remove[int](h, at); g != w {
				t.Failf("Remove(%d) of %d elements is %d, expected %d", at, len(h.s)+1, g, w)
			}
		case 1:
			h.s[at] = int(rng.N(uint64(n)))
			heap.Fix[int](h, at)
		case 2:
			heap.Push[int](h, int(rng.N(uint64(n))))
		}
	}
	valid("changes")
	m = append(m, h.s...)
	sort.Ints(m)
	for i, w := range m {
		if g := heap.Pop[int](h); g != w {
			t.Failf("Pop() number %d of %d is %d, expected %d", i, len(m), g, w)
		}
	}
}

func hugeBitmap(t *T) {
	rng := pbt.NewRng(t.Uniform64())
	size := uint64(1)<<uint(t.Range(20, 28)) + uint64(t.IntN(1000))
	if t.Bool(1, 8) {
		size = 1<<32 + uint64(t.IntN(1000)) // 512 MB, most of it never touched
	}
	b := bitmap.New(size)
	m := map[uint64]bool{}
	draw := func() uint64 {
		p := rng.N(size)
		switch rng.N(4) {
		case 0:
			p = p &^ (1<<16 - 1)
		case 1:
			p = size - 1 - p%1000
		case 2:
			p = p%64<<26 + p%3
		}
		return p % size
	}
	var drawn []uint64
	for i := 0; i < 3000; i++ {
		p := draw()
		if i%4 == 3 {
			p = drawn[rng.N(uint64(len(drawn)))]
			b.Unset(p)
			delete(m, p)
		} else {
			drawn = append(drawn, p)
			if !b.Set(p) {
				t.Failf("Set(%d) of a bitmap of %d bits is refused", p, size)
			}
			m[p] = true
		}
	}
	check := func(what string) {
		for i := 0; i < 3000; i++ {
			p := draw()
			if b.IsSet(p) != m[p] {
				t.Failf("%s: IsSet(%d) of a bitmap of %d bits is %v", what, p, size, !m[p])
			}
		}
		for p := range m {
			if !b.IsSet(p) {
				t.Failf("%s: IsSet(%d) of a bitmap of %d bits is false", what, p, size)
			}
		}
	}
	check("set")
	for _, p := range []uint64{b.Size(), size + 7, 2 * size, 1 << 40, 1 << 63, 1<<64 - 1, 1<<32 + b.Size()} {
		if p >= b.Size() && (b.Set(p) || b.Unset(p) || b.IsSet(p)) {
			t.Failf("position %d of a bitmap of %d bits is accepted", p, size)
		}
	}
	check("out of range")
	if size < 1<<30 {
		n := size/2 + uint64(t.IntN(1000))
		b.Resize(n)
		for p := range m {
			if p >= b.Size() {
				delete(m, p)
			}
		}
		b.Resize(2 * size)
		check("resized")
		b = bitmap.NewFromData(b.Data())
		check("rebuilt")
	}
	t.NonTrivial()
}

func hugeBloom(t *T) {
	rng := pbt.NewRng(t.Uniform64())
	m := uint64(1)<<uint(t.Range(18, 27)) + uint64(t.IntN(1000))
	k := uint64(t.Range(1, 60))
	b := bloom.New(m, k)
	n := t.Range(500, 3000)
	salt := rng.Next()
	name := func(i int) string { return fmt.Sprintf("%d/%d", i, salt) }
	for i := 0; i < n; i++ {
		b.Add(name(i))
		if j := int(rng.N(uint64(i + 1))); !b.Contains(name(j)) {
			t.Failf("a filter of %d bits and %d hashes with %d strings does not contain one of them", m, k, i+1)
		}
	}
	data := bytes.Clone(b.Data())
	c := bloom.NewFromData(data)
	for i := 0; i < 2*n; i++ {
		x := b.Contains(name(i))
		if i < n && !x || c.Contains(name(i)) != x {
			t.Failf("a filter of %d bits and %d hashes with %d strings answers %v for string %d, its rebuilt copy %v", m, k, n, x, i, c.Contains(name(i)))
		}
	}
	t.NonTrivial()
}

func hugeHamt(t *T) {
	n, rng := hugeSize(t)
	h := hamt.New[int]()
	m := map[string]int{}
	long := t.Bool(1, 3)
	key := func(i int) string {
		if long && i%50 == 0 {
			return string(bytes.Repeat(binary.LittleEndian.AppendUint64(nil, uint64(i)), 40))
		}
		return string(binary.AppendUvarint(nil, uint64(i)))
	}
	check := func(what string) {
		for i := 0; i < n+100; i++ {
			k := key(i)
			v, err := h.Get(hamt.Key(k))
			if w, in := m[k]; (err == nil) != in || in && v != w {
				t.Failf("hamt %s with %d keys: Get(%d) = %d, %v; expected %d, %v", what, len(m), i, v, err, w, in)
			}
		}
		seen := map[string]bool{}
		stop := int(rng.N(uint64(2*len(m) + 1)))
		h.Traversal(func(k hamt.Key, v int) bool {
			if w, in := m[string(k)]; !in || v != w || seen[string(k)] {
				t.Failf("hamt %s: Traversal gives %x=%d", what, k, v)
			}
			seen[string(k)] = true
			return len(seen) < stop
		})
		if w := max(min(stop, len(m)), min(1, len(m))); len(seen) != w {
			t.Failf("hamt %s: Traversal visits %d of %d keys and should stop after %d", what, len(seen), len(m), w)
		}
		if ks := h.Keys(); len(ks) != len(m) {
			t.Failf("hamt %s: Keys() gives %d, expected %d", what, len(ks), len(m))
		}
	}
	for i := 0; i < n; i++ {
		k := key(i)
		h.Insert(hamt.Key(k), i)
		m[k] = i
		if i%6 == 1 {
			h.Insert(hamt.Key(k), -i)
			m[k] = -i
		}
	}
	check("filled")
	for i := 0; i < n; i++ {
		if rng.N(4) != 0 {
			k := key(i)
			if !h.Erase(hamt.Key(k)) {
				t.Failf("Erase(%d) is false", i)
			}
			delete(m, k)
			if h.Erase(hamt.Key(k)) {
				t.Failf("a second Erase(%d) is true", i)
			}
		}
	}
	check("thinned")
}

func hugeRing(t *T) {
	rng := pbt.NewRng(t.Uniform64())
	replicas := []int{1, 8, 40, 160, 300}[t.IntN(5)]
	n := t.Range(30, 24000/(replicas+40))
	name := func(i int) string { return fmt.Sprintf("node-%d", i) }
	build := func(order []int) *ketama.Ketama {
		k := ketama.New(ketama.WithReplicas(replicas))
		for _, i := range order {
			k.Add(name(i))
		}
		return k
	}
	a := build(arranged(0, n, rng))
	b := build(arranged(2, n, rng))
	// c had further nodes
	c := build(arranged(2, n+20, rng))
	for i := 0; i < 20; i++ {
		c.Remove(name(n + i))
	}
	var at []string
	for i := 0; i < 3000; i++ {
		key := fmt.Sprintf("key %d", i)
		x, ok := a.Get(key)
		y, ok2 := b.Get(key)
		z, ok3 := c.Get(key)
		if !ok || !ok2 || !ok3 || x != y || x != z {
			t.Failf("rings of the same %d nodes with %d replicas serve %q by %q, %q and %q", n, replicas, key, x, y, z)
		}
		at = append(at, x)
	}
	gone := map[string]bool{}
	var out []string
	for i := 0; i < n/2; i++ {
		if x := name(int(rng.N(uint64(n)))); !gone[x] {
			gone[x] = true
			out = append(out, x)
		}
	}
	for _, x := range out {
		a.Remove(x)
	}
	for i, x := range at {
		y, _ := a.Get(fmt.Sprintf("key %d", i))
		if gone[y] || !gone[x] && x != y {
			t.Failf("with %d of %d nodes removed, key %d moves from %q to %q", len(gone), n, i, x, y)
		}
	}
	for _, x := range out {
		a.Add(x)
	}
	for i, x := range at {
		if y, _ := a.Get(fmt.Sprintf("key %d", i)); x != y {
			t.Failf("with the nodes back, key %d is served by %q, not %q", i, y, x)
		}
	}
	t.NonTrivial()
}

// denseRing has so many points and keys that points or keys folded to 32 bits would
// meet, and then the order of the additions would show.
func denseRing(t *T) {
	n := t.Range(180, 250)
	replicas := 400000 / n
	tag := t.Uniform64()
	name := func(i int) string { return fmt.Sprintf("node-%d-%d", tag, i) }
	a, b := ketama.New(ketama.WithReplicas(replicas)), ketama.New(ketama.WithReplicas(replicas))
	for i := 0; i < n; i++ {
		a.Add(name(i))
		b.Add(name(n - 1 - i))
	}
	const keys = 700000
	at := make([]string, keys)
	key := func(i int) string { return string(binary.LittleEndian.AppendUint64(nil, tag+uint64(i))) }
	for i := range at {
		x, ok := a.Get(key(i))
		y, ok2 := b.Get(key(i))
		if !ok || !ok2 || x != y {
			t.Failf("rings of the same %d nodes with %d replicas serve a key by %q and by %q", n, replicas, x, y)
		}
		at[i] = x
	}
	gone := name(t.IntN(n))
	a.Remove(gone)
	for i, x := range at {
		if y, _ := a.Get(key(i)); y == gone || x != gone && x != y {
			t.Failf("with one of %d nodes of %d replicas removed, a key of another moves from %q to %q", n, replicas, x, y)
		}
	}
	t.NonTrivial()
}

func hugeHash(t *T) {
	n := 20000 + t.IntN(100000)
	seed := []byte(fmt.Sprint(t.Uniform64()))
	v := hash.GenHashInts(seed, n)
	seen := make(map[uint64]bool, n)
	for i, x := range v {
		if seen[x] {
			t.Failf("value %d of %d occurs before", i, n)
		}
		seen[x] = true
	}
	m := t.IntN(n)
	if w := hash.GenHashInts(seed, m); len(v) != n || !eqSlice(w, v[:m]) {
		t.Failf("the first %d of %d values differ from %d values", m, n, m)
	}
	t.NonTrivial()
}

// hugeAlgo runs one algorithm on a range of a huge container.
func hugeAlgo(t *T, which string) {
	n, rng := hugeSize(t)
	vals := arranged(t.IntN(5), n, rng)
	tied := which != "Sort" && which != "NthElement" && t.Bool(1, 2)
	for i := range vals {
		if tied {
			vals[i] = vals[i] / 5 * 5
		} else if rng.N(4) == 0 {
			vals[i] = vals[rng.N(uint64(n))]
		}
	}
	lo, hi := 0, n
	if t.Bool(1, 2) {
		lo = t.IntN(n / 4)
		hi = n - t.IntN(n/4)
	}
	if which == "Search" || which == "Perm" {
		sort.Ints(vals[lo:hi])
	}
	kind := seqKinds[t.Variant(4)]
	s := newSeq(kind, vals, t.IntN(n))
	in := cloneSlice(vals[lo:hi])
	first, last := s.iter(lo), s.iter(hi)
	cmp := func(a, b int) int { t.Tick(); return cmpInt(a, b) }
	t.Log("%s on [%d, %d) of a %s of %d", which, lo, hi, kind, n)
	switch which {
	case "Sort":
		gsort.Sort[int](first, last, cmp)
		sort.Ints(in)
	case "Stable":
		gsort.Stable[int](first, last, func(a, b int) int { return cmpInt(a/20, b/20) })
		sort.SliceStable(in, func(i, j int) bool { return in[i]/20 < in[j]/20 })
	case "NthElement":
		nth := int(rng.N(uint64(len(in))))
		gsort.NthElement[int](first, last, nth, cmp)
		got := s.contents()[lo:hi]
		for i, v := range got {
			if i < nth && v > got[nth] || i > nth && v < got[nth] {
				t.Failf("NthElement(%d) of %d: %d at %d, %d at %d", nth, len(in), got[nth], nth, v, i)
			}
		}
		sort.Ints(in)
		sort.Ints(got)
		sameInts(t, "the elements after NthElement", len(got), func(i int) int { return got[i] }, in)
		return
	case "Search":
		for i := 0; i < 2000; i++ {
			v := int(rng.N(uint64(n+4))) - 2
			a := sort.SearchInts(in, v)
			b := sort.SearchInts(in, v+1)
			if g := gsort.LowerBound[int](first, last, v, cmp).Position(); g != lo+a {
				t.Failf("LowerBound(%d) of %d is %d, expected %d", v, len(in), g, lo+a)
			}
			if g := gsort.UpperBound[int](first, last, v, cmp).Position(); g != lo+b {
				t.Failf("UpperBound(%d) of %d is %d, expected %d", v, len(in), g, lo+b)
			}
			if g := gsort.BinarySearch[int](first, last, v, cmp); g != (a < b) {
				t.Failf("BinarySearch(%d) of %d is %v", v, len(in), g)
			}
		}
	case "Perm":
		cut := len(in) - 1 - int(rng.N(uint64(len(in)-2))) // a descending tail
		slices.Reverse(in[cut:])
		for i, v := range in {
			s.set(lo+i, v)
		}
		for i := 0; i < 3; i++ {
			w := nextPerm(in, cmpInt)
			if g := gsort.NextPermutation[int](first, last, cmp); g != w {
				t.Failf("NextPermutation of %d elements is %v", len(in), g)
			}
		}
	case "Scan":
		v := in[rng.N(uint64(len(in)))]
		count, at := 0, -1
		for i, x := range in {
			if x == v {
				count++
				if at < 0 {
					at = i
				}
			}
		}
		is := func(x iterator.ConstIterator[int]) bool { return x.Value() == v }
		isnt := func(x iterator.ConstIterator[int]) bool { return x.Value() != v }
		pos := func(what string, x iterator.ConstIterator[int], w int) {
			if g := x.(iterator.RandomAccessIterator[int]).Position(); g != lo+w {
				t.Failf("%s on %d elements gives position %d, expected %d", what, len(in), g, lo+w)
			}
		}
		if a, b := algorithm.Count[int](first, last, v, cmp), algorithm.CountIf[int](first, last, is); a != count || b != count {
			t.Failf("Count is %d and CountIf %d, expected %d", a, b, count)
		}
		pos("Find", algorithm.Find[int](first, last, v, cmp), at)
		pos("FindIf", algorithm.FindIf[int](first, last, is), at)
		pos("Find of an absent value", algorithm.Find[int](first, last, -5, cmp), len(in))
		pos("MaxElement", algorithm.MaxElement[int](first, last, cmp), slices.Index(in, slices.Max(in)))
		pos("MinElement", algorithm.MinElement[int](first, last, cmp), slices.Index(in, slices.Min(in)))
		all := count == len(in)
		if algorithm.AnyOf[int](first, last, is) != true || algorithm.AllOf[int](first, last, is) != all ||
			algorithm.NoneOf[int](first, last, is) || algorithm.AllOf[int](first, last, isnt) || algorithm.AnyOf[int](first, last, isnt) == all {
			t.Failf("AnyOf, AllOf or NoneOf is wrong on %d elements", len(in))
		}
	case "Reverse":
		algorithm.Reverse[int](first, last)
		slices.Reverse(in)
		a, b := int(rng.N(uint64(len(in)))), int(rng.N(uint64(len(in))))
		algorithm.Swap[int](s.iter(lo+a), s.iter(lo+b))
		in[a], in[b] = in[b], in[a]
	}
	copy(vals[lo:hi], in)
	s.expect(t, vals)
	t.Class(kind)
}

func init() {
	add := func(id string, quick, thorough int, run func(t *T)) {
		pbt.AddPhase(id, pbt.Phase{Name: "huge", Quick: quick, Thorough: thorough, Run: run})
	}
	ordered := func(kinds ...string) func(t *T) { return func(t *T) { hugeOrdered(t, kinds) } }
	algo := func(which string) func(t *T) { return func(t *T) { hugeAlgo(t, which) } }
	add("C02", 40, 800, ordered("rbtree"))
	add("C04", 40, 800, ordered("map"))
	add("C05", 40, 800, ordered("multimap"))
	add("C06", 40, 800, ordered("set"))
	add("C08", 40, 800, ordered("multiset"))
	add("C09", 40, 800, ordered("rbtree", "map"))
	add("C43", 40, 800, ordered(orderedKinds...))
	add("C37", 40, 800, func(t *T) {
		switch t.Variant(5) {
		case 0, 1:
			hugeOrdered(t, orderedKinds)
		case 2:
			hugeHamt(t)
		case 3:
			hugeList(t)
		case 4:
			hugeSimple(t)
		}
	})
	add("C07", 40, 800, hugeAlgebra)
	pbt.AddPhase("C10", pbt.Phase{Name: "huge", Quick: 40, Thorough: 800, Clock: true, Run: hugeSkiplist})
	add("C12", 80, 1600, hugeDeque)
	add("C13", 40, 800, hugeVector)
	add("C15", 80, 1600, hugeRA)
	add("C16", 40, 800, hugeList)
	add("C17", 40, 800, hugeSimple)
	add("C18", 40, 800, func(t *T) { hugeAdapt(t, true) })
	add("C19", 40, 800, func(t *T) { hugeAdapt(t, false) })
	add("C20", 40, 800, hugePQ)
	add("C21", 40, 800, hugeHeap)
	add("C22", 40, 400, hugeBitmap)
	add("C23", 60, 1200, hugeBloom)
	add("C25", 16, 300, hugeHash)
	add("C26", 40, 800, hugeHamt)
	add("C27", 40, 800, hugeHamt)
	add("C28", 24, 400, hugeRing)
	pbt.AddPhase("C28", pbt.Phase{Name: "dense", Quick: 4, Thorough: 64, Run: denseRing})
	add("C30", 80, 1600, algo("Sort"))
	add("C31", 80, 1600, algo("Stable"))
	add("C32", 80, 1600, algo("Search"))
	add("C33", 80, 1600, algo("NthElement"))
	add("C34", 80, 1600, algo("Perm"))
	add("C35", 80, 1600, algo("Scan"))
	add("C36", 80, 1600, algo("Reverse"))
}
