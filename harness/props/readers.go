package props

import (
	"fmt"
	"slices"
	"sort"
	"strings"
	"sync"

	"github.com/liyue201/gostl/algorithm"
	"github.com/liyue201/gostl/algorithm/hash"
	gsort "github.com/liyue201/gostl/algorithm/sort"
	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/bitmap"
	bloom "github.com/liyue201/gostl/ds/bloomfilter"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/ketama"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/iterator"
	"verifharness/pbt"
)

// C47: reading changes nothing. A shelf is a container whose changes and reads are
// given by numbers, so that twins can be built and asked the same. No function of
// it draws from the case: reads run on several goroutines at once.
type shelf struct {
	kind   string
	do     func(op [3]int)
	settle func()                // after changes: renews what the reads share
	ask    func(q [3]int) string // a read, and what it tells
	hook   func()                // called in visitors, predicates and comparators
}

var shelfKinds = []string{"array", "slice", "vector", "deque", "bidlist", "simplelist", "rbtree", "map", "multimap", "set", "multiset",
	"skiplist", "hamt", "queue", "stack", "queue on a list", "stack on a list", "priority queue", "bitmap", "bloom filter", "ketama"}

func (s *shelf) called() {
	if s.hook != nil {
		s.hook()
	}
}

// answer is ask with panics turned into answers.
func (s *shelf) answer(q [3]int) (out string) {
	defer func() {
		if e := recover(); e != nil {
			out = fmt.Sprint("panic: ", e)
		}
	}()
	return s.ask(q)
}

func newShelf(kind string, n int, safe bool) *shelf {
	return newShelfOf(kind, n, safe, newShared(safe, strings.HasSuffix(kind, "on a list")))
}

// newShelfOf makes a shelf with options that others may be made with too.
func newShelfOf(kind string, n int, safe bool, sh *shared) *shelf {
	s := &shelf{kind: kind, settle: func() {}}
	cmp := func(a, b int) int { s.called(); return cmpInt(a, b) }
	switch kind {
	case "array", "slice", "vector", "deque":
		s.sequence(n, cmp)
	case "bidlist":
		s.bidlist()
	case "simplelist":
		s.simplelist()
	case "algorithms":
		s.algorithms(n)
	case "heap":
		s.heap()
	case "skiplist":
		s.skiplist(skiplist.New[int, int](cmp, sh.sk...))
	case "hamt":
		s.hamt(hamt.New[int](sh.hm...))
	case "queue", "stack", "queue on a list", "stack on a list":
		s.adapter(newAdapt(strings.HasPrefix(kind, "queue"), sh.qu, sh.sa))
	case "priority queue":
		s.pq(priorityqueue.New(cmp, sh.pq...))
	case "bitmap":
		s.bitmap(bitmap.New(uint64(8 * n)))
	case "bloom filter":
		s.bloom(bloom.New(uint64(100+8*n), uint64(1+n%20), sh.bl...))
	case "ketama":
		s.ketama(ketama.New(append(slices.Clone(sh.kt), ketama.WithReplicas(1+n%30))...))
	default:
		d := &dom[int]{name: "int", cmp: cmp, plain: true, shared: sh}
		s.ordered(newOrdered(kind, d, safe), newOrdered(kind, d, safe))
	}
	return s
}

func (s *shelf) sequence(n int, cmp func(a, b int) int) {
	vals := make([]int, n)
	for i := range vals {
		vals[i] = i * 37 % 101
	}
	c := newSeq(s.kind, vals, n/3)
	var first, last iterator.RandomAccessIterator[int]
	s.settle = func() { first, last = c.begin(), c.end() }
	s.do = func(op [3]int) {
		n := c.size()
		p, q := op[1]%(n+1), op[2]%(n+1)
		p, q = min(p, q), max(p, q)
		k := op[0] % 8
		if c.push == nil && k > 1 {
			k = op[0] % 2
		}
		d, _ := c.raw.(*deque.Deque[int])
		v, _ := c.raw.(*vector.Vector[int])
		switch {
		case k == 0 && p < n:
			c.set(p, op[2])
		case k == 1 && p < n:
			c.iter(p).SetValue(op[2])
		case k == 2 && n > 0:
			c.pop()
		case k == 3 && d != nil:
			d.PushFront(op[2])
		case k == 4 && d != nil:
			d.Insert(p, op[2])
		case k == 4 && v != nil:
			v.InsertAt(p, op[2])
		case k == 5 && d != nil:
			d.EraseRange(p, min(q, p+3))
		case k == 5 && v != nil:
			v.EraseIndexRange(p, min(q, p+3))
		case k == 6 && d != nil && n > 0:
			d.PopFront()
		case k == 6 && v != nil:
			v.ShrinkToFit()
		case c.push != nil:
			c.push(op[2])
		}
	}
	s.ask = func(q [3]int) string {
		n := c.size()
		p := q[1] % (n + 2)
		even := func(i iterator.ConstIterator[int]) bool { s.called(); return i.Value()%2 == q[2]%2 }
		pos := func(i iterator.ConstIterator[int]) int { return i.(iterator.RandomAccessIterator[int]).Position() }
		switch q[0] % 14 {
		case 0:
			return fmt.Sprint(c.at(p))
		case 1:
			return fmt.Sprint(n, first.IsValid(), last.IsValid(), first.Equal(last), first.Position(), last.Position())
		case 2:
			if c.str != nil {
				return c.str()
			}
		case 3:
			out := ""
			for x := first.Clone(); !x.Equal(last); x.Next() {
				out += fmt.Sprint(x.Value(), " ")
			}
			return out
		case 4:
			x := first.IteratorAt(p)
			y := x.Clone().(iterator.RandomAccessIterator[int])
			y.Prev()
			x.Next()
			return fmt.Sprint(x.Position(), x.IsValid(), y.Position(), y.IsValid(), x.Equal(y))
		case 5:
			return fmt.Sprint(algorithm.Count[int](first, last, q[2]%101, cmp))
		case 6:
			return fmt.Sprint(pos(algorithm.Find[int](first, last, q[2]%101, cmp)))
		case 7:
			return fmt.Sprint(pos(algorithm.MaxElement[int](first, last, cmp)), pos(algorithm.MinElement[int](first, last, cmp)))
		case 8:
			return fmt.Sprint(gsort.LowerBound[int](first, last, q[2]%101, cmp).Position(), gsort.UpperBound[int](first, last, q[2]%101, cmp).Position(),
				gsort.BinarySearch[int](first, last, q[2]%101, cmp))
		case 9:
			switch o := c.raw.(type) {
			case *array.Array[int]:
				return array.NewFromArray(o).String()
			case *vector.Vector[int]:
				return vector.NewFromVector(o).String()
			}
		case 10:
			switch o := c.raw.(type) {
			case *array.Array[int]:
				return fmt.Sprint(o.Empty(), o.Front(), o.Back())
			case *vector.Vector[int]:
				return fmt.Sprint(o.Empty(), o.Front(), o.Back())
			case *deque.Deque[int]:
				return fmt.Sprint(o.Empty(), o.Front(), o.Back())
			}
		case 11:
			return fmt.Sprint(algorithm.AnyOf(first, last, even), algorithm.AllOf(first, last, even), algorithm.NoneOf(first, last, even),
				algorithm.CountIf(first, last, even), pos(algorithm.FindIf(first, last, even)))
		case 12:
			out := ""
			for x := c.last(); x.IsValid(); x.Prev() {
				out += fmt.Sprint(x.Value(), " ")
			}
			return out
		case 13:
			switch o := c.raw.(type) {
			case *array.Array[int]:
				return fmt.Sprint(o.Data())
			case *vector.Vector[int]:
				return fmt.Sprint(o.Data())
			}
		}
		return fmt.Sprint(c.contents())
	}
}

func (s *shelf) bidlist() {
	l := bidlist.New[int]()
	node := func(i int) *bidlist.Node[int] {
		x := l.FrontNode()
		for i = i % l.Len(); i > 0; i-- {
			x = x.Next()
		}
		return x
	}
	var shared *bidlist.ListIterator[int]
	s.settle = func() { shared = bidlist.NewIterator(l.FrontNode()) }
	s.do = func(op [3]int) {
		if l.Len() == 0 {
			op[0] = 0
		}
		switch op[0] % 7 {
		case 0:
			l.PushBack(op[2])
		case 1:
			l.PushFront(op[2])
		case 2:
			l.Remove(node(op[1]))
		case 3:
			l.MoveToBack(node(op[1]))
		case 4:
			l.MoveToFront(node(op[1]))
		case 5:
			l.InsertBefore(op[2], node(op[1]))
		case 6:
			node(op[1]).Value = op[2]
		}
	}
	s.ask = func(q [3]int) string {
		out := ""
		switch q[0] % 8 {
		case 0:
			return fmt.Sprint(l.Len(), l.Size(), l.Empty())
		case 1:
			return fmt.Sprint(l.Front(), l.Back())
		case 2:
			return l.String()
		case 3:
			for x := l.FrontNode(); x != nil; x = x.Next() {
				out += fmt.Sprint(x.Value, " ")
			}
		case 4:
			for x := l.BackNode(); x != nil; x = x.Prev() {
				out += fmt.Sprint(x.Value, " ")
			}
		case 5:
			stop := 1 + q[1]%(l.Len()+1)
			l.Traversal(func(v int) bool {
				s.called()
				out += fmt.Sprint(v, " ")
				stop--
				return stop > 0
			})
		case 6:
			o := bidlist.New[int]()
			o.PushBackList(l)
			o.PushFrontList(l)
			return o.String()
		case 7:
			for x := shared.Clone(); x.IsValid(); x.Next() {
				out += fmt.Sprint(x.Value(), x.Equal(shared), " ")
			}
		}
		return out
	}
}

func (s *shelf) simplelist() {
	l := simplelist.New[int]()
	node := func(i int) *simplelist.Node[int] {
		x := l.FrontNode()
		for i = i % l.Len(); i > 0; i-- {
			x = x.Next()
		}
		return x
	}
	s.do = func(op [3]int) {
		if l.Len() < 2 {
			op[0] %= 2
		}
		switch op[0] % 6 {
		case 0:
			l.PushBack(op[2])
		case 1:
			l.PushFront(op[2])
		case 2:
			x := node(op[1])
			if x.Next() == nil {
				x = l.FrontNode()
			}
			l.Remove(x, x.Next())
		case 3:
			l.InsertAfter(op[2], node(op[1]))
		case 4:
			l.MoveToBack(nil, l.FrontNode())
		case 5:
			l.MoveToFront(l.FrontNode(), l.FrontNode().Next())
		}
	}
	s.ask = func(q [3]int) string {
		out := ""
		switch q[0] % 5 {
		case 0:
			return fmt.Sprint(l.Len())
		case 1:
			return fmt.Sprint(l.FrontNode().Value, l.BackNode().Value)
		case 2:
			return l.String()
		case 3:
			for x := simplelist.NewIterator(l.FrontNode()); x.IsValid(); x.Next() {
				out += fmt.Sprint(x.Value(), " ")
			}
		case 4:
			stop := 1 + q[1]%(l.Len()+1)
			l.Traversal(func(v int) bool {
				s.called()
				out += fmt.Sprint(v, " ")
				stop--
				return stop > 0
			})
		}
		return out
	}
}

func (s *shelf) ordered(c, other *ocont[int]) {
	for i := 0; i < 12; i++ {
		other.insert(i*i%23, i)
	}
	var shared it[int]
	s.settle = func() { shared = c.first[0]() }
	s.do = func(op [3]int) {
		k := op[1] % 40
		switch op[0] % 5 {
		case 0, 1, 2:
			c.insert(k, op[2])
		case 3:
			if c.contains(k) {
				c.erase(k)
			}
		case 4:
			if x := c.lower(k); x.Valid() {
				if y := x.Clone(); c.hasVal && op[2]%2 == 0 {
					y.SetVal(op[2])
				} else if !c.eraseIt(x) {
					c.erase(x.Key())
				}
			}
		}
	}
	show := func(x it[int]) string {
		if !x.Valid() {
			return "-"
		}
		return fmt.Sprint(x.Key(), "=", x.Val())
	}
	walk := func(x it[int], back bool, most int) string {
		out := ""
		for ; x.Valid() && most > 0; most-- {
			out += show(x) + " "
			if back {
				x.Prev()
			} else {
				x.Next()
			}
		}
		return out
	}
	list := func(c *ocont[int], stop int) string {
		out := ""
		c.traverse(func(k, v int) bool {
			s.called()
			out += fmt.Sprint(k, "=", v, " ")
			stop--
			return stop != 0
		})
		return out
	}
	s.ask = func(q [3]int) string {
		k := q[1] % 42
		most := 1 + q[2]%60
		switch q[0] % 15 {
		case 0:
			return fmt.Sprint(c.size())
		case 1:
			return fmt.Sprint(c.contains(k))
		case 2:
			if c.get != nil {
				return fmt.Sprint(c.get(k))
			}
			return fmt.Sprint(c.contains(k))
		case 3:
			return show(c.find(k))
		case 4:
			return walk(c.lower(k), q[2]%2 == 0, most)
		case 5:
			return walk(c.upper(k), q[2]%2 == 0, most)
		case 6:
			return walk(c.first[q[2]%len(c.first)](), false, most)
		case 7:
			return walk(c.last[q[2]%len(c.last)](), true, most)
		case 8:
			return list(c, most)
		case 9:
			if c.str != nil {
				return c.str()
			}
		case 10:
			if c.count != nil {
				return fmt.Sprint(c.count(k))
			}
		case 11:
			if c.union != nil {
				return list(c.union(other), 0) + list(other.union(c), 0)
			}
		case 12:
			if c.inter != nil {
				return list(c.inter(other), 0) + list(c.diff(other), 0) + list(other.diff(c), 0)
			}
		case 13:
			if tr, is := c.raw.(*rbtree.RbTree[int, int]); is {
				ok, err := tr.IsRbTree()
				return fmt.Sprint(ok, err, tr.Empty())
			}
		case 14:
			return fmt.Sprint(shared.Valid(), shared.Equal(shared.Clone()), walk(shared.Clone(), false, most))
		}
		return show(c.find(k))
	}
}

func (s *shelf) skiplist(l *skiplist.Skiplist[int, int]) {
	s.do = func(op [3]int) {
		if op[0]%3 == 0 {
			l.Remove(op[1] % 60)
		} else {
			l.Insert(op[1]%60, op[2])
		}
	}
	s.ask = func(q [3]int) string {
		switch q[0] % 6 {
		case 0:
			return fmt.Sprint(l.Len())
		case 1:
			return fmt.Sprint(l.Keys())
		case 2:
			out, stop := "", 1+q[2]%60
			l.Traversal(func(k, v int) bool {
				s.called()
				out += fmt.Sprint(k, "=", v, " ")
				stop--
				return stop > 0
			})
			return out
		default:
			return fmt.Sprint(l.Get(q[1] % 62))
		}
	}
}

func (s *shelf) hamt(h *hamt.Hamt[int]) {
	equal := fnvKeys([]string{""}, fnvChains[len(fnvChains)-1].pairs) // all of the same hash
	key := func(n int) []byte {
		if n %= 80; n >= 60 {
			return []byte(equal[n%len(equal)])
		}
		return fmt.Appendf(nil, "k%d", n)
	}
	s.do = func(op [3]int) {
		if op[0]%3 == 0 {
			h.Erase(key(op[1]))
		} else {
			h.Insert(key(op[1]), op[2])
		}
	}
	s.ask = func(q [3]int) string {
		var all []string
		switch q[0] % 6 {
		case 0:
			for _, k := range h.Keys() {
				all = append(all, string(k))
			}
		case 1:
			all = h.StringKeys()
		case 2:
			h.Traversal(func(k hamt.Key, v int) bool {
				s.called()
				all = append(all, fmt.Sprint(string(k), "=", v))
				return true
			})
		default:
			return fmt.Sprint(h.Get(key(q[1])))
		}
		sort.Strings(all)
		return fmt.Sprintf("%q", all)
	}
}

func (s *shelf) adapter(a *adapt[int]) {
	s.do = func(op [3]int) {
		if op[0]%3 == 0 && !a.empty() {
			a.pop()
		} else {
			a.push(op[2])
		}
	}
	s.ask = func(q [3]int) string {
		switch q[0] % 5 {
		case 0:
			return fmt.Sprint(a.size())
		case 1:
			return fmt.Sprint(a.empty())
		case 2:
			if a.front != nil {
				return fmt.Sprint(a.front())
			}
		case 3:
			return a.str()
		}
		return fmt.Sprint(a.back())
	}
}

func (s *shelf) pq(p *priorityqueue.PriorityQueue[int]) {
	s.do = func(op [3]int) {
		if op[0]%3 == 0 && !p.Empty() {
			p.Pop()
		} else {
			p.Push(op[2])
		}
	}
	s.ask = func(q [3]int) string {
		if q[0]%2 == 0 {
			return fmt.Sprint(p.Size(), p.Empty())
		}
		return fmt.Sprint(p.Top())
	}
}

func (s *shelf) bitmap(b *bitmap.Bitmap) {
	s.do = func(op [3]int) {
		p := uint64(op[1]) % (b.Size() + 1)
		switch op[0] % 8 {
		case 0:
			b.Unset(p)
		case 1:
			if op[2]%16 == 0 {
				b.Clear()
			} else {
				b.Resize(b.Size() + uint64(op[2]%30))
			}
		default:
			b.Set(p)
		}
	}
	s.ask = func(q [3]int) string {
		switch q[0] % 5 {
		case 0:
			return fmt.Sprint(b.Size())
		case 1:
			return fmt.Sprint(b.Data())
		case 2:
			c := bitmap.NewFromData(append([]byte(nil), b.Data()...))
			return fmt.Sprint(c.Size(), c.Data())
		default:
			return fmt.Sprint(b.IsSet(uint64(q[1]) % (b.Size() + 9)))
		}
	}
}

func (s *shelf) bloom(f *bloom.BloomFilter) {
	name := func(n int) string { return strings.Repeat("x", n%5) + fmt.Sprint(n%50) }
	s.do = func(op [3]int) { f.Add(name(op[1])) }
	s.ask = func(q [3]int) string {
		switch q[0] % 4 {
		case 0:
			return fmt.Sprint(f.Data())
		case 1:
			c := bloom.NewFromData(f.Data())
			return fmt.Sprint(c.Contains(name(q[1])))
		default:
			return fmt.Sprint(f.Contains(name(q[1])))
		}
	}
}

func (s *shelf) ketama(r *ketama.Ketama) {
	seed := make([]byte, 3, 200) // with room behind it
	copy(seed, "abc")
	s.do = func(op [3]int) {
		if op[0]%3 == 0 {
			r.Remove(fmt.Sprint("node", op[1]%6))
		} else {
			r.Add(fmt.Sprint("node", op[1]%6))
		}
	}
	s.ask = func(q [3]int) string {
		switch q[0] % 4 {
		case 0:
			return fmt.Sprint(r.Empty())
		case 1:
			return fmt.Sprint(hash.GenHashInts(seed, 1+q[1]%40), hash.Hash512(seed))
		default:
			return fmt.Sprint(r.Get(fmt.Sprint("key", q[1]%100)))
		}
	}
}

// drawn is a list of changes or reads.
func drawn(t *T, most int) [][3]int {
	n := 1 + t.IntN(most)
	rng := pbt.NewRng(t.Uniform64())
	out := make([][3]int, n)
	for i := range out {
		out[i] = [3]int{int(rng.N(840)), int(rng.N(5040)), int(rng.N(101))}
	}
	return out
}

// twins builds a container with the same history several times.
func twins(t *T, safe bool, count int) []*shelf {
	kind := shelfKinds[t.Variant(len(shelfKinds))]
	n := t.Size(40)
	if t.Bool(1, 10) {
		n += 130 + t.IntN(300)
	}
	ops := drawn(t, 10+n)
	t.Log("%s (%d, safe %v) after %d changes", kind, n, safe, len(ops))
	var out []*shelf
	for ; count > 0; count-- {
		s := newShelf(kind, n, safe)
		for _, op := range ops {
			s.do(op)
		}
		s.settle()
		out = append(out, s)
	}
	t.Class(kind)
	return out
}

// later makes the same further changes to two twins and compares all they tell.
func later(t *T, s, twin *shelf) {
	more, reads := drawn(t, 20), drawn(t, 20)
	for _, op := range more {
		s.do(op)
		twin.do(op)
	}
	s.settle()
	twin.settle()
	for _, q := range reads {
		if g, w := s.answer(q), twin.answer(q); g != w {
			t.Failf("%s: %d changes after the reads, read %v tells %s; it tells %s of its twin that was not read", s.kind, len(more), q, g, w)
		}
	}
}

// readAtOnce reads a container from several goroutines, each of which must be told
// what a lone reader of its twin is.
func readAtOnce(t *T) {
	ss := twins(t, t.Bool(1, 4), 2)
	s, twin := ss[0], ss[1]
	lists := make([][][3]int, 2+t.IntN(3))
	wants := make([][]string, len(lists))
	for i := range lists {
		lists[i] = drawn(t, 8)
		for _, q := range lists[i] {
			wants[i] = append(wants[i], twin.answer(q))
		}
	}
	wrong := make([]string, len(lists))
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := range lists {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for j, q := range lists[i] {
				if g := s.answer(q); g != wants[i][j] && wrong[i] == "" {
					wrong[i] = fmt.Sprintf("%s read by %d goroutines: read %v tells %s, a lone reader is told %s", s.kind, len(lists), q, g, wants[i][j])
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, w := range wrong {
		if w != "" {
			t.Failf("%s", w)
		}
	}
	later(t, s, twin)
	t.NonTrivial()
}

// readSilently compares a container that is read between its changes, in visitors,
// predicates and comparators of other reads too, with twins that are not.
func readSilently(t *T) {
	pinRand(t)
	ss := twins(t, false, 3)
	s, twin, lone := ss[0], ss[1], ss[2]
	nested := 0
	for round := 1 + t.IntN(4); round > 0; round-- {
		inner := drawn(t, 3)
		for _, q := range drawn(t, 12) {
			want := lone.answer(q)
			at, calls, bad := t.IntN(12), 0, ""
			if t.Bool(1, 2) {
				s.hook = func() {
					if calls++; calls-1 != at {
						return
					}
					nested++
					h := s.hook
					s.hook = nil
					for _, r := range inner {
						if g, w := s.answer(r), lone.answer(r); g != w && bad == "" {
							bad = fmt.Sprintf("%s: read %v, made within read %v, tells %s; outside it tells %s", s.kind, r, q, g, w)
						}
					}
					s.hook = h
				}
			}
			g := s.answer(q)
			s.hook = nil
			if bad != "" {
				t.Failf("%s", bad)
			}
			if g != want {
				t.Failf("%s: read %v tells %s, of its twin %s", s.kind, q, g, want)
			}
		}
		for _, op := range drawn(t, 6) {
			s.do(op)
			twin.do(op)
			lone.do(op)
		}
		s.settle()
		twin.settle()
		lone.settle()
	}
	later(t, s, twin)
	t.NonTrivial()
	t.ClassIf(nested > 0, "nested reads")
}

func init() {
	pbt.Register(pbt.Prop{
		ID:   "C47",
		Rule: "a container with at least one read (at once: by two or more goroutines)",
		Assumptions: []string{"expected answers are those of a twin with the same history, asked by one goroutine",
			"schedules under the race detector are those the runtime happens to take; a race is found in any schedule in which two reads touch the same state"},
		Phases: []pbt.Phase{
			{Name: "silent", Quick: 120000, Thorough: 1500000, Clock: true, Run: readSilently},
			{Name: "at once", Quick: 20000, Thorough: 200000, Procs: 4, Workers: 4, NoRerun: true, Run: readAtOnce},
			{Name: "race detector", Quick: 8000, Thorough: 80000, Procs: 4, Workers: 4, NoRerun: true, Race: true, Run: readAtOnce},
		},
	})
}
