package props

import (
	"fmt"
	"runtime"
	"syscall"
	"time"
	"unsafe"

	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/bitmap"
	bloom "github.com/liyue201/gostl/ds/bloomfilter"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/ketama"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/stack"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/iterator"
	"verifharness/pbt"
)

// Work that no comparator sees shows in time only. The time here is the thread's
// own processor time, on a small and on a large container of the same kind: the
// sizes differ by a factor of 128 and a bound of 24 plus a few microseconds is far
// from both what logarithmic and what linear work takes.

// cpuNow is the processor time of this thread.
func cpuNow() time.Duration {
	var ts syscall.Timespec
	const threadCPU = 3 // CLOCK_THREAD_CPUTIME_ID
	if _, _, e := syscall.RawSyscall(syscall.SYS_CLOCK_GETTIME, threadCPU, uintptr(unsafe.Pointer(&ts)), 0); e != 0 {
		panic("no thread clock: " + e.Error())
	}
	return time.Duration(ts.Nano())
}

// op is an operation that leaves the size as it is.
type op struct {
	name string
	do   func(r *pbt.Rng)
}

var timedKinds = []string{"rbtree", "map", "multimap", "set", "multiset", "skiplist", "hamt", "deque", "vector", "array", "slice",
	"bidlist", "simplelist", "queue", "stack", "priority queue", "bitmap", "bloom", "ketama"}

// timedOps fills a container with n elements and lists what can be done to it.
// With dup, keyed containers that keep duplicates hold many equal keys.
func timedOps(t *T, kind string, n, variant int) []op {
	key := func(r *pbt.Rng) int { return int(r.N(uint64(2 * n))) }
	walk := func(begin func() iterator.ConstIterator[int]) op {
		var x iterator.ConstIterator[int]
		return op{"iterator Next", func(*pbt.Rng) {
			if x == nil || !x.IsValid() {
				x = begin()
			}
			_ = x.Value()
			x.Next()
		}}
	}
	random := func(begin func() iterator.RandomAccessIterator[int]) []op {
		x := begin()
		return []op{
			{"IteratorAt", func(r *pbt.Rng) { _ = x.IteratorAt(int(r.N(uint64(n)))).Value() }},
			{"iterator Next and Prev", func(r *pbt.Rng) {
				y := x.IteratorAt(int(r.N(uint64(n))))
				y.Next()
				y.Prev()
				y.Equal(x)
			}},
			walk(func() iterator.ConstIterator[int] { return begin() }),
		}
	}
	switch kind {
	case "rbtree", "map", "multimap", "set", "multiset":
		c := newOrdered(kind, &dom[int]{name: "int", t: t, cmp: cmpInt}, variant&1 == 1)
		for _, k := range arranged(2, n, pbt.NewRng(uint64(n))) {
			c.insert(2*k, k)
		}
		ops := []op{
			{"Contains", func(r *pbt.Rng) { c.contains(key(r)) }},
			{"Find", func(r *pbt.Rng) { c.find(key(r)) }},
			{"LowerBound", func(r *pbt.Rng) { c.lower(key(r)) }},
			{"First", func(r *pbt.Rng) { c.first[r.N(uint64(len(c.first)))]() }},
			{"Last", func(r *pbt.Rng) { c.last[r.N(uint64(len(c.last)))]() }},
			{"Size", func(r *pbt.Rng) { c.size() }},
			{"Insert and Erase", func(r *pbt.Rng) {
				k := key(r) | 1
				c.insert(k, 1)
				c.erase(k)
			}},
			{"a traversal that stops", func(r *pbt.Rng) {
				i := 0
				c.traverse(func(int, int) bool { i++; return i < 3 })
			}},
		}
		if c.upper != nil {
			ops = append(ops, op{"UpperBound", func(r *pbt.Rng) { c.upper(key(r)) }})
		}
		if c.get != nil {
			ops = append(ops, op{"Get", func(r *pbt.Rng) { c.get(key(r)) }})
		}
		var x, y it[int]
		ops = append(ops, op{"iterator Next", func(*pbt.Rng) {
			if x == nil || !x.Valid() {
				x = c.first[0]()
			}
			x.Next()
		}})
		{
			ops = append(ops, op{"iterator Prev", func(*pbt.Rng) {
				if y == nil || !y.Valid() {
					y = c.last[0]()
				}
				y.Prev()
			}})
		}
		return ops
	case "skiplist":
		l := skiplist.New[int, int](cmpInt, skiplist.WithMaxLevel(20))
		for _, k := range arranged(2, n, pbt.NewRng(uint64(n))) {
			l.Insert(2*k, k)
		}
		return []op{
			{"Get", func(r *pbt.Rng) { l.Get(key(r)) }},
			{"Len", func(*pbt.Rng) { l.Len() }},
			{"Insert and Remove", func(r *pbt.Rng) {
				k := key(r) | 1
				l.Insert(k, 1)
				l.Remove(k)
			}},
			{"Insert of a present key", func(r *pbt.Rng) { l.Insert(key(r)&^1, 1) }},
			{"a traversal that stops", func(*pbt.Rng) {
				i := 0
				l.Traversal(func(int, int) bool { i++; return i < 3 })
			}},
		}
	case "hamt":
		h := hamt.New[int]()
		name := func(i int) hamt.Key { return hamt.Key(fmt.Sprint(i)) }
		for i := 0; i < n; i++ {
			h.Insert(name(2*i), i)
		}
		return []op{
			{"Get", func(r *pbt.Rng) { h.Get(name(key(r))) }},
			{"Insert and Erase", func(r *pbt.Rng) {
				k := name(key(r) | 1)
				h.Insert(k, 1)
				h.Erase(k)
			}},
			{"Insert of a present key", func(r *pbt.Rng) { h.Insert(name(key(r)&^1), 1) }},
			{"a traversal that stops", func(*pbt.Rng) {
				i := 0
				h.Traversal(func(hamt.Key, int) bool { i++; return i < 3 })
			}},
		}
	case "deque":
		d := deque.New[int]()
		for i := 0; i < n; i++ {
			if variant&1 == 1 && i%3 == 0 {
				d.PushFront(i)
			} else {
				d.PushBack(i)
			}
		}
		at := func(r *pbt.Rng) int { return int(r.N(uint64(n))) }
		return append(random(func() iterator.RandomAccessIterator[int] { return d.Begin() }),
			op{"At", func(r *pbt.Rng) { d.At(at(r)) }},
			op{"Set", func(r *pbt.Rng) { d.Set(at(r), 1) }},
			op{"PushBack and PopBack", func(*pbt.Rng) { d.PushBack(1); d.PopBack() }},
			op{"PushFront and PopFront", func(*pbt.Rng) { d.PushFront(1); d.PopFront() }},
			op{"PushBack and PopFront", func(*pbt.Rng) { d.PushBack(1); d.PopFront() }},
			op{"PushFront and PopBack", func(*pbt.Rng) { d.PushFront(1); d.PopBack() }},
			op{"Insert and EraseAt at the front", func(*pbt.Rng) { d.Insert(0, 1); d.EraseAt(0) }},
			op{"Insert and EraseAt at the back", func(*pbt.Rng) { d.Insert(n, 1); d.EraseAt(n) }},
			op{"EraseRange at an end", func(r *pbt.Rng) {
				if d.PushBack(1); r.N(2) == 0 {
					d.EraseRange(0, 1)
				} else {
					d.EraseRange(n, n+1)
				}
			}},
			op{"Front, Back and Size", func(*pbt.Rng) { d.Front(); d.Back(); d.Size(); d.Empty() }})
	case "vector":
		v := vector.New[int]()
		for i := 0; i < n; i++ {
			v.PushBack(i)
		}
		at := func(r *pbt.Rng) int { return int(r.N(uint64(n))) }
		return append(random(func() iterator.RandomAccessIterator[int] { return v.Begin() }),
			op{"At", func(r *pbt.Rng) { v.At(at(r)) }},
			op{"SetAt", func(r *pbt.Rng) { v.SetAt(at(r), 1) }},
			op{"PushBack and PopBack", func(*pbt.Rng) { v.PushBack(1); v.PopBack() }},
			op{"Front, Back and Size", func(*pbt.Rng) { v.Front(); v.Back(); v.Size(); v.Empty(); v.Data() }})
	case "array":
		a := array.New[int](n)
		at := func(r *pbt.Rng) int { return int(r.N(uint64(n))) }
		return append(random(func() iterator.RandomAccessIterator[int] { return a.Begin() }),
			op{"At", func(r *pbt.Rng) { a.At(at(r)) }},
			op{"Set", func(r *pbt.Rng) { a.Set(at(r), 1) }},
			op{"Front, Back and Size", func(*pbt.Rng) { a.Front(); a.Back(); a.Size(); a.Empty() }})
	case "slice":
		a := slice.NewSliceWrapper(make([]int, n))
		at := func(r *pbt.Rng) int { return int(r.N(uint64(n))) }
		return append(random(func() iterator.RandomAccessIterator[int] { return a.Begin() }),
			op{"At", func(r *pbt.Rng) { a.At(at(r)) }},
			op{"Set", func(r *pbt.Rng) { a.Set(at(r), 1) }},
			op{"Len", func(*pbt.Rng) { a.Len() }})
	case "bidlist":
		l := bidlist.New[int]()
		var nodes []*bidlist.Node[int]
		for i := 0; i < n; i++ {
			l.PushBack(i)
			nodes = append(nodes, l.BackNode())
		}
		any := func(r *pbt.Rng) *bidlist.Node[int] { return nodes[r.N(uint64(n))] }
		return []op{
			{"PushBack and PopBack", func(*pbt.Rng) { l.PushBack(1); l.Remove(l.BackNode()) }},
			{"PushFront and PopFront", func(*pbt.Rng) { l.PushFront(1); l.PopFront() }},
			{"InsertAfter and Remove", func(r *pbt.Rng) { l.Remove(l.InsertAfter(1, any(r))) }},
			{"InsertBefore and Remove", func(r *pbt.Rng) { l.Remove(l.InsertBefore(1, any(r))) }},
			{"MoveToFront", func(r *pbt.Rng) { l.MoveToFront(any(r)) }},
			{"MoveToBack", func(r *pbt.Rng) { l.MoveToBack(any(r)) }},
			{"MoveAfter", func(r *pbt.Rng) { l.MoveAfter(any(r), any(r)) }},
			{"Next and Prev", func(r *pbt.Rng) { any(r).Next(); any(r).Prev() }},
			{"Front, Back and Len", func(*pbt.Rng) {
				l.Front()
				l.Back()
				l.FrontNode()
				l.BackNode()
				l.Len()
				l.Empty()
			}},
			{"a traversal that stops", func(*pbt.Rng) {
				i := 0
				l.Traversal(func(int) bool { i++; return i < 3 })
			}},
		}
	case "simplelist":
		l := simplelist.New[int]()
		var nodes []*simplelist.Node[int]
		for i := 0; i < n; i++ {
			l.PushBack(i)
			nodes = append(nodes, l.BackNode())
		}
		any := func(r *pbt.Rng) *simplelist.Node[int] { return nodes[r.N(uint64(n))] }
		return []op{
			{"PushFront and Remove", func(*pbt.Rng) { l.PushFront(1); l.Remove(nil, l.FrontNode()) }},
			{"PushBack and Remove", func(*pbt.Rng) {
				last := l.BackNode()
				l.PushBack(1)
				l.Remove(last, l.BackNode())
			}},
			{"InsertAfter and Remove", func(r *pbt.Rng) {
				x := any(r)
				l.Remove(x, l.InsertAfter(1, x))
			}},
			{"MoveToFront and MoveToBack", func(r *pbt.Rng) {
				if x := any(r); x.Next() != nil {
					l.MoveToFront(x, x.Next())
				}
				l.MoveToBack(nil, l.FrontNode())
			}},
			{"Next, ends and Len", func(r *pbt.Rng) { any(r).Next(); l.Len(); l.FrontNode(); l.BackNode() }},
			{"a traversal that stops", func(*pbt.Rng) {
				i := 0
				l.Traversal(func(int) bool { i++; return i < 3 })
			}},
		}
	case "queue":
		var opts []queue.Option[int]
		if variant&1 == 1 {
			opts = append(opts, queue.WithListContainer[int]())
		}
		if variant&2 == 2 {
			opts = append(opts, queue.WithGoroutineSafe[int]())
		}
		q := queue.New(opts...)
		for i := 0; i < n; i++ {
			q.Push(i)
		}
		return []op{
			{"Push and Pop", func(*pbt.Rng) { q.Push(1); q.Pop() }},
			{"Front, Back and Size", func(*pbt.Rng) { q.Front(); q.Back(); q.Size(); q.Empty() }},
		}
	case "stack":
		var opts []stack.Option[int]
		if variant&1 == 1 {
			opts = append(opts, stack.WithListContainer[int]())
		}
		if variant&2 == 2 {
			opts = append(opts, stack.WithGoroutineSafe[int]())
		}
		s := stack.New(opts...)
		for i := 0; i < n; i++ {
			s.Push(i)
		}
		return []op{
			{"Push and Pop", func(*pbt.Rng) { s.Push(1); s.Pop() }},
			{"Top and Size", func(*pbt.Rng) { s.Top(); s.Size(); s.Empty() }},
		}
	case "priority queue":
		q := priorityqueue.New(cmpInt)
		for _, k := range arranged(2, n, pbt.NewRng(uint64(n))) {
			q.Push(2 * k)
		}
		return []op{
			{"Pop and Push", func(r *pbt.Rng) { q.Pop(); q.Push(key(r)) }},
			{"Top and Size", func(*pbt.Rng) { q.Top(); q.Size(); q.Empty() }},
		}
	case "bitmap":
		b := bitmap.New(64 * uint64(n))
		return []op{
			{"Set", func(r *pbt.Rng) { b.Set(r.N(64 * uint64(n))) }},
			{"Unset", func(r *pbt.Rng) { b.Unset(r.N(64 * uint64(n))) }},
			{"IsSet", func(r *pbt.Rng) { b.IsSet(r.N(64 * uint64(n))) }},
			{"Size", func(r *pbt.Rng) { b.Size(); b.Data() }},
		}
	case "bloom":
		b := bloom.New(64*uint64(n), 4)
		return []op{
			{"Add", func(r *pbt.Rng) { b.Add(fmt.Sprint(key(r))) }},
			{"Contains", func(r *pbt.Rng) { b.Contains(fmt.Sprint(key(r))) }},
		}
	case "ketama":
		var opts []ketama.Option
		if variant&1 == 1 {
			opts = append(opts, ketama.WithReplicas(1))
		}
		k := ketama.New(opts...)
		name := func(i int) string { return fmt.Sprint("node", i) }
		for i := 0; i < n; i++ {
			k.Add(name(i))
		}
		return []op{
			{"Get", func(r *pbt.Rng) { k.Get(fmt.Sprint(key(r))) }},
			{"Empty", func(r *pbt.Rng) { k.Empty() }},
			{"Add and Remove", func(r *pbt.Rng) {
				i := name(n + key(r))
				k.Add(i)
				k.Remove(i)
			}},
		}
	}
	panic(kind)
}

// opTimes measures every operation: the least average of several rounds.
func opTimes(ops []op) []time.Duration {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	out := make([]time.Duration, len(ops))
	const each = 200
	for i, o := range ops {
		rng := pbt.NewRng(uint64(i))
		best := time.Duration(1 << 62)
		for round := 0; round < 6; round++ {
			start := cpuNow()
			for j := 0; j < each; j++ {
				o.do(rng)
			}
			best = min(best, (cpuNow()-start)/each)
			if best > 100*time.Microsecond && round > 1 {
				break
			}
		}
		out[i] = best
	}
	return out
}

const timeFactor, timeSlack = 24, 4 * time.Microsecond

func runTimes(t *T) {
	kind := timedKinds[t.Variant(len(timedKinds))]
	small := 700 + t.IntN(400)
	if kind == "ketama" {
		small /= 8
	}
	variant := t.IntN(4)
	t.Log("%s of %d and %d elements", kind, small, 128*small)
	var message string
	for try := 0; try < 4; try++ {
		t.Tick()
		ops := timedOps(t, kind, small, variant)
		a := opTimes(ops)
		b := opTimes(timedOps(t, kind, 128*small, variant))
		ok := true
		for i := range ops {
			if b[i] > timeFactor*a[i]+timeSlack {
				ok = false
				message = fmt.Sprintf("%s on a %s takes %v with %d elements and %v with %d", ops[i].name, kind, a[i], small, b[i], 128*small)
			}
		}
		if ok {
			t.NonTrivial()
			t.Class(kind)
			return
		}
		t.Log("%s", message)
	}
	t.Failf("%s (the least of several rounds, in each of four tries)", message)
}

func init() {
	pbt.AddPhase("C46", pbt.Phase{Name: "time", Quick: 38, Thorough: 600, Run: runTimes})
}
