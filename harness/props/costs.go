package props

import (
	"fmt"
	"math"
	"runtime"

	"github.com/liyue201/gostl/algorithm"
	gsort "github.com/liyue201/gostl/algorithm/sort"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/heap"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/stack"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/iterator"
	"verifharness/pbt"
)

// costDom is a domain of ints that counts comparisons.
func costDom(t *T, calls *int) *dom[int] {
	return &dom[int]{name: "int", t: t, cmp: func(a, b int) int { *calls++; return cmpInt(a, b) }}
}

func log2(n int) float64 { return math.Log2(float64(n) + 2) }

// arranged gives 0..n-1 in one of several orders.
func arranged(order, n int, rng *pbt.Rng) []int {
	out := make([]int, n)
	for i := range out {
		switch order {
		case 0, 2:
			out[i] = i
		case 1:
			out[i] = n - 1 - i
		case 3: // from both ends inwards
			out[i] = i / 2
			if i%2 == 1 {
				out[i] = n - 1 - i/2
			}
		case 4: // two ascending runs
			out[i] = i * 2 % (n | 1)
		}
	}
	if order == 2 {
		for i := n - 1; i > 0; i-- {
			j := int(rng.N(uint64(i + 1)))
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

func size(t *T, lo, hi int) int { return lo + t.IntN(hi-lo+1) }

// within fails when an operation took more calls than it may.
func within(t *T, what string, n, calls int, limit float64) {
	if float64(calls) > limit {
		t.Failf("%s with %d elements makes %d comparisons, more than %.0f", what, n, calls, limit)
	}
}

// runTreeCost bounds the comparisons of single operations on ordered containers.
func runTreeCost(t *T) {
	kind := orderedKinds[t.Variant(len(orderedKinds))]
	n := size(t, 400, 3000)
	order, dups := t.IntN(5), 1
	if kind == "multimap" || kind == "multiset" || kind == "rbtree" {
		dups = t.Range(1, 3)
	}
	rng := pbt.NewRng(t.Uniform64())
	calls := 0
	c := newOrdered(kind, costDom(t, &calls), t.Bool(1, 4))
	t.Log("%s, %d keys %d times, order %d", kind, n, dups, order)
	limit := func() float64 { return 16*log2(c.size()) + 32 }
	run := func(what string, k int, lim float64, f func()) {
		size := c.size()
		calls = 0
		f()
		within(t, fmt.Sprintf("%s(%d) on a %s", what, k, kind), size, calls, lim)
	}
	for d := 0; d < dups; d++ {
		for _, k := range arranged(order, n, rng) {
			run("Insert", k, limit(), func() { c.insert(2*k, d) })
		}
	}
	if t.Bool(1, 2) { // thin it out
		keep := 1 + rng.N(8)
		for k := 0; k < n; k++ {
			if rng.N(8) >= keep {
				run("Erase", 2*k, limit()*float64(dups+1), func() { c.erase(2 * k) })
			}
		}
	}
	for i := 0; i < 60; i++ {
		t.Tick()
		k := int(rng.N(uint64(2*n+4))) - 2
		run("Contains", k, limit(), func() { c.contains(k) })
		run("Find", k, limit(), func() { c.find(k) })
		run("LowerBound", k, limit(), func() { c.lower(k) })
		if c.upper != nil {
			run("UpperBound", k, limit(), func() { c.upper(k) })
		}
		if c.get != nil {
			run("Get", k, limit(), func() { c.get(k) })
		}
		if c.count != nil {
			run("Count", k, 2*float64(c.size())+limit(), func() { c.count(k) })
		}
		run("First", k, 4, func() { c.first[0]() })
		run("Last", k, 4, func() { c.last[0]() })
		switch rng.N(3) {
		case 0:
			run("Insert", k, limit(), func() { c.insert(k, i) })
		case 1:
			run("Erase", k, limit()*float64(dups+62), func() { c.erase(k) })
		case 2:
			if x := c.find(k); x.Valid() {
				run("EraseIter", k, limit(), func() { c.eraseIt(x) })
			}
		}
	}
	visited := 0
	run("Traversal", 0, 4*float64(c.size())+16, func() { c.traverse(func(int, int) bool { visited++; return true }) })
	if float64(c.size())/4 > limit() { // a linear search would fail
		t.NonTrivial()
	}
	t.Class(kind)
}

// runAlgebraCost bounds the comparisons of set operations.
func runAlgebraCost(t *T) {
	rng := pbt.NewRng(t.Uniform64())
	calls := 0
	d := costDom(t, &calls)
	a, b := newSet(d, t.Bool(1, 4)), newSet(d, t.Bool(1, 4))
	n, m := size(t, 0, 4000), size(t, 300, 4000)
	if t.Bool(1, 3) {
		n = m
	}
	step, shift := t.Range(1, 4), t.Range(-1, 1)*t.IntN(3000)
	for i := 0; i < n; i++ {
		a.insert(2*i, 0)
	}
	for i := 0; i < m; i++ {
		b.insert(shift+i*step+int(rng.N(2)), 0)
	}
	if t.Bool(1, 2) {
		a, b = b, a
	}
	total := a.size() + b.size()
	limit := float64(total+2) * (8*log2(total) + 16)
	t.Log("%d and %d elements", a.size(), b.size())
	for i, f := range []func(*ocont[int]) *ocont[int]{a.union, a.inter, a.diff} {
		calls = 0
		f(b)
		within(t, []string{"Union", "Intersect", "Diff"}[i], total, calls, limit)
	}
	if float64(a.size())*float64(b.size())/4 > limit {
		t.NonTrivial()
	}
	t.Class("set algebra")
}

// counted is a heap that counts what is asked of it.
type counted struct {
	s           []int
	less, swaps int
}

func (h *counted) Len() int           { return len(h.s) }
func (h *counted) Less(i, j int) bool { h.less++; return h.s[i] < h.s[j] }
func (h *counted) Swap(i, j int)      { h.swaps++; h.s[i], h.s[j] = h.s[j], h.s[i] }
func (h *counted) Push(v int)         { h.s = append(h.s, v) }
func (h *counted) Pop() int           { v := h.s[len(h.s)-1]; h.s = h.s[:len(h.s)-1]; return v }

func runHeapCost(t *T) {
	n := size(t, 200, 2000)
	order := t.IntN(5)
	rng := pbt.NewRng(t.Uniform64())
	vals := arranged(order, n, rng)
	if t.Bool(1, 4) { // many ties
		for i := range vals {
			vals[i] %= 7
		}
	}
	h := &counted{s: cloneSlice(vals)}
	check := func(what string, size int, limit float64) {
		if float64(h.less) > limit || float64(h.swaps) > limit {
			t.Failf("heap.%s on %d elements (order %d) calls Less %d and Swap %d times, more than %.0f", what, size, order, h.less, h.swaps, limit)
		}
		h.less, h.swaps = 0, 0
	}
	if t.Bool(1, 2) {
		heap.Init[int](h)
		check("Init", n, 6*float64(n)+16)
	} else {
		h.s = h.s[:0]
		for i, v := range vals {
			heap.Push[int](h, v)
			check("Push", i, 4*log2(i)+10)
		}
	}
	for i := 0; i < 200; i++ {
		t.Tick()
		n := len(h.s)
		at := int(rng.N(uint64(n)))
		switch rng.N(4) {
		case 0:
			heap.Push[int](h, int(rng.N(uint64(3*n)))-n)
			check("Push", n, 4*log2(n)+10)
		case 1:
			heap.Pop[int](h)
			check("Pop", n, 8*log2(n)+16)
		case 2:
			heap.Remove[int](h, at)
			check("Remove", n, 8*log2(n)+16)
		case 3:
			h.s[at] = int(rng.N(uint64(3*n))) - n
			heap.Fix[int](h, at)
			check("Fix", n, 8*log2(n)+16)
		}
	}
	// the same through a priority queue
	calls := 0
	d := costDom(t, &calls)
	q := priorityqueue.New(d.cmpFn())
	for i, v := range vals {
		calls = 0
		q.Push(v)
		within(t, "PriorityQueue.Push", i, calls, 8*log2(i)+20)
	}
	for i := 0; i < 200; i++ {
		t.Tick()
		n := q.Size()
		calls = 0
		q.Top()
		within(t, "PriorityQueue.Top", n, calls, 4)
		if rng.N(2) == 0 {
			q.Push(int(rng.N(uint64(3*n+1))) - n)
			within(t, "PriorityQueue.Push", n, calls, 8*log2(n)+20)
		} else {
			q.Pop()
			within(t, "PriorityQueue.Pop", n, calls, 16*log2(n)+32)
		}
		if q.Size() == 0 {
			break
		}
	}
	t.Class("heap")
	t.NonTrivial()
}

// runAlgoCost bounds the comparisons, reads and writes of the algorithms.
func runAlgoCost(t *T) {
	n := size(t, 300, 3000)
	if t.Bool(1, 30) {
		n = size(t, 20000, 50000)
	}
	order := t.IntN(5)
	rng := pbt.NewRng(t.Uniform64())
	vals := arranged(order, n, rng)
	lo, hi := 0, n
	if t.Bool(1, 3) {
		lo = t.IntN(n / 4)
		hi = n - t.IntN(n/4)
	}
	n = hi - lo
	g := &guard[int]{t: t, s: cloneSlice(vals), lo: lo, hi: hi}
	at := func(p int) iterator.RandomAccessIterator[int] { return &guardIt[int]{g, p} }
	calls := 0
	d := costDom(t, &calls)
	cmp := d.cmpFn()
	run := func(what string, cmps, touched float64, f func()) {
		calls, g.reads, g.writes, g.moves = 0, 0, 0, 0
		f()
		if float64(calls) > cmps || float64(g.reads+g.writes+g.moves) > touched {
			t.Failf("%s on %d elements in order %d makes %d comparisons (at most %.0f), %d reads, %d writes and %d steps (at most %.0f in all)", what, n, order, calls, cmps, g.reads, g.writes, g.moves, touched)
		}
	}
	fn, lg := float64(n), log2(n)
	v := vals[int(rng.N(uint64(len(vals))))]
	even := func(x iterator.ConstIterator[int]) bool { calls++; return x.Value() >= 0 }
	odd := func(x iterator.ConstIterator[int]) bool { calls++; return x.Value() < 0 }
	which := t.Variant(6)
	switch which {
	case 0:
		run("Sort", 10*fn*lg, 80*fn*lg, func() { gsort.Sort[int](at(lo), at(hi), cmp) })
	case 1:
		if t.Bool(1, 3) { // ties do not matter to it
			for i := range g.s {
				g.s[i] %= 3
			}
		}
		run("Stable", 4*fn*lg+8, 40*fn*lg, func() { gsort.Stable[int](at(lo), at(hi), cmp) })
	case 2:
		nth := int(rng.N(uint64(n)))
		run("NthElement", 10*fn*lg, 80*fn*lg, func() { gsort.NthElement[int](at(lo), at(hi), nth, cmp) })
	case 3:
		for i := 0; i < 4; i++ {
			run("NextPermutation", 6*fn+16, 40*fn, func() { gsort.NextPermutation[int](at(lo), at(hi), cmp) })
		}
	case 4:
		run("Reverse", 0, 24*fn, func() { algorithm.Reverse[int](at(lo), at(hi)) })
		run("Swap", 0, 12, func() { algorithm.Swap[int](at(lo), at(hi-1)) })
	case 5:
		run("Count", 4*fn, 20*fn, func() { algorithm.Count[int](at(lo), at(hi), v, cmp) })
		run("Find", 4*fn, 20*fn, func() { algorithm.Find[int](at(lo), at(hi), v, cmp) })
		run("MaxElement", 4*fn, 20*fn, func() { algorithm.MaxElement[int](at(lo), at(hi), cmp) })
		run("MinElement", 4*fn, 20*fn, func() { algorithm.MinElement[int](at(lo), at(hi), cmp) })
		run("CountIf", 2*fn, 20*fn, func() { algorithm.CountIf[int](at(lo), at(hi), even) })
		run("FindIf", 2*fn, 20*fn, func() { algorithm.FindIf[int](at(lo), at(hi), odd) })
		run("AllOf", 2*fn, 20*fn, func() { algorithm.AllOf[int](at(lo), at(hi), even) })
		run("AnyOf", 2*fn, 20*fn, func() { algorithm.AnyOf[int](at(lo), at(hi), odd) })
		run("NoneOf", 2*fn, 20*fn, func() { algorithm.NoneOf[int](at(lo), at(hi), odd) })
		// those that can stop stop
		first := &guardIt[int]{g, lo}
		run("Find", 8, 40, func() { algorithm.Find[int](first, at(hi), g.s[lo], cmp) })
		run("FindIf", 8, 40, func() { algorithm.FindIf[int](first, at(hi), even) })
		run("AllOf", 8, 40, func() { algorithm.AllOf[int](first, at(hi), odd) })
		run("AnyOf", 8, 40, func() { algorithm.AnyOf[int](first, at(hi), even) })
		run("NoneOf", 8, 40, func() { algorithm.NoneOf[int](first, at(hi), even) })
	}
	t.Class([]string{"Sort", "Stable", "NthElement", "NextPermutation", "Reverse", "scans"}[which])
	t.NonTrivial()
}

// runAllocCost checks that what an operation allocates does not grow with the size.
func runAllocCost(t *T) {
	kind := keeperKinds[t.Variant(len(keeperKinds))]
	mode, list, seed := t.IntN(4), t.Bool(1, 2), t.Uniform64()
	n := size(t, 400, 1500)
	if kind == "ketama" {
		n /= 8
	}
	const times = 8
	var before, after runtime.MemStats
	spent := func(count int, steady bool) (add, drop float64) {
		k := newKeeper(kind, mode, list, pbt.NewRng(seed))
		no := 0
		runtime.ReadMemStats(&before)
		for i := 0; i < count; i++ {
			t.Tick()
			no++
			k.add(no)
			if steady && i%3 == 2 {
				k.drop()
			}
		}
		runtime.ReadMemStats(&after)
		add = float64(after.TotalAlloc - before.TotalAlloc)
		before = after
		for k.size() > 0 {
			t.Tick()
			k.drop()
		}
		runtime.ReadMemStats(&after)
		drop = float64(after.TotalAlloc - before.TotalAlloc)
		return
	}
	steady := t.Bool(1, 2)
	spent(n/4, steady) // what is allocated once
	a1, d1 := spent(n, steady)
	a2, d2 := spent(n*times, steady)
	t.Log("%s, mode %d: adding %d allocates %.0f bytes and dropping them %.0f; for %d it is %.0f and %.0f", kind, mode, n, a1, d1, n*times, a2, d2)
	if a2 > 2.5*times*a1+20000 || d2 > 2.5*times*(d1+a1) {
		t.Failf("%s (mode %d, list %v): adding %d elements allocates %.0f bytes and removing them %.0f; with %d elements it is %.0f and %.0f, which is not proportional", kind, mode, list, n, a1, d1, n*times, a2, d2)
	}
	t.Class(kind)
	t.NonTrivial()
}

// runBigAlloc does the same with many small elements.
func runBigAlloc(t *T) {
	n := 1 << 20
	kind := []string{"deque", "vector", "queue", "stack", "priority queue"}[t.Variant(5)]
	front, other := t.Bool(1, 2), t.Bool(1, 2)
	var add func(int)
	var drop func()
	switch kind {
	case "deque":
		d := deque.New[int]()
		add, drop = d.PushBack, func() { d.PopBack() }
		if front {
			add = d.PushFront
		}
		if other {
			drop = func() { d.PopFront() }
		}
	case "vector":
		v := vector.New[int]()
		add, drop = v.PushBack, func() { v.PopBack() }
	case "queue":
		q := queue.New[int]()
		add, drop = q.Push, func() { q.Pop() }
	case "stack":
		q := stack.New[int]()
		add, drop = q.Push, func() { q.Pop() }
	case "priority queue":
		q := priorityqueue.New(cmpInt)
		n /= 8
		add, drop = q.Push, func() { q.Pop() }
	}
	var a, b, c runtime.MemStats
	runtime.ReadMemStats(&a)
	for i := 0; i < n; i++ {
		t.Tick()
		add(i)
	}
	runtime.ReadMemStats(&b)
	for i := 0; i < n; i++ {
		t.Tick()
		drop()
	}
	runtime.ReadMemStats(&c)
	up, down := (b.TotalAlloc-a.TotalAlloc)/uint64(n), (c.TotalAlloc-b.TotalAlloc)/uint64(n)
	t.Log("%s, front %v %v: %d bytes allocated per addition, %d per removal", kind, front, other, up, down)
	if limit := uint64(100 + 200*sgn(kind == "priority queue")); up > limit || down > limit {
		t.Failf("%s of %d integers (front %v %v) allocates %d bytes per addition and %d per removal", kind, n, front, other, up, down)
	}
	t.Class(kind)
	t.NonTrivial()
}

func init() {
	pbt.Register(pbt.Prop{
		ID:   "C46",
		Rule: "so many elements that a linear (for whole ranges: quadratic) way of doing it would exceed the bound",
		Assumptions: []string{"operations on ordered containers: 16*log2(n+2)+32 comparisons (times the equal keys where several are erased); set operations (n+m)*(8*log2(n+m)+16); heap operations 8*log2(n)+16 calls of Less and of Swap, Init 6n",
			"Sort and NthElement are bounded on distinct elements in ascending, descending, random and interleaved order; quick sort without a guarantee is quadratic on others, for example all equal ones",
			"bytes allocated per element at 8n elements are at most 2.5 times those at n; at most 100 (priority queue 300) per addition and per removal of an integer to 2^20 of them"},
		Phases: []pbt.Phase{
			{Name: "ordered", Quick: 3000, Thorough: 20000, Run: runTreeCost},
			{Name: "algebra", Quick: 2000, Thorough: 20000, Run: runAlgebraCost},
			{Name: "heap", Quick: 3000, Thorough: 20000, Run: runHeapCost},
			{Name: "algorithms", Quick: 6000, Thorough: 50000, Run: runAlgoCost},
			{Name: "allocation", Quick: 600, Thorough: 6000, Run: runAllocCost},
			{Name: "large", Quick: 20, Thorough: 60, Run: runBigAlloc},
		},
	})
}
