package props

import (
	"fmt"
	"math"

	"github.com/liyue201/gostl/ds/container"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/heap"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/stack"
	"github.com/liyue201/gostl/utils/comparator"
	"verifharness/pbt"
)

// ring is a caller's own container: a slice kept back to front.
type ring[E any] struct {
	s      []E
	yield  func()
	writes int // calls of methods that change it
}

func (r *ring[E]) y() {
	if r.yield != nil {
		r.yield()
	}
}
func (r *ring[E]) PushFront(v E) { r.writes++; r.y(); r.s = append(r.s, v) }
func (r *ring[E]) PushBack(v E)  { r.writes++; r.y(); s := append([]E{v}, r.s...); r.y(); r.s = s }
func (r *ring[E]) Front() E {
	r.y()
	if len(r.s) == 0 {
		panic("ring: empty")
	}
	return r.s[len(r.s)-1]
}
func (r *ring[E]) Back() E {
	r.y()
	if len(r.s) == 0 {
		panic("ring: empty")
	}
	return r.s[0]
}
func (r *ring[E]) PopFront() E {
	r.writes++
	v := r.Front()
	n := len(r.s)
	r.y()
	r.s = r.s[:n-1]
	return v
}
func (r *ring[E]) PopBack() E {
	r.writes++
	v := r.Back()
	s := r.s
	r.y()
	r.s = s[1:]
	return v
}
func (r *ring[E]) Empty() bool    { r.y(); return len(r.s) == 0 }
func (r *ring[E]) Size() int      { r.y(); return len(r.s) }
func (r *ring[E]) String() string { r.y(); return fmt.Sprint(r.s) }
func (r *ring[E]) Clear()         { r.writes++; r.y(); r.s = nil }

// adapt is a queue or a stack behind one set of functions.
type adapt[E comparable] struct {
	name              string
	push              func(E)
	pop, front, back  func() E // front is nil for a stack, whose Top is back
	size              func() int
	empty             func() bool
	clear             func()
	str               func() string
	fifo              bool
	m                 []E
	underlying        container.Container[E] // the container given by the caller, if any
	pushed, popped, n int
}

func newAdapt[E comparable](fifo bool, qo []queue.Option[E], so []stack.Option[E]) *adapt[E] {
	if fifo {
		q := queue.New(qo...)
		return &adapt[E]{name: "queue", fifo: true, push: q.Push, pop: q.Pop, front: q.Front, back: q.Back, size: q.Size, empty: q.Empty, clear: q.Clear, str: q.String}
	}
	s := stack.New(so...)
	return &adapt[E]{name: "stack", push: s.Push, pop: s.Pop, back: s.Top, size: s.Size, empty: s.Empty, clear: s.Clear, str: s.String}
}

func (a *adapt[E]) check(t *T) {
	n := len(a.m)
	if r, ok := a.underlying.(*ring[E]); ok {
		w := r.writes
		defer func() {
			if r.writes != w {
				t.Failf("%s: reading it changes the container it was given", a.name)
			}
		}()
	}
	if a.underlying != nil {
		if g, w := a.str(), a.underlying.String(); g != w {
			t.Failf("%s: String() is %q, that of its container %q", a.name, g, w)
		}
		if g := a.underlying.Size(); g != n {
			t.Failf("%s: the container it was given holds %d elements, expected %d", a.name, g, n)
		}
	}
	if a.size() != n || a.empty() != (n == 0) {
		t.Failf("%s: Size() %d, Empty() %v, expected %d elements", a.name, a.size(), a.empty(), n)
	}
	if n == 0 {
		return
	}
	if g := a.back(); g != a.m[n-1] {
		t.Failf("%s: shows %v as the newest element, expected %v", a.name, g, a.m[n-1])
	}
	if a.front != nil {
		if g := a.front(); g != a.m[0] {
			t.Failf("%s: shows %v as the oldest element, expected %v", a.name, g, a.m[0])
		}
	}
}

func (a *adapt[E]) doPop(t *T) {
	i := 0
	if !a.fifo {
		i = len(a.m) - 1
	}
	w := a.m[i]
	if g := a.pop(); g != w {
		t.Failf("%s: pops %v, expected %v", a.name, g, w)
	}
	a.m = removeSlice(a.m, i)
	a.popped++
}

var adaptContainers = []string{"default", "list", "given deque", "given list", "caller's own", "caller's own, not empty at first"}

func runAdapter[E comparable](t *T, el elems[E], fifo bool) {
	what := adaptContainers[t.Variant(len(adaptContainers))]
	safe := t.Bool(1, 2)
	var qo []queue.Option[E]
	var so []stack.Option[E]
	var start []E
	var underlying container.Container[E]
	given := func(c container.Container[E]) {
		underlying = c
		qo = append(qo, queue.WithContainer[E](c))
		so = append(so, stack.WithContainer[E](c))
	}
	if safe && t.Bool(1, 2) {
		qo, so = append(qo, queue.WithGoroutineSafe[E]()), append(so, stack.WithGoroutineSafe[E]())
	}
	copies := 1
	switch what {
	case "default":
		copies = 2
	case "list":
		qo, so = append(qo, queue.WithListContainer[E]()), append(so, stack.WithListContainer[E]())
		copies = 2
	case "given deque":
		given(deque.New[E]())
	case "given list":
		given(bidlist.New[E]())
	case "caller's own":
		given(&ring[E]{})
	default:
		r := &ring[E]{}
		for i := 0; i < 1+t.IntN(4); i++ {
			v := el.gen()
			r.PushBack(v)
			start = append(start, v)
		}
		given(r)
	}
	if safe {
		qo, so = append(qo, queue.WithGoroutineSafe[E]()), append(so, stack.WithGoroutineSafe[E]())
	}
	var as []*adapt[E]
	for i := 0; i < copies; i++ { // the same option values
		a := newAdapt(fifo, qo, so)
		a.m = cloneSlice(start)
		a.underlying = underlying
		as = append(as, a)
		if i > 0 {
			a.name += " 2"
		}
	}
	t.Log("%s of %s, container %s, goroutine safe %v, %d built from the same options", as[0].name, el.name, what, safe, copies)
	maxN := 0
	t.Repeat(1, 60, func(int) {
		a := as[t.IntN(len(as))]
		switch t.Pick(8, 6, 1, 1) {
		case 0:
			v := el.gen()
			t.Log("%s: push %v", a.name, v)
			a.push(v)
			a.m = append(a.m, v)
		case 1:
			if len(a.m) > 0 {
				t.Log("%s: pop", a.name)
				a.doPop(t)
			}
		case 2:
			if t.Bool(1, 3) {
				t.Log("%s: clear", a.name)
				a.clear()
				a.m = nil
			}
		case 3:
			c := t.Size(300)
			grow := t.Bool(1, 2)
			t.Log("%s: %d in a row, pushes %v", a.name, c, grow)
			for i := 0; i < c; i++ {
				if grow {
					var v E
					if i < 20 {
						v = el.gen()
					} else {
						v = a.m[(i*7)%len(a.m)]
					}
					a.push(v)
					a.m = append(a.m, v)
				} else if len(a.m) > 0 {
					a.doPop(t)
				}
			}
		}
		maxN = max(maxN, len(a.m))
		for _, a := range as {
			a.check(t)
		}
	})
	if t.Bool(1, 2) {
		t.Log("drain")
		for _, a := range as {
			for len(a.m) > 0 {
				a.doPop(t)
			}
			a.check(t)
		}
	}
	popped := 0
	for _, a := range as {
		popped += a.popped
	}
	t.Class(what)
	t.ClassIf(safe, "goroutine safe")
	t.ClassIf(maxN > 128, "more than 128 elements")
	if popped > 0 && maxN >= 3 {
		t.NonTrivial()
	}
}

// ---- C20: priority queue

func runPQ(t *T, big bool) {
	w := []int{1, 2, 3, 6, 20, 1000}[t.Pick(1, 4, 4, 3, 2, 1)]
	rev := t.Bool(1, 3)
	far := 1 // what the comparator gives for more
	if t.Bool(1, 6) {
		far = []int{2, 100, math.MaxInt}[t.IntN(3)]
	}
	cmp := func(a, b Key) int {
		t.Tick()
		if rev {
			a, b = b, a
		}
		return far * cmpInt(a.O, b.O)
	}
	var o []priorityqueue.Option
	safe := t.Bool(1, 3)
	if safe {
		o = append(o, priorityqueue.WithGoroutineSafe())
	}
	q := priorityqueue.New[Key](cmp, o...)
	m := omodel[Key]{cmp: cmp}
	t.Log("priority queue, %d priorities, reversed %v, goroutine safe %v", w, rev, safe)
	id, ties, pops, maxN := 0, 0, 0, 0
	check := func() {
		n := len(m.es)
		if q.Size() != n || q.Empty() != (n == 0) {
			t.Failf("Size() %d, Empty() %v, expected %d elements", q.Size(), q.Empty(), n)
		}
		if n > 0 {
			if g := q.Top(); g != m.es[0].k {
				t.Failf("Top() = %v, expected %v", g, m.es[0].k)
			}
		}
		maxN = max(maxN, n)
	}
	push := func() {
		id++
		k := Key{t.IntN(w), id}
		t.Log("push %v", k)
		q.Push(k)
		m.insert(k, 0)
	}
	pop := func() {
		if len(m.es) == 0 {
			return
		}
		pops++
		if len(m.es) > 1 && cmp(m.es[0].k, m.es[1].k) == 0 {
			ties++
		}
		want := m.es[0].k
		g := q.Pop()
		t.Log("pop: %v", g)
		if g != want {
			t.Failf("Pop() = %v, expected %v", g, want)
		}
		m.removeAt(0)
	}
	rounds, run := 60, 4
	if big {
		rounds, run = 8, 300
	}
	t.Repeat(1, rounds, func(int) {
		switch t.Pick(8, 7, 1) {
		case 0:
			for i := 1 + t.Size(run); i > 0; i-- {
				push()
				check()
			}
		case 1:
			for i := 1 + t.Size(run); i > 0; i-- {
				pop()
				check()
			}
		case 2:
			if t.Bool(1, 3) {
				t.Log("clear")
				q.Clear()
				m.es = nil
			}
		}
		check()
	})
	if t.Bool(1, 2) {
		for len(m.es) > 0 {
			pop()
			check()
		}
	}
	t.ClassIf(ties > 0, "popped one of several equal priorities")
	t.ClassIf(maxN >= 64, "64 or more elements")
	if pops > 0 && maxN >= 3 {
		t.NonTrivial()
	}
}

// ---- C21: heap over a caller's collection

type coll struct {
	t    *T
	s    []Key
	cmp  comparator.Comparator[Key]
	in   bool
	push int
	pop  int
}

func (c *coll) idx(op string, i ...int) {
	c.t.Tick()
	for _, x := range i {
		if x < 0 || x >= len(c.s) {
			c.t.Failf("%s addresses index %d of %d elements", op, x, len(c.s))
		}
	}
}
func (c *coll) Len() int           { return len(c.s) }
func (c *coll) Less(i, j int) bool { c.idx("Less", i, j); return c.cmp(c.s[i], c.s[j]) < 0 }
func (c *coll) Swap(i, j int)      { c.idx("Swap", i, j); c.s[i], c.s[j] = c.s[j], c.s[i] }
func (c *coll) Push(k Key)         { c.push++; c.s = append(c.s, k) }
func (c *coll) Pop() Key {
	c.pop++
	if len(c.s) == 0 {
		c.t.Failf("Pop of the empty collection")
	}
	k := c.s[len(c.s)-1]
	c.s = c.s[:len(c.s)-1]
	return k
}

func runHeap(t *T) {
	w := []int{1, 2, 4, 10, 1000}[t.Pick(1, 2, 3, 3, 2)]
	c := &coll{t: t, cmp: func(a, b Key) int { return cmpInt(a.O, b.O) }}
	if t.Bool(1, 3) {
		c.cmp = comparator.Reverse[Key](c.cmp)
	}
	id := 0
	gen := func() Key { id++; return Key{t.IntN(w), id} }
	have := map[Key]bool{}
	t.Repeat(0, 40, func(int) {
		k := gen()
		c.s = append(c.s, k)
		have[k] = true
	})
	n0 := len(c.s)
	t.Log("init %s", str(c.s))
	heap.Init[Key](c)
	check := func(what string) {
		if len(c.s) != len(have) {
			t.Failf("after %s the collection holds %d elements, expected %d", what, len(c.s), len(have))
		}
		for i, k := range c.s {
			if !have[k] {
				t.Failf("after %s the collection holds %v, which it should not (or twice)", what, k)
			}
			if i > 0 && c.cmp(k, c.s[(i-1)/2]) < 0 {
				t.Failf("after %s element %d (%v) precedes its parent (%v): %s", what, i, k, c.s[(i-1)/2], str(c.s))
			}
		}
		seen := map[Key]bool{}
		for _, k := range c.s {
			if seen[k] {
				t.Failf("after %s the collection holds %v twice", what, k)
			}
			seen[k] = true
		}
	}
	minimum := func(k Key, what string) {
		for o := range have {
			if c.cmp(o, k) < 0 {
				t.Failf("%s gives %v although %v precedes it", what, k, o)
			}
		}
	}
	check("Init")
	inner, maxN := 0, n0
	t.Repeat(1, 50, func(int) {
		k := t.Pick(5, 3, 4, 5, 1)
		if len(c.s) == 0 {
			k = 0
		}
		switch k {
		case 0:
			x := gen()
			t.Log("push %v", x)
			heap.Push[Key](c, x)
			have[x] = true
			check("Push")
		case 1:
			t.Log("pop")
			x := heap.Pop[Key](c)
			if !have[x] {
				t.Failf("Pop gives %v, which was not in the heap", x)
			}
			minimum(x, "Pop")
			delete(have, x)
			check("Pop")
		case 2:
			i := pos(t, len(c.s))
			want := c.s[i]
			t.Log("remove index %d", i)
			x := heap.Remove[Key](c, i)
			if x != want {
				t.Failf("Remove(%d) gives %v, expected %v", i, x, want)
			}
			delete(have, x)
			check("Remove")
			inner++
		case 3:
			i := pos(t, len(c.s))
			x := gen()
			t.Log("change index %d to %v and fix", i, x)
			delete(have, c.s[i])
			have[x] = true
			c.s[i] = x
			heap.Fix[Key](c, i)
			check("Fix")
			inner++
		case 4:
			for i := range c.s {
				if t.Bool(1, 3) {
					x := gen()
					delete(have, c.s[i])
					have[x] = true
					c.s[i] = x
				}
			}
			t.Log("change several and init: %s", str(c.s))
			heap.Init[Key](c)
			check("Init")
		}
		maxN = max(maxN, len(c.s))
	})
	t.ClassIf(n0 > 1, "initialised with several elements")
	t.ClassIf(inner > 0, "removed or fixed at an index")
	if inner > 0 && maxN >= 4 {
		t.NonTrivial()
	}
}

func init() {
	for id, fifo := range map[string]bool{"C18": true, "C19": false} {
		fifo := fifo
		pbt.Register(pbt.Prop{ID: id,
			Rule:        "cases are histories of pushes, pops, runs of up to 300 of either, and clears over six kinds of container (default, list, given deque, given list, the harness's own, also not empty at first), goroutine safe or not, with two instances built from the same option values; ends, size and every popped element are compared with a slice, and a container given by the caller shows the same elements and is not changed by reads. Non-trivial: something was popped and three or more elements were held.",
			Assumptions: []string{"a container passed with WithContainer is given to one instance only"},
			Phases: []pbt.Phase{{Name: "history", Quick: 450000, Thorough: 6000000, Run: func(t *T) {
				withElem(t, func(e elems[int]) { runAdapter(t, e, fifo) }, func(e elems[string]) { runAdapter(t, e, fifo) },
					func(e elems[rec]) { runAdapter(t, e, fifo) }, func(e elems[*int]) { runAdapter(t, e, fifo) })
			}}}})
	}
	pbt.Register(pbt.Prop{ID: "C20",
		Rule:        "cases are interleavings of pushes, pops and clears with one to a thousand priorities (few favoured, so most pops break ties) of distinguishable elements, compared with a stably sorted list. Non-trivial: something was popped and three or more elements were held.",
		Assumptions: []string{"the comparator is a consistent ordering"},
		Phases: []pbt.Phase{{Name: "history", Quick: 300000, Thorough: 5000000, Run: func(t *T) { runPQ(t, false) }},
			{Name: "large", Quick: 4000, Thorough: 200000, Run: func(t *T) { runPQ(t, true) }}}})
	pbt.Register(pbt.Prop{ID: "C21",
		Rule:        "cases are collections of distinguishable elements with ties behind the harness's own heap.Interface (which checks every index it is given), initialised, pushed to, popped, removed from and changed at generated indices (ends favoured); heap order and exact contents are checked after each call. Non-trivial: four or more elements and a Remove or Fix at an index.",
		Assumptions: []string{"indices passed exist"},
		Phases:      []pbt.Phase{{Name: "history", Quick: 450000, Thorough: 6000000, Run: runHeap}}})
}
