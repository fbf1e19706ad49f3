package props

import (
	"fmt"

	"github.com/liyue201/gostl/algorithm"
	gsort "github.com/liyue201/gostl/algorithm/sort"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/utils/iterator"
	"verifharness/pbt"
)

// C48: what the library hands to a caller's functions. Every value has an identity
// of its own, and the functions handed to the library complain about any that is
// not among those of the call that is being made.
type guest struct {
	t      *T
	inside bool           // a call is being made
	args   []Key          // its arguments
	known  []map[int]bool // identities of the elements it may show
	names  map[int]string // what became of the others
	bad    string
	what   string
	id     int
	seen   int
}

func newGuest(t *T) *guest { return &guest{t: t, names: map[int]string{}} }

func (g *guest) fresh(o int) Key {
	g.id++
	return Key{o, g.id}
}

func (g *guest) check(k Key) {
	g.seen++
	if g.bad != "" {
		return
	}
	if !g.inside {
		g.bad = fmt.Sprintf("%v is shown to a caller's function while no call is made (last: %s)", k, g.what)
		return
	}
	for _, m := range g.known {
		if m[k.I] {
			return
		}
	}
	for _, a := range g.args {
		if a == k {
			return
		}
	}
	name := g.names[k.I]
	if name == "" {
		name = "never put there"
	}
	g.bad = fmt.Sprintf("%s shows %v, which is %s, to a caller's function", g.what, k, name)
}

func (g *guest) cmp(a, b Key) int {
	g.t.Tick()
	g.check(a)
	g.check(b)
	return cmpInt(a.O, b.O)
}

// call makes a call of the library.
func (g *guest) call(what string, known []map[int]bool, f func(), args ...Key) {
	g.what, g.known, g.args, g.inside = what, known, args, true
	f()
	g.inside = false
	if g.bad != "" {
		g.t.Failf("%s", g.bad)
	}
}

// guestBox is a container of an ordered kind, with the identities of its elements.
type guestBox struct {
	c     *ocont[Key]
	live  map[int]bool
	byKey map[int][]int // identities by order, in the order they came
}

func runOrderedGuest(t *T, kind string) {
	g := newGuest(t)
	safe := t.Bool(1, 4)
	d := &dom[Key]{name: "Key", cmp: g.cmp, plain: true}
	n := 1 + sgn(kind == "set")*t.IntN(2)
	var bs []*guestBox
	for i := 0; i < n; i++ {
		bs = append(bs, &guestBox{newOrdered(kind, d, safe), map[int]bool{}, map[int][]int{}})
	}
	w := 1 + t.Size(12)
	t.Log("%d %s, safe %v, keys below %d", n, kind, safe, w)
	if t.Bool(1, 15) {
		w += t.IntN(400)
		rng := pbt.NewRng(t.Uniform64())
		m := 20 + t.IntN(400)
		t.Log("%d inserted", m)
		for i := 0; i < m; i++ {
			b := bs[i%n]
			k := g.fresh(int(rng.N(uint64(w))))
			g.call("insert", []map[int]bool{b.live}, func() { b.c.insert(k, k.I) }, k)
			b.live[k.I] = true
			b.byKey[k.O] = append(b.byKey[k.O], k.I)
		}
	}
	drop := func(b *guestBox, ids []int) {
		for _, i := range ids {
			delete(b.live, i)
			g.names[i] = "removed"
		}
	}
	t.Repeat(1, 40, func(int) {
		b := bs[t.IntN(len(bs))]
		c := b.c
		k := g.fresh(t.IntN(w))
		g.names[k.I] = "the argument of an earlier call"
		own := []map[int]bool{b.live}
		switch t.Pick(8, 3, 1, 2, 2, 2, 2, 1, 2, 1, 2, 2) {
		case 0:
			t.Log("insert %v", k)
			g.call("insert", own, func() { c.insert(k, k.I) }, k)
			b.live[k.I] = true
			b.byKey[k.O] = append(b.byKey[k.O], k.I)
		case 1:
			t.Log("erase %v", k)
			g.call("erase", own, func() { c.erase(k) }, k)
			if ids := b.byKey[k.O]; len(ids) > 0 {
				cut := len(ids)
				if kind == "rbtree" || kind == "multiset" {
					cut = 1
				}
				drop(b, ids[:cut])
				b.byKey[k.O] = ids[cut:]
			}
		case 2:
			t.Log("clear")
			g.call("clear", own, c.clear)
			for o, ids := range b.byKey {
				drop(b, ids)
				delete(b.byKey, o)
			}
		case 3:
			g.call("contains", own, func() { c.contains(k) }, k)
		case 4:
			g.call("find", own, func() { c.find(k) }, k)
		case 5:
			g.call("lower bound", own, func() { c.lower(k) }, k)
		case 6:
			g.call("upper bound", own, func() { c.upper(k) }, k)
		case 7:
			g.call("first, last and size", own, func() { c.size(); c.first[0](); c.last[0]() })
		case 8:
			stop := 1 + t.IntN(len(b.live)+1)
			g.call("traversal", own, func() {
				c.traverse(func(k Key, v int) bool {
					g.check(k)
					stop--
					return stop != 0
				})
			})
		case 9:
			if c.get != nil {
				g.call("get", own, func() { c.get(k) }, k)
			}
			if c.count != nil {
				g.call("count", own, func() { c.count(k) }, k)
			}
		case 10:
			if c.eraseAll != nil {
				t.Log("erase all %v", k)
				g.call("erase all", own, func() { c.eraseAll(k) }, k)
				drop(b, b.byKey[k.O])
				delete(b.byKey, k.O)
			} else if len(b.live) > 0 && kind != "set" && kind != "multimap" {
				var x it[Key]
				g.call("lower bound", own, func() { x = c.lower(k) }, k)
				if !x.Valid() {
					break
				}
				e := x.Key()
				t.Log("erase %v by its handle", e)
				done := false
				g.call("erase by handle", own, func() { done = c.eraseIt(x) })
				if !done {
					break
				}
				ids := b.byKey[e.O]
				if kind == "map" {
					drop(b, ids)
					delete(b.byKey, e.O)
					break
				}
				var left []int
				for _, i := range ids {
					if i != e.I {
						left = append(left, i)
					}
				}
				drop(b, []int{e.I})
				b.byKey[e.O] = left
			}
		case 11:
			if c.union == nil {
				break
			}
			o := bs[t.IntN(len(bs))]
			f := []func(*ocont[Key]) *ocont[Key]{c.union, c.inter, c.diff}[t.IntN(3)]
			var r *ocont[Key]
			t.Log("combine")
			g.call("set algebra", []map[int]bool{b.live, o.live}, func() { r = f(o.c) })
			x := &guestBox{r, map[int]bool{}, map[int][]int{}}
			for _, y := range []*guestBox{b, o} {
				for i := range y.live {
					x.live[i] = true
				}
				for q, ids := range y.byKey {
					x.byKey[q] = append(x.byKey[q], ids...)
				}
			}
			if len(bs) < 4 {
				bs = append(bs, x)
			}
		}
	})
	t.Class(kind)
	if g.seen > 0 {
		t.NonTrivial()
	}
}

func runOtherGuest(t *T) {
	g := newGuest(t)
	live := map[int]bool{}
	own := []map[int]bool{live}
	byKey := map[int][]int{}
	w := 1 + t.Size(12)
	var bulk []Key
	if t.Bool(1, 15) {
		w += t.IntN(400)
		rng := pbt.NewRng(t.Uniform64())
		for i := 20 + t.IntN(400); i > 0; i-- {
			bulk = append(bulk, g.fresh(int(rng.N(uint64(w)))))
		}
		t.Log("%d inserted", len(bulk))
	}
	bring := func(f func(k Key)) {
		for _, k := range bulk {
			g.call("insert", own, func() { f(k) }, k)
			live[k.I] = true
			byKey[k.O] = append(byKey[k.O], k.I)
		}
	}
	if t.Bool(1, 2) {
		var opts []priorityqueue.Option
		if t.Bool(1, 4) {
			opts = append(opts, priorityqueue.WithGoroutineSafe())
		}
		q := priorityqueue.New(g.cmp, opts...)
		bring(q.Push)
		t.Repeat(1, 50, func(int) {
			switch t.Pick(5, 4, 1, 1) {
			case 0:
				k := g.fresh(t.IntN(w))
				t.Log("push %v", k)
				g.call("push", own, func() { q.Push(k) }, k)
				live[k.I] = true
			case 1:
				if q.Empty() {
					break
				}
				var k Key
				g.call("pop", own, func() { k = q.Pop() })
				t.Log("pop gives %v", k)
				delete(live, k.I)
				g.names[k.I] = "popped"
			case 2:
				if !q.Empty() {
					g.call("top", own, func() { q.Top() })
				}
			case 3:
				t.Log("clear")
				g.call("clear", own, q.Clear)
				for i := range live {
					g.names[i] = "cleared"
					delete(live, i)
				}
			}
		})
		t.Class("priority queue")
	} else {
		pinRand(t)
		l := skiplist.New[Key, int](g.cmp, skiplist.WithMaxLevel(1+t.IntN(12)))
		bring(func(k Key) { l.Insert(k, k.I) })
		t.Repeat(1, 50, func(int) {
			k := g.fresh(t.IntN(w))
			g.names[k.I] = "the argument of an earlier call"
			switch t.Pick(5, 4, 3, 1) {
			case 0:
				t.Log("insert %v", k)
				g.call("insert", own, func() { l.Insert(k, k.I) }, k)
				live[k.I] = true
				byKey[k.O] = append(byKey[k.O], k.I)
			case 1:
				t.Log("remove %v", k)
				g.call("remove", own, func() { l.Remove(k) }, k)
				for _, i := range byKey[k.O] {
					delete(live, i)
					g.names[i] = "removed"
				}
				delete(byKey, k.O)
			case 2:
				g.call("get", own, func() { l.Get(k) }, k)
			case 3:
				g.call("traversal and keys", own, func() {
					l.Traversal(func(k Key, v int) bool { g.check(k); return true })
					for _, k := range l.Keys() {
						g.check(k)
					}
				})
			}
		})
		t.Class("skiplist")
	}
	if g.seen > 0 {
		t.NonTrivial()
	}
}

// runAlgoGuest runs the algorithms on a range within a container.
func runAlgoGuest(t *T) {
	g := newGuest(t)
	n := t.Size(40)
	if t.Bool(1, 20) {
		n = 100 + t.IntN(400)
	}
	w := 1 + t.Size(2*n+2)
	vals := make([]Key, n)
	rng := pbt.NewRng(t.Uniform64())
	for i := range vals {
		vals[i] = g.fresh(1 + int(rng.N(uint64(w))))
	}
	kind := seqKinds[t.IntN(len(seqKinds))]
	lo, hi := t.IntN(n+1), t.IntN(n+1)
	lo, hi = min(lo, hi), max(lo, hi)
	sorted := t.Bool(1, 2)
	if sorted {
		for i := range vals { // with what lies outside in some order
			if lo <= i && i < hi {
				vals[i].O = 1 + (i-lo)*w/(hi-lo)
			}
		}
	}
	c := newSeq(kind, vals, t.IntN(n+1))
	in := map[int]bool{}
	for i, k := range vals {
		if lo <= i && i < hi {
			in[k.I] = true
		} else {
			g.names[k.I] = "outside the range"
		}
	}
	own := []map[int]bool{in}
	k := g.fresh(t.IntN(w + 2))
	g.names[k.I] = "not an argument of this call"
	t.Log("%s of %d, range %d to %d, sorted %v", kind, n, lo, hi, sorted)
	first, last := c.iter(lo), c.iter(hi)
	odd := func(x iterator.ConstIterator[Key]) bool {
		t.Tick()
		if p := x.(iterator.RandomAccessIterator[Key]).Position(); (p < lo || p >= hi) && g.bad == "" {
			g.bad = fmt.Sprintf("%s shows position %d of the range %d to %d to a predicate", g.what, p, lo, hi)
			return false
		}
		v := x.Value()
		g.check(v)
		return v.O%2 == k.O%2
	}
	each := func(x iterator.ConstIterator[Key]) bool { odd(x); return true }
	none := func(x iterator.ConstIterator[Key]) bool { odd(x); return false }
	t.RepeatN(4, func(int) {
		switch t.IntN(13) {
		case 0:
			g.call("Sort", own, func() { gsort.Sort[Key](first, last, g.cmp) })
			sorted = true
		case 1:
			g.call("Stable", own, func() { gsort.Stable[Key](first, last, g.cmp) })
			sorted = true
		case 2:
			if lo < hi {
				g.call("NthElement", own, func() { gsort.NthElement[Key](first, last, t.IntN(hi-lo), g.cmp) })
				sorted = false
			}
		case 3:
			g.call("NextPermutation", own, func() { gsort.NextPermutation[Key](first, last, g.cmp) })
			sorted = false
		case 4, 5, 6:
			if !sorted {
				break
			}
			g.call("LowerBound", own, func() { gsort.LowerBound[Key](first, last, k, g.cmp) }, k)
			g.call("UpperBound", own, func() { gsort.UpperBound[Key](first, last, k, g.cmp) }, k)
			g.call("BinarySearch", own, func() { gsort.BinarySearch[Key](first, last, k, g.cmp) }, k)
		case 7:
			g.call("MaxElement", own, func() { algorithm.MaxElement[Key](first, last, g.cmp) })
		case 8:
			g.call("MinElement", own, func() { algorithm.MinElement[Key](first, last, g.cmp) })
		case 9:
			g.call("Count", own, func() { algorithm.Count[Key](first, last, k, g.cmp) }, k)
		case 10:
			g.call("Find", own, func() { algorithm.Find[Key](first, last, k, g.cmp) }, k)
		case 11:
			g.call("FindIf", own, func() { algorithm.FindIf[Key](first, last, odd) })
			g.call("FindIf", own, func() { algorithm.FindIf[Key](first, last, none) })
			g.call("CountIf", own, func() { algorithm.CountIf[Key](first, last, odd) })
		case 12:
			for _, f := range []func(iterator.ConstIterator[Key]) bool{odd, each, none} {
				g.call("AnyOf", own, func() { algorithm.AnyOf[Key](first, last, f) })
				g.call("AllOf", own, func() { algorithm.AllOf[Key](first, last, f) })
				g.call("NoneOf", own, func() { algorithm.NoneOf[Key](first, last, f) })
			}
		}
	})
	t.Class("algorithms")
	if g.seen > 0 {
		t.NonTrivial()
	}
}

func init() {
	pbt.Register(pbt.Prop{
		ID:          "C48",
		Rule:        "the library showed some value to a comparator, visitor or predicate",
		Assumptions: []string{"of several equal keys given to a map, set or skiplist any may be kept and shown"},
		Phases: []pbt.Phase{
			{Name: "ordered", Quick: 600000, Thorough: 6000000, Run: func(t *T) { runOrderedGuest(t, orderedKinds[t.Variant(len(orderedKinds))]) }},
			{Name: "others", Quick: 300000, Thorough: 3000000, Clock: true, Run: runOtherGuest},
			{Name: "algorithms", Quick: 600000, Thorough: 6000000, Run: runAlgoGuest},
		},
	})
}
