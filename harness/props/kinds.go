package props

import (
	"fmt"
	"math"
	"reflect"

	"github.com/liyue201/gostl/algorithm"
	"github.com/liyue201/gostl/algorithm/sort"
	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/stack"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/iterator"
	"verifharness/pbt"
)

// Element types that == cannot compare, or compares otherwise than by identity: no
// container or algorithm may care what its elements are.

type kind[E any] struct {
	name string
	gen  func() E
	same func(a, b E) bool // the very same value
	cmp  func(a, b E) int  // an order with ties
}

func (k *kind[E]) all(a, b []E) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !k.same(a[i], b[i]) {
			return false
		}
	}
	return true
}

// loose cannot be compared with ==.
type loose struct {
	O int
	S []int
	F func() int
}

func (l loose) String() string { return fmt.Sprintf("%d'%v", l.O, l.S) }

func sameAny(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.Type() != y.Type() {
		return false
	}
	switch x.Kind() {
	case reflect.Float64:
		return math.Float64bits(x.Float()) == math.Float64bits(y.Float())
	case reflect.Slice:
		return x.Len() == y.Len() && x.Pointer() == y.Pointer()
	case reflect.Map, reflect.Func, reflect.Chan, reflect.Pointer:
		return x.Pointer() == y.Pointer()
	case reflect.Struct:
		for i := 0; i < x.NumField(); i++ {
			if !sameAny(x.Field(i).Interface(), y.Field(i).Interface()) {
				return false
			}
		}
		return true
	}
	return a == b
}

func rankAny(a any) int {
	if a == nil {
		return 0
	}
	return 1 + int(reflect.ValueOf(a).Kind())%5
}

func looseKind(t *T) kind[loose] {
	w := 1 + t.IntN(5)
	return kind[loose]{"struct of slice and function",
		func() loose {
			if t.Bool(1, 6) {
				return loose{}
			}
			o := t.IntN(w)
			return loose{O: o, S: []int{o, t.IntN(3)}, F: func() int { return o }}
		},
		func(a, b loose) bool { return a.O == b.O && sameAny(a.S, b.S) && (a.F == nil) == (b.F == nil) },
		func(a, b loose) int { return cmpInt(a.O, b.O) }}
}

func anyKind(t *T) kind[any] {
	return kind[any]{"any", func() any {
		switch t.IntN(14) {
		case 0:
			return nil
		case 1:
			return 0
		case 2:
			return t.IntN(3)
		case 3:
			return 0.0
		case 4:
			return math.Copysign(0, -1)
		case 5:
			return math.NaN()
		case 6:
			return ""
		case 7:
			return []int{t.IntN(2)}
		case 8:
			return []int(nil)
		case 9:
			return map[int]int{1: t.IntN(2)}
		case 10:
			return (*int)(nil)
		case 11:
			return new(int)
		case 12:
			return loose{O: t.IntN(2), S: []int{1}}
		}
		return struct{}{}
	}, sameAny, func(a, b any) int { return cmpInt(rankAny(a), rankAny(b)) }}
}

func floatKind(t *T) kind[float64] {
	vals := []float64{0, math.Copysign(0, -1), math.NaN(), math.Inf(1), math.Inf(-1), 1, -1, 5e-324, 1 + 0x1p-52}
	return kind[float64]{"float64", func() float64 { return vals[t.IntN(len(vals))] },
		func(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) },
		func(a, b float64) int {
			if a != a || b != b {
				return sgn(b != b && a == a) - sgn(a != a && b == b)
			}
			return sgn(a > b) - sgn(a < b)
		}}
}

type wide [48]int

func (w wide) String() string { return fmt.Sprintf("wide %d'%d", w[0], w[47]) }

func wideKind(t *T) kind[wide] {
	w := 1 + t.IntN(4)
	n := 0
	return kind[wide]{"array of 48 words", func() (e wide) {
		n++
		e[0], e[47], e[23] = t.IntN(w), n, -n
		return
	}, func(a, b wide) bool { return a == b }, func(a, b wide) int { return cmpInt(a[0], b[0]) }}
}

func emptyKind(t *T) kind[struct{}] {
	return kind[struct{}]{"struct{}", func() struct{} { return struct{}{} }, func(a, b struct{}) bool { return true },
		func(a, b struct{}) int { return 0 }}
}

// ---- dictionaries

// kdict adapts a dictionary of keys with an order and values of any type. Only insert,
// get, erase and values are needed.
type kdict[E any] struct {
	insert func(k loose, v E)
	get    func(k loose) (E, bool)
	erase  func(k loose)
	size   func() int // may be nil
	each   func(f func(k loose, v E) bool)
	set    func(k loose, v E) bool // through a node or iterator found by key; may be nil
	clear  func()                  // may be nil
	multi  bool
	hashed bool // no order
}

func cmpLoose(a, b loose) int { return cmpInt(a.O, b.O) }

func newKdict[E any](t *T, id string) *kdict[E] {
	safe := t.Bool(1, 3)
	switch id {
	case "C02":
		tr := rbtree.New[loose, E](cmpLoose)
		return &kdict[E]{insert: tr.Insert, get: func(k loose) (E, bool) { v, err := tr.Find(k); return v, err == nil },
			erase: func(k loose) { tr.Delete(tr.FindNode(k)) }, size: tr.Size, each: func(f func(loose, E) bool) { tr.Traversal(f) },
			set: func(k loose, v E) bool {
				n := tr.FindNode(k)
				if n == nil {
					return false
				}
				if t.Bool(1, 2) {
					n.SetValue(v)
				} else if err := rbtree.NewIterator(n).SetValue(v); err != nil {
					t.Failf("SetValue fails: %v", err)
				}
				return true
			}, clear: tr.Clear, multi: true}
	case "C04":
		var o []treemap.Option
		if safe {
			o = append(o, treemap.WithGoroutineSafe())
		}
		m := treemap.New[loose, E](cmpLoose, o...)
		return &kdict[E]{insert: m.Insert, get: func(k loose) (E, bool) { v, err := m.Get(k); return v, err == nil },
			erase: m.Erase, size: m.Size, each: func(f func(loose, E) bool) { m.Traversal(f) },
			set: func(k loose, v E) bool {
				i := m.Find(k)
				if !i.IsValid() {
					return false
				}
				i.SetValue(v)
				return true
			}, clear: m.Clear}
	case "C05":
		var o []treemap.Option
		if safe {
			o = append(o, treemap.WithGoroutineSafe())
		}
		m := treemap.NewMultiMap[loose, E](cmpLoose, o...)
		return &kdict[E]{insert: m.Insert, get: func(k loose) (E, bool) { v, err := m.Get(k); return v, err == nil },
			erase: m.Erase, size: m.Size, each: func(f func(loose, E) bool) { m.Traversal(f) },
			set: func(k loose, v E) bool {
				i := m.Find(k)
				if !i.IsValid() {
					return false
				}
				i.SetValue(v)
				return true
			}, clear: m.Clear, multi: true}
	case "C10":
		o := skipOpts(1+t.IntN(6), safe)
		l := skiplist.New[loose, E](cmpLoose, o...)
		return &kdict[E]{insert: l.Insert, get: func(k loose) (E, bool) { v, err := l.Get(k); return v, err == nil },
			erase: func(k loose) { l.Remove(k) }, size: l.Len, each: func(f func(loose, E) bool) { l.Traversal(f) }}
	}
	var o []hamt.Option
	if safe {
		o = append(o, hamt.WithGoroutineSafe())
	}
	h := hamt.New[E](o...)
	enc := func(k loose) hamt.Key { return hamt.Key(make([]byte, k.O)) }
	return &kdict[E]{insert: func(k loose, v E) { h.Insert(enc(k), v) },
		get:   func(k loose) (E, bool) { v, err := h.Get(enc(k)); return v, err == nil },
		erase: func(k loose) { h.Erase(enc(k)) },
		each: func(f func(loose, E) bool) {
			h.Traversal(func(k hamt.Key, v E) bool { return f(loose{O: len(k)}, v) })
		}, hashed: true}
}

func runKindDict[E any](t *T, id string, k kind[E]) {
	d := newKdict[E](t, id)
	keys := looseKind(t)
	t.Log("values of type %s", k.name)
	type pair struct {
		k loose
		v E
	}
	var m []pair // in order; equal keys in insertion order
	first := func(key loose) int {
		for i := range m {
			if m[i].k.O >= key.O {
				return i
			}
		}
		return len(m)
	}
	has := func(key loose) bool { i := first(key); return i < len(m) && m[i].k.O == key.O }
	removed, rewritten := 0, 0
	t.Repeat(1, 25, func(int) {
		key, v := keys.gen(), k.gen()
		i := first(key)
		switch t.Pick(6, 3, 2, 1) {
		case 0:
			t.Log("insert %v: %v", key, v)
			d.insert(key, v)
			if has(key) && !d.multi {
				m[i].v = v
				rewritten++
				break
			}
			for i < len(m) && m[i].k.O == key.O {
				i++
			}
			m = insertSlice(m, i, pair{key, v})
		case 1:
			t.Log("erase %v", key)
			d.erase(key)
			for has(key) {
				m = removeSlice(m, first(key))
				removed++
				if id == "C02" {
					break
				}
			}
		case 2:
			if d.set == nil {
				break
			}
			t.Log("write through %v: %v", key, v)
			if got, want := d.set(key, v), has(key); got != want {
				t.Failf("found %v to write through: %v, expected %v", key, got, want)
			}
			if has(key) {
				m[i].v = v
				rewritten++
			}
		default:
			if d.clear == nil || t.Bool(4, 5) {
				break
			}
			t.Log("clear")
			d.clear()
			m = nil
		}
		// compare
		if d.size != nil && d.size() != len(m) {
			t.Failf("size %d, expected %d", d.size(), len(m))
		}
		for o := 0; o < 6; o++ {
			key := loose{O: o}
			got, ok := d.get(key)
			if ok != has(key) {
				t.Failf("key %d found: %v, expected %v", o, ok, has(key))
			}
			if ok && !k.same(got, m[first(key)].v) {
				t.Failf("value of key %d is %v, expected %v", o, got, m[first(key)].v)
			}
		}
		n := 0
		seen := map[int]bool{}
		d.each(func(key loose, v E) bool {
			if n >= len(m) {
				t.Failf("the traversal visits more than %d elements", len(m))
			}
			if d.hashed {
				if !has(key) || seen[key.O] || !k.same(v, m[first(key)].v) {
					t.Failf("the traversal visits %v: %v", key, v)
				}
				seen[key.O] = true
			} else if m[n].k.O != key.O || !k.same(v, m[n].v) {
				t.Failf("element %d of the traversal is %v: %v, expected %v: %v", n, key, v, m[n].k, m[n].v)
			}
			n++
			return true
		})
		if n != len(m) {
			t.Failf("the traversal visits %d elements, expected %d", n, len(m))
		}
	})
	t.Class(k.name)
	if len(m) > 1 && (removed > 0 || rewritten > 0) {
		t.NonTrivial()
	}
}

// ---- sets

func runKindSet[E any](t *T, id string, k kind[E]) {
	safe := t.Bool(1, 3)
	var o []set.Option
	if safe {
		o = append(o, set.WithGoroutineSafe())
	}
	t.Log("elements of type %s", k.name)
	var insert, erase func(E)
	var each func(func(E) bool)
	var find func(E) *set.SetIterator[E]
	var size func() int
	multi := id == "C08"
	if multi {
		s := set.NewMultiSet[E](k.cmp, o...)
		insert, erase, find, size = s.Insert, s.Erase, s.Find, s.Size
		each = func(f func(E) bool) { s.Traversal(f) }
	} else {
		s := set.New[E](k.cmp, o...)
		insert, erase, find, size = s.Insert, s.Erase, s.Find, s.Size
		each = func(f func(E) bool) { s.Traversal(f) }
	}
	var m []E
	lower := func(e E) (i int) {
		for i < len(m) && k.cmp(m[i], e) < 0 {
			i++
		}
		return
	}
	has := func(e E) bool { i := lower(e); return i < len(m) && k.cmp(m[i], e) == 0 }
	removed := 0
	t.Repeat(1, 25, func(int) {
		e := k.gen()
		i := lower(e)
		if t.Bool(2, 3) {
			t.Log("insert %v", e)
			insert(e)
			for multi && i < len(m) && k.cmp(m[i], e) == 0 {
				i++
			}
			if multi || !has(e) {
				m = insertSlice(m, i, e)
			}
		} else {
			t.Log("erase %v", e)
			erase(e)
			if has(e) {
				m = removeSlice(m, i)
				removed++
			}
		}
		q := k.gen()
		f := find(q)
		if f.IsValid() != has(q) || has(q) && k.cmp(f.Value(), m[lower(q)]) != 0 || has(q) && multi && !k.same(f.Value(), m[lower(q)]) {
			t.Failf("Find(%v) gives the wrong element", q)
		}
		var got []E
		each(func(e E) bool { got = append(got, e); return true })
		if size() != len(m) || len(got) != len(m) {
			t.Failf("size %d, %d elements, expected %d", size(), len(got), len(m))
		}
		for j := range m {
			// which of several equal elements a set keeps is its choice
			if k.cmp(got[j], m[j]) != 0 || multi && !k.same(got[j], m[j]) {
				t.Failf("the elements are %v, expected %v", got, m)
			}
		}
	})
	t.Class(k.name)
	if len(m) > 1 && removed > 0 {
		t.NonTrivial()
	}
}

// ---- sequences

type kseq[E any] struct {
	ops  []func(m []E) []E // calls and does to the model; some do nothing
	read func() [][]E      // several views of the contents
	ends func() (front, back E)
}

func readIter[E any](first iterator.ConstIterator[E]) (out []E) {
	for it := first; it.IsValid(); it.Next() {
		out = append(out, it.Value())
	}
	return
}

func newKseq[E any](t *T, id string, k kind[E]) (*kseq[E], []E) {
	elem := func(what string, at int) E {
		e := k.gen()
		t.Log("%s %v at %d", what, e, at)
		return e
	}
	must := func(what string, got, want E) {
		if !k.same(got, want) {
			t.Failf("%s gives %v, expected %v", what, got, want)
		}
	}
	byIndex := func(n int, at func(int) E) (out []E) {
		for i := 0; i < n; i++ {
			out = append(out, at(i))
		}
		return
	}
	ends := func(push, pushFront func(E), pop, popFront func() E) []func(m []E) []E {
		return []func(m []E) []E{
			func(m []E) []E { e := elem("push", len(m)); push(e); return append(m, e) },
			func(m []E) []E {
				if pushFront == nil {
					return m
				}
				e := elem("push", 0)
				pushFront(e)
				return insertSlice(m, 0, e)
			},
			func(m []E) []E {
				if pop == nil || len(m) == 0 {
					return m
				}
				t.Log("pop back")
				must("the pop", pop(), m[len(m)-1])
				return m[:len(m)-1]
			},
			func(m []E) []E {
				if popFront == nil || len(m) == 0 {
					return m
				}
				t.Log("pop front")
				must("the pop", popFront(), m[0])
				return m[1:]
			}}
	}
	setter := func(set func(int, E)) func(m []E) []E {
		return func(m []E) []E {
			if len(m) == 0 {
				return m
			}
			i := t.IntN(len(m))
			e := elem("set", i)
			set(i, e)
			m = cloneSlice(m)
			m[i] = e
			return m
		}
	}
	inserter := func(ins func(int, E)) func(m []E) []E {
		return func(m []E) []E {
			i := t.IntN(len(m) + 1)
			e := elem("insert", i)
			ins(i, e)
			return insertSlice(m, i, e)
		}
	}
	eraser := func(er func(int)) func(m []E) []E {
		return func(m []E) []E {
			if len(m) == 0 {
				return m
			}
			i := t.IntN(len(m))
			t.Log("erase at %d", i)
			er(i)
			return removeSlice(m, i)
		}
	}
	switch id {
	case "C12":
		d := deque.New[E]()
		return &kseq[E]{ops: append(ends(d.PushBack, d.PushFront, d.PopBack, d.PopFront), setter(func(i int, e E) {
			if t.Bool(1, 2) {
				d.IterAt(i).SetValue(e)
			} else {
				d.Set(i, e)
			}
		}), inserter(d.Insert), eraser(d.EraseAt)),
			read: func() [][]E { return [][]E{byIndex(d.Size(), d.At), readIter[E](d.Begin())} },
			ends: func() (E, E) { return d.Front(), d.Back() }}, nil
	case "C13":
		v := vector.New[E]()
		return &kseq[E]{ops: append(ends(v.PushBack, nil, v.PopBack, nil), setter(func(i int, e E) {
			if t.Bool(1, 2) {
				v.IterAt(i).SetValue(e)
			} else {
				v.SetAt(i, e)
			}
		}), inserter(v.InsertAt), eraser(v.EraseAt), func(m []E) []E {
			v.ShrinkToFit()
			return m
		}), read: func() [][]E { return [][]E{byIndex(v.Size(), v.At), readIter[E](v.Begin()), v.Data()} },
			ends: func() (E, E) { return v.Front(), v.Back() }}, nil
	case "C14":
		n := 1 + t.IntN(5)
		m := make([]E, n)
		if t.Bool(1, 2) {
			a := array.New[E](n)
			b := array.New[E](n)
			return &kseq[E]{ops: []func([]E) []E{setter(func(i int, e E) {
				if t.Bool(1, 2) {
					a.IterAt(i).SetValue(e)
				} else {
					a.Set(i, e)
				}
			}), func(m []E) []E {
				if t.Bool(2, 3) {
					return m
				}
				e := elem("fill", 0)
				b.Fill(e)
				m = make([]E, len(m))
				for i := range m {
					m[i] = e
				}
				a.SwapArray(b)
				b.Fill(k.gen())
				return m
			}}, read: func() [][]E {
				return [][]E{byIndex(a.Size(), a.At), readIter[E](a.Begin()), array.NewFromArray(a).Data()}
			}, ends: func() (E, E) { return a.Front(), a.Back() }}, m
		}
		s := make([]E, n)
		w := slice.NewSliceWrapper(s)
		return &kseq[E]{ops: []func([]E) []E{setter(func(i int, e E) {
			if t.Bool(1, 2) {
				w.Begin().IteratorAt(i).SetValue(e)
			} else {
				w.Set(i, e)
			}
		})}, read: func() [][]E { return [][]E{byIndex(w.Len(), w.At), readIter[E](w.Begin()), s} },
			ends: func() (E, E) { return w.First().Value(), w.Last().Value() }}, m
	case "C16":
		l := bidlist.New[E]()
		node := func(i int) *bidlist.Node[E] {
			n := l.FrontNode()
			for ; i > 0; i-- {
				n = n.Next()
			}
			return n
		}
		return &kseq[E]{ops: append(ends(l.PushBack, l.PushFront, l.PopBack, l.PopFront), setter(func(i int, e E) {
			if n := node(i); t.Bool(1, 2) {
				n.Value = e
			} else {
				bidlist.NewIterator(n).SetValue(e)
			}
		}), inserter(func(i int, e E) {
			switch n := l.Size(); {
			case n == 0:
				l.PushBack(e)
			case i == n:
				l.InsertAfter(e, node(n-1))
			default:
				l.InsertBefore(e, node(i))
			}
		}), eraser(func(i int) { l.Remove(node(i)) }), func(m []E) []E {
			if len(m) == 0 || len(m) > 20 {
				return m
			}
			t.Log("append the list to itself")
			l.PushBackList(l)
			return append(cloneSlice(m), m...)
		}), read: func() [][]E {
			var back []E
			for n := l.BackNode(); n != nil; n = n.Prev() {
				back = insertSlice(back, 0, n.Value)
			}
			return [][]E{readIter[E](bidlist.NewIterator(l.FrontNode())), back}
		}, ends: func() (E, E) { return l.Front(), l.Back() }}, nil
	case "C17":
		l := simplelist.New[E]()
		node := func(i int) *simplelist.Node[E] {
			n := l.FrontNode()
			for ; i > 0; i-- {
				n = n.Next()
			}
			return n
		}
		return &kseq[E]{ops: append(ends(l.PushBack, l.PushFront, nil, nil), setter(func(i int, e E) {
			if n := node(i); t.Bool(1, 2) {
				n.Value = e
			} else {
				simplelist.NewIterator(n).SetValue(e)
			}
		}), inserter(func(i int, e E) {
			if i == 0 {
				l.PushFront(e)
			} else {
				l.InsertAfter(e, node(i-1))
			}
		}), eraser(func(i int) {
			var pre *simplelist.Node[E]
			if i > 0 {
				pre = node(i - 1)
			}
			l.Remove(pre, node(i))
		})), read: func() [][]E { return [][]E{readIter[E](simplelist.NewIterator(l.FrontNode()))} },
			ends: func() (E, E) { return l.FrontNode().Value, l.BackNode().Value }}, nil
	case "C18":
		o := []queue.Option[E]{}
		switch t.IntN(3) {
		case 0:
			o = append(o, queue.WithListContainer[E]())
		case 1:
			o = append(o, queue.WithContainer[E](deque.New[E]()))
		}
		if t.Bool(1, 2) {
			o = append(o, queue.WithGoroutineSafe[E]())
		}
		q := queue.New(o...)
		return &kseq[E]{ops: ends(q.Push, nil, nil, q.Pop), read: func() [][]E { return nil },
			ends: func() (E, E) { return q.Front(), q.Back() }}, nil
	case "C19":
		o := []stack.Option[E]{}
		switch t.IntN(3) {
		case 0:
			o = append(o, stack.WithListContainer[E]())
		case 1:
			o = append(o, stack.WithContainer[E](deque.New[E]()))
		}
		if t.Bool(1, 2) {
			o = append(o, stack.WithGoroutineSafe[E]())
		}
		s := stack.New(o...)
		bottom := *new(E)
		return &kseq[E]{ops: ends(func(e E) {
			if s.Empty() {
				bottom = e
			}
			s.Push(e)
		}, nil, s.Pop, nil), read: func() [][]E { return nil },
			ends: func() (E, E) { return bottom, s.Top() }}, nil
	}
	panic(id)
}

func runKindSeq[E any](t *T, id string, k kind[E]) {
	s, m := newKseq(t, id, k)
	t.Log("elements of type %s", k.name)
	steps := 0
	t.Repeat(1, 25, func(int) {
		before := len(m)
		m = s.ops[t.IntN(len(s.ops))](m)
		if len(m) < before {
			steps++
		}
		for _, v := range s.read() {
			if !k.all(v, m) {
				t.Failf("the elements are %v, expected %v", v, m)
			}
		}
		if len(m) > 0 {
			if f, b := s.ends(); !k.same(f, m[0]) || !k.same(b, m[len(m)-1]) {
				t.Failf("the ends are %v and %v, expected %v and %v", f, b, m[0], m[len(m)-1])
			}
		}
	})
	t.Class(k.name)
	if len(m) > 1 && (steps > 0 || id == "C14") {
		t.NonTrivial()
	}
}

func runKindPQ[E any](t *T, k kind[E]) {
	var o []priorityqueue.Option
	if t.Bool(1, 2) {
		o = append(o, priorityqueue.WithGoroutineSafe())
	}
	q := priorityqueue.New[E](k.cmp, o...)
	t.Log("elements of type %s", k.name)
	var m []E // in order
	pops := 0
	t.Repeat(1, 30, func(int) {
		if len(m) == 0 || t.Bool(2, 3) {
			e := k.gen()
			t.Log("push %v", e)
			q.Push(e)
			i := 0
			for i < len(m) && k.cmp(m[i], e) <= 0 {
				i++
			}
			m = insertSlice(m, i, e)
		} else {
			t.Log("pop")
			if got := q.Pop(); !k.same(got, m[0]) {
				t.Failf("Pop() = %v, expected %v", got, m[0])
			}
			m = m[1:]
			pops++
		}
		if q.Size() != len(m) || len(m) > 0 && !k.same(q.Top(), m[0]) {
			t.Failf("size %d, expected %d; or the wrong top", q.Size(), len(m))
		}
	})
	t.Class(k.name)
	if pops > 0 && len(m) > 0 {
		t.NonTrivial()
	}
}

// ---- algorithms

func runKindAlgo[E any](t *T, id string, k kind[E]) {
	var vals []E
	t.Repeat(0, 14, func(int) { vals = append(vals, k.gen()) })
	t.Log("%s of %s: %v", id, k.name, vals)
	orig := cloneSlice(vals)
	var ra func(int) iterator.RandomAccessIterator[E]
	var contents func() []E
	if t.Bool(1, 2) {
		v := vector.New[E]()
		for _, e := range vals {
			v.PushBack(e)
		}
		ra = func(i int) iterator.RandomAccessIterator[E] { return v.IterAt(i) }
		contents = v.Data
	} else {
		d := deque.New[E]()
		for _, e := range vals {
			d.PushBack(e)
		}
		ra = func(i int) iterator.RandomAccessIterator[E] { return d.IterAt(i) }
		contents = func() (out []E) {
			for i := 0; i < d.Size(); i++ {
				out = append(out, d.At(i))
			}
			return
		}
	}
	n := len(vals)
	stable := cloneSlice(vals)
	for i := range stable {
		for j := i; j > 0 && k.cmp(stable[j-1], stable[j]) > 0; j-- {
			stable[j-1], stable[j] = stable[j], stable[j-1]
		}
	}
	// a permutation, by marking each value found
	perm := func(got []E) bool {
		used := make([]bool, n)
	next:
		for _, g := range got {
			for i := range orig {
				if !used[i] && k.same(orig[i], g) {
					used[i] = true
					continue next
				}
			}
			return false
		}
		return len(got) == n
	}
	q := k.gen()
	must := func(ok bool, what string) {
		if !ok {
			t.Failf("%s: contents %v", what, contents())
		}
	}
	unchanged := func() { must(k.all(contents(), orig), "the elements were changed") }
	pos := func(it iterator.ConstIterator[E]) int { return it.(iterator.RandomAccessIterator[E]).Position() }
	switch id {
	case "C30":
		sort.Sort(ra(0), ra(n), k.cmp)
		got := contents()
		must(perm(got), "not a permutation")
		for i := 1; i < n; i++ {
			must(k.cmp(got[i-1], got[i]) <= 0, "not in order")
		}
	case "C31":
		sort.Stable(ra(0), ra(n), k.cmp)
		must(k.all(contents(), stable), fmt.Sprintf("not sorted stably, expected %v", stable))
	case "C32":
		orig = stable
		for i, e := range stable {
			ra(i).SetValue(e)
		}
		lo, up := 0, 0
		for _, e := range stable {
			lo += sgn(k.cmp(e, q) < 0)
			up += sgn(k.cmp(e, q) <= 0)
		}
		must(sort.LowerBound(ra(0), ra(n), q, k.cmp).Position() == lo, "LowerBound is wrong")
		must(sort.UpperBound(ra(0), ra(n), q, k.cmp).Position() == up, "UpperBound is wrong")
		must(sort.BinarySearch(ra(0), ra(n), q, k.cmp) == (lo < up), "BinarySearch is wrong")
		unchanged()
	case "C33":
		if n == 0 {
			return
		}
		i := t.IntN(n)
		sort.NthElement(ra(0), ra(n), i, k.cmp)
		got := contents()
		must(perm(got), "not a permutation")
		must(k.cmp(got[i], stable[i]) == 0, fmt.Sprintf("the wrong element at %d", i))
		for j := range got {
			must(j >= i || k.cmp(got[j], got[i]) <= 0, "a greater element before")
			must(j <= i || k.cmp(got[j], got[i]) >= 0, "a smaller element behind")
		}
	case "C34":
		want := cloneSlice(orig)
		ok := nextPerm(want, k.cmp)
		must(sort.NextPermutation(ra(0), ra(n), k.cmp) == ok, "the wrong result")
		got := contents()
		must(perm(got), "not a permutation")
		for j := range got {
			must(k.cmp(got[j], want[j]) == 0, fmt.Sprintf("not the next permutation, expected %v", want))
		}
		if !ok {
			must(k.all(got, orig), "changed though there is no next one")
		}
	case "C35":
		count, first, least, most := 0, n, n, n
		for j, e := range orig {
			if k.cmp(e, q) == 0 {
				count++
				first = min(first, j)
			}
			if least == n || k.cmp(e, orig[least]) < 0 {
				least = j
			}
			if most == n || k.cmp(e, orig[most]) > 0 {
				most = j
			}
		}
		must(algorithm.Count[E](ra(0), ra(n), q, k.cmp) == count, "Count is wrong")
		must(pos(algorithm.Find[E](ra(0), ra(n), q, k.cmp)) == first, "Find is wrong")
		must(pos(algorithm.MinElement[E](ra(0), ra(n), k.cmp)) == least, "MinElement is wrong")
		must(pos(algorithm.MaxElement[E](ra(0), ra(n), k.cmp)) == most, "MaxElement is wrong")
		unchanged()
	case "C36":
		want := cloneSlice(orig)
		for a, b := 0, n-1; a < b; a, b = a+1, b-1 {
			want[a], want[b] = want[b], want[a]
		}
		algorithm.Reverse[E](ra(0), ra(n))
		must(k.all(contents(), want), fmt.Sprintf("not reversed, expected %v", want))
		if n > 1 {
			a, b := t.IntN(n), t.IntN(n)
			algorithm.Swap[E](ra(a), ra(b))
			want[a], want[b] = want[b], want[a]
			must(k.all(contents(), want), fmt.Sprintf("not swapped, expected %v", want))
		}
	}
	t.Class(k.name)
	if n > 2 {
		t.NonTrivial()
	}
}

func runKind[E any](t *T, id string, k kind[E]) {
	switch id {
	case "C02", "C04", "C05", "C10", "C26":
		runKindDict(t, id, k)
	case "C06", "C08":
		runKindSet(t, id, k)
	case "C20":
		runKindPQ(t, k)
	case "C30", "C31", "C32", "C33", "C34", "C35", "C36":
		runKindAlgo(t, id, k)
	default:
		runKindSeq(t, id, k)
	}
}

func init() {
	for _, id := range []string{"C02", "C04", "C05", "C06", "C08", "C10", "C12", "C13", "C14", "C16", "C17", "C18", "C19", "C20", "C26",
		"C30", "C31", "C32", "C33", "C34", "C35", "C36"} {
		pbt.AddPhase(id, pbt.Phase{Name: "types", Quick: 40000, Thorough: 1000000, Run: func(t *T) {
			switch t.Pick(3, 3, 2, 1, 1) {
			case 0:
				runKind(t, id, looseKind(t))
			case 1:
				runKind(t, id, anyKind(t))
			case 2:
				runKind(t, id, floatKind(t))
			case 3:
				runKind(t, id, wideKind(t))
			default:
				runKind(t, id, emptyKind(t))
			}
		}})
	}
}
