package props

import (
	"fmt"
	"sort"

	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/bitmap"
	bloom "github.com/liyue201/gostl/ds/bloomfilter"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/ketama"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	"github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/stack"
	"github.com/liyue201/gostl/ds/vector"
	"verifharness/pbt"
)

// shared is a set of option values given to every container of a case.
type shared struct {
	tm []treemap.Option
	st []set.Option
	sk []skiplist.Option
	hm []hamt.Option
	qu []queue.Option[int]
	sa []stack.Option[int]
	pq []priorityqueue.Option
	kt []ketama.Option
	bl []bloom.Option
}

func newShared(safe, list bool) *shared {
	s := &shared{}
	if list {
		s.qu = append(s.qu, queue.WithListContainer[int]())
		s.sa = append(s.sa, stack.WithListContainer[int]())
	}
	if safe {
		s.tm = []treemap.Option{treemap.WithGoroutineSafe()}
		s.st = []set.Option{set.WithGoroutineSafe()}
		s.sk = []skiplist.Option{skiplist.WithGoroutineSafe()}
		s.hm = []hamt.Option{hamt.WithGoroutineSafe()}
		s.qu = append([]queue.Option[int]{queue.WithGoroutineSafe[int]()}, s.qu...)
		s.sa = append(s.sa, stack.WithGoroutineSafe[int]())
		s.pq = []priorityqueue.Option{priorityqueue.WithGoroutineSafe()}
		s.kt = []ketama.Option{ketama.WithGoroutineSafe()}
		s.bl = []bloom.Option{bloom.WithGoroutineSafe()}
	}
	return s
}

type kv struct{ k, v any }

// manner is how a call is refused.
type manner int

const (
	panics manner = iota // by a panic
	quiet                // without one
	either
)

type refusal struct {
	name string
	how  manner
	f    func() string // what is wrong with the results ("": nothing)
}

// box is a container of any kind with its model.
type box struct {
	t         *T
	name      string
	change    func()                         // a generated change
	bulk      func(n int)                    // n changes that let it grow (nil: none)
	check     func()                         // compares everything with the model
	visit     func(func(k, v any) bool)      // nil: no traversal
	entries   func() []kv                    // what a traversal gives
	unordered bool                           // entries are in no particular order
	refusals  func() []refusal               // calls to be refused now
	reads     []func()                       // reads that call the comparator (nil: none)
	raw       any                            // the container
	algebra   func(o *box, which int) func() // a set operation with another box
}

// outside draws a position outside [0, n] or just past its end.
func outside(t *T, n int, endToo bool) int {
	if endToo && t.Bool(1, 3) {
		return n
	}
	return []int{-1, n + 1, -2, n + 128, n + 256, -128, 1 << 40, -1 << 62, 1<<62 + n, -1 << 63}[t.Pick(5, 5, 1, 1, 1, 1, 1, 1, 1, 1)]
}

func ok(f func()) func() string { return func() string { f(); return "" } }

func want(cond bool, format string, args ...any) string {
	if cond {
		return ""
	}
	return fmt.Sprintf(format, args...)
}

var boxKinds = []string{"array", "slice", "vector", "deque", "bidlist", "simplelist", "rbtree", "map", "multimap", "set", "multiset",
	"skiplist", "hamt", "queue", "stack", "priority queue", "bitmap", "bloom filter", "ketama"}

var visitKinds = []string{"rbtree", "map", "multimap", "set", "multiset", "skiplist", "bidlist", "simplelist", "hamt"}

func newBox(t *T, kind string, d *dom[Key], sh *shared, safe bool) *box {
	switch kind {
	case "array", "slice", "vector", "deque":
		return seqBox(t, kind)
	case "bidlist":
		return bidlistBox(t)
	case "simplelist":
		return simplelistBox(t)
	case "skiplist":
		return skiplistBox(t, d, sh)
	case "hamt":
		return hamtBox(t, sh)
	case "queue", "stack", "priority queue":
		return adapterBox(t, kind, sh)
	case "bitmap":
		return bitmapBox(t)
	case "bloom filter":
		return bloomBox(t, sh)
	case "ketama":
		return ketamaBox(t, sh)
	}
	return orderedBox(t, kind, d, safe)
}

// mirror compares the contents of a box with a slice.
func (b *box) same(got, m []int) {
	if !eqSlice(got, m) {
		b.t.Failf("%s: holds %s, expected %s", b.name, str(got), str(m))
	}
}

func seqBox(t *T, kind string) *box {
	var m []int
	n := 0
	gen := func() int { n++; return n }
	for i := t.Size(20); i > 0; i-- {
		m = append(m, gen())
	}
	s := newSeq(kind, m, t.IntN(len(m)+1))
	b := &box{t: t, name: kind, raw: s.raw}
	b.check = func() {
		if s.size() != len(m) {
			t.Failf("%s: size %d, expected %d", b.name, s.size(), len(m))
		}
		b.same(s.contents(), m)
		if s.str != nil {
			if len(m) < 40 {
				if g := s.str(); g != listString(m) {
					t.Failf("%s: String() = %q, expected %q", b.name, g, listString(m))
				}
			}
		}
		var w []int
		for x := s.begin(); x.IsValid(); x.Next() {
			w = append(w, x.Value())
		}
		b.same(w, m)
	}
	set := func() {
		if len(m) > 0 {
			i, v := t.IntN(len(m)), gen()
			t.Log("%s: element %d set to %d", b.name, i, v)
			if t.Bool(1, 2) {
				s.set(i, v)
			} else {
				s.iter(i).SetValue(v)
			}
			m[i] = v
		}
	}
	if s.push != nil {
		b.bulk = func(n int) {
			t.Log("%s: %d pushes", b.name, n)
			for ; n > 0; n-- {
				v := gen()
				s.push(v)
				m = append(m, v)
			}
		}
	}
	b.change = func() {
		if s.push == nil || t.Bool(1, 4) {
			set()
			return
		}
		switch t.Pick(4, 2, 2, 2) {
		case 0:
			b.bulk(1)
		case 1:
			if len(m) > 0 {
				t.Log("%s: pop", b.name)
				s.pop()
				m = m[:len(m)-1]
			}
		case 2:
			i, v := pos(t, len(m)+1), gen()
			t.Log("%s: insert %d at %d", b.name, v, i)
			if c, ok := s.raw.(*vector.Vector[int]); ok {
				c.InsertAt(i, v)
			} else {
				s.raw.(*deque.Deque[int]).Insert(i, v)
			}
			m = insertSlice(m, i, v)
		case 3:
			if len(m) == 0 {
				return
			}
			i := pos(t, len(m))
			j := min(i+1+t.IntN(3), len(m))
			t.Log("%s: erase [%d, %d)", b.name, i, j)
			if c, ok := s.raw.(*vector.Vector[int]); ok {
				c.EraseIndexRange(i, j)
			} else {
				s.raw.(*deque.Deque[int]).EraseRange(i, j)
			}
			m = append(m[:i:i], m[j:]...)
		}
	}
	b.refusals = func() []refusal {
		n := len(m)
		p := outside(t, n, true)  // not an element
		q := outside(t, n, false) // not even the end
		x := s.iter(p)
		if t.Bool(1, 2) { // an iterator that walked off an end
			x = s.end()
			for i := t.IntN(3); i > 0; i-- {
				x.Next()
			}
			if t.Bool(1, 2) {
				x = s.begin()
				x.Prev()
			}
		}
		rs := []refusal{
			{fmt.Sprintf("At(%d)", p), panics, ok(func() { s.at(p) })},
			{fmt.Sprintf("set at %d", p), quiet, ok(func() { s.set(p, -7) })},
			{"Value of an iterator that is on no element", panics, ok(func() { x.Value() })},
			{"SetValue of an iterator that is on no element", quiet, ok(func() { x.SetValue(-7) })},
			{"IsValid of an iterator that is on no element", quiet, func() string { return want(!x.IsValid(), "true") }},
		}
		i, j := t.IntN(n+1), t.IntN(n+1)
		i, j = min(i, j), max(i, j)
		bad := [][2]int{{-1 - t.IntN(3), j}, {i, n + 1 + t.IntN(200)}, {j + 1, i}, {q, q + 1}, {-1, n + 1}}[t.IntN(5)]
		switch c := s.raw.(type) {
		case *array.Array[int]:
			rs = append(rs, refusal{"SwapArray with an array of another size", quiet, func() string {
				o := array.New[int](n + 1 + t.IntN(2))
				o.Fill(-7)
				c.SwapArray(o)
				return want(o.Size() > n && o.At(0) == -7, "the other array changed")
			}})
			if n == 0 {
				rs = append(rs, refusal{"Front", panics, ok(func() { c.Front() })}, refusal{"Back", panics, ok(func() { c.Back() })})
			}
		case *vector.Vector[int]:
			rs = append(rs,
				refusal{fmt.Sprintf("InsertAt(%d)", q), quiet, ok(func() { c.InsertAt(q, -7) })},
				refusal{fmt.Sprintf("EraseAt(%d)", p), quiet, ok(func() { c.EraseAt(p) })},
				refusal{fmt.Sprintf("EraseIndexRange(%d, %d)", bad[0], bad[1]), quiet, ok(func() { c.EraseIndexRange(bad[0], bad[1]) })},
				refusal{fmt.Sprintf("Insert at an iterator at %d", q), quiet, ok(func() { c.Insert(c.IterAt(q), -7) })},
				refusal{fmt.Sprintf("Erase of an iterator at %d", p), quiet, ok(func() { c.Erase(c.IterAt(p)) })},
				refusal{fmt.Sprintf("EraseRange of iterators at %d and %d", bad[0], bad[1]), quiet, ok(func() { c.EraseRange(c.IterAt(bad[0]), c.IterAt(bad[1])) })},
				refusal{"Resize(-1)", either, ok(func() { c.Resize(-1) })},
				refusal{"Reserve(-1)", either, ok(func() { c.Reserve(-1) })})
			if n == 0 {
				rs = append(rs, refusal{"Front", panics, ok(func() { c.Front() })}, refusal{"Back", panics, ok(func() { c.Back() })},
					refusal{"PopBack", panics, ok(func() { c.PopBack() })})
			}
		case *deque.Deque[int]:
			rs = append(rs,
				refusal{fmt.Sprintf("Insert(%d)", q), quiet, ok(func() { c.Insert(q, -7) })},
				refusal{fmt.Sprintf("Set(%d)", p), quiet, func() string { return want(c.Set(p, -7) != nil, "no error") }},
				refusal{fmt.Sprintf("EraseAt(%d)", p), quiet, ok(func() { c.EraseAt(p) })},
				refusal{fmt.Sprintf("EraseRange(%d, %d)", bad[0], bad[1]), quiet, ok(func() { c.EraseRange(bad[0], bad[1]) })})
			if n == 0 {
				rs = append(rs, refusal{"Front", panics, ok(func() { c.Front() })}, refusal{"Back", panics, ok(func() { c.Back() })},
					refusal{"PopBack", panics, ok(func() { c.PopBack() })}, refusal{"PopFront", panics, ok(func() { c.PopFront() })})
			}
		case *slice.SliceWrapper[int]:
		}
		return rs
	}
	return b
}

func bidlistBox(t *T) *box {
	l := bidlist.New[int]()
	var m []int
	n := 0
	gen := func() int { n++; return n }
	b := &box{t: t, name: "bidlist", raw: l}
	node := func(i int) *bidlist.Node[int] {
		x := l.FrontNode()
		for ; i > 0; i-- {
			x = x.Next()
		}
		return x
	}
	dead := &bidlist.Node[int]{Value: -7}
	other := bidlist.New[int]()
	other.PushBack(-8)
	other.PushBack(-9)
	b.check = func() {
		if l.Len() != len(m) || l.Size() != len(m) || l.Empty() != (len(m) == 0) {
			t.Failf("%s: Len() = %d, expected %d", b.name, l.Len(), len(m))
		}
		var f, r []int
		for x := l.FrontNode(); x != nil; x = x.Next() {
			f = append(f, x.Value)
		}
		for x := l.BackNode(); x != nil; x = x.Prev() {
			r = append(r, x.Value)
		}
		for i := 0; i < len(r)/2; i++ {
			r[i], r[len(r)-1-i] = r[len(r)-1-i], r[i]
		}
		b.same(f, m)
		b.same(r, m)
		if g := other.String(); g != "[-8 -9]" {
			t.Failf("%s: another list became %s", b.name, g)
		}
	}
	b.bulk = func(n int) {
		for ; n > 0; n-- {
			v := gen()
			t.Log("%s: push %d", b.name, v)
			if v%2 == 0 {
				l.PushFront(v)
				m = insertSlice(m, 0, v)
			} else {
				l.PushBack(v)
				m = append(m, v)
			}
		}
	}
	b.change = func() {
		k := t.Pick(5, 2, 1, 2, 1, 1)
		if k > 0 && len(m) == 0 {
			k = 0
		}
		switch k {
		case 0:
			b.bulk(1)
		case 1:
			i := t.IntN(len(m))
			t.Log("%s: remove node %d", b.name, i)
			dead = node(i)
			l.Remove(dead)
			m = removeSlice(m, i)
		case 2:
			i, v := t.IntN(len(m)), gen()
			t.Log("%s: node %d gets value %d", b.name, i, v)
			node(i).Value = v
			m[i] = v
		case 3:
			i := t.IntN(len(m))
			t.Log("%s: node %d to the front", b.name, i)
			l.MoveToFront(node(i))
			m = insertSlice(removeSlice(m, i), 0, m[i])
		case 4:
			i, v := t.IntN(len(m)), gen()
			t.Log("%s: insert %d before node %d", b.name, v, i)
			l.InsertBefore(v, node(i))
			m = insertSlice(m, i, v)
		case 5:
			t.Log("%s: clear", b.name)
			dead = l.BackNode()
			l.Clear()
			m = nil
		}
	}
	b.visit = func(f func(k, v any) bool) { l.Traversal(func(v int) bool { return f(nil, v) }) }
	b.entries = func() (out []kv) {
		for _, v := range m {
			out = append(out, kv{nil, v})
		}
		return
	}
	b.refusals = func() []refusal {
		foreign := []*bidlist.Node[int]{dead, other.FrontNode(), other.BackNode()}[t.IntN(3)]
		fv := foreign.Value
		mine := foreign
		if len(m) > 0 {
			mine = node(t.IntN(len(m)))
		}
		nilRes := func(x *bidlist.Node[int]) string { return want(x == nil, "a node is returned") }
		x := bidlist.NewIterator[int](nil)
		rs := []refusal{
			{"InsertAfter a foreign node", quiet, func() string { return nilRes(l.InsertAfter(-7, foreign)) }},
			{"InsertBefore a foreign node", quiet, func() string { return nilRes(l.InsertBefore(-7, foreign)) }},
			{"Remove of a foreign node", quiet, func() string { return want(l.Remove(foreign) == fv, "another value") }},
			{"MoveToFront of a foreign node", quiet, ok(func() { l.MoveToFront(foreign) })},
			{"MoveToBack of a foreign node", quiet, ok(func() { l.MoveToBack(foreign) })},
			{"MoveAfter of a foreign node", quiet, ok(func() { l.MoveAfter(foreign, mine) })},
			{"MoveAfter to a foreign node", quiet, ok(func() { l.MoveAfter(mine, foreign) })},
			{"Value of an iterator past the end", panics, ok(func() { x.Value() })},
			{"SetValue of an iterator past the end", quiet, ok(func() { x.SetValue(-7) })},
			{"InsertAfter nil", either, func() string { return nilRes(l.InsertAfter(-7, nil)) }},
			{"Remove of nil", either, ok(func() { l.Remove(nil) })},
		}
		if len(m) == 0 {
			rs = append(rs, refusal{"PopFront", panics, ok(func() { l.PopFront() })}, refusal{"PopBack", panics, ok(func() { l.PopBack() })},
				refusal{"Front", panics, ok(func() { l.Front() })}, refusal{"Back", panics, ok(func() { l.Back() })},
				refusal{"FrontNode", quiet, func() string { return nilRes(l.FrontNode()) }}, refusal{"BackNode", quiet, func() string { return nilRes(l.BackNode()) }})
		}
		return rs
	}
	return b
}

func simplelistBox(t *T) *box {
	l := simplelist.New[int]()
	var m []int
	n := 0
	gen := func() int { n++; return n }
	b := &box{t: t, name: "simplelist", raw: l}
	node := func(i int) *simplelist.Node[int] {
		if i < 0 || i >= len(m) {
			return nil
		}
		x := l.FrontNode()
		for ; i > 0; i-- {
			x = x.Next()
		}
		return x
	}
	dead := &simplelist.Node[int]{Value: -7}
	other := simplelist.New[int]()
	other.PushBack(-8)
	other.PushBack(-9)
	b.check = func() {
		if l.Len() != len(m) {
			t.Failf("%s: Len() = %d, expected %d", b.name, l.Len(), len(m))
		}
		var f []int
		var last *simplelist.Node[int]
		for x := l.FrontNode(); x != nil; x = x.Next() {
			f = append(f, x.Value)
			last = x
		}
		b.same(f, m)
		if l.BackNode() != last {
			t.Failf("%s: BackNode is not the last node", b.name)
		}
		if g := other.String(); g != "[-8 -9]" {
			t.Failf("%s: another list became %s", b.name, g)
		}
	}
	b.bulk = func(n int) {
		for ; n > 0; n-- {
			v := gen()
			t.Log("%s: push %d", b.name, v)
			if v%2 == 0 {
				l.PushFront(v)
				m = insertSlice(m, 0, v)
			} else {
				l.PushBack(v)
				m = append(m, v)
			}
		}
	}
	b.change = func() {
		k := t.Pick(5, 2, 1, 2, 1)
		if k > 0 && len(m) == 0 {
			k = 0
		}
		switch k {
		case 0:
			b.bulk(1)
		case 1:
			i := t.IntN(len(m))
			t.Log("%s: remove node %d", b.name, i)
			dead = node(i)
			l.Remove(node(i-1), dead)
			m = removeSlice(m, i)
		case 2:
			i, v := t.IntN(len(m)), gen()
			t.Log("%s: node %d gets value %d", b.name, i, v)
			node(i).Value = v
			m[i] = v
		case 3:
			i := t.IntN(len(m))
			t.Log("%s: node %d to the back", b.name, i)
			l.MoveToBack(node(i-1), node(i))
			m = append(removeSlice(m, i), m[i])
		case 4:
			i, v := t.IntN(len(m)), gen()
			t.Log("%s: insert %d after node %d", b.name, v, i)
			l.InsertAfter(v, node(i))
			m = insertSlice(m, i+1, v)
		}
	}
	b.visit = func(f func(k, v any) bool) { l.Traversal(func(v int) bool { return f(nil, v) }) }
	b.entries = func() (out []kv) {
		for _, v := range m {
			out = append(out, kv{nil, v})
		}
		return
	}
	b.refusals = func() []refusal {
		foreign := []*simplelist.Node[int]{dead, other.FrontNode(), other.BackNode()}[t.IntN(3)]
		x := simplelist.NewIterator[int](nil)
		rs := []refusal{
			{"InsertAfter a foreign node", quiet, func() string { return want(l.InsertAfter(-7, foreign) == nil, "a node is returned") }},
			{"Remove of nil", quiet, func() string { return want(l.Remove(nil, nil) == 0, "a value is returned") }},
			{"MoveToFront of nil", quiet, ok(func() { l.MoveToFront(nil, nil) })},
			{"MoveToFront of nil after the last node", quiet, ok(func() { l.MoveToFront(node(len(m)-1), nil) })},
			{"MoveToBack of nil", quiet, ok(func() { l.MoveToBack(nil, nil) })},
			{"Value of an iterator past the end", panics, ok(func() { x.Value() })},
			{"SetValue of an iterator past the end", quiet, ok(func() { x.SetValue(-7) })},
			{"InsertAfter nil", either, func() string { return want(l.InsertAfter(-7, nil) == nil, "a node is returned") }},
		}
		if len(m) > 0 {
			i, j := t.IntN(len(m)), t.IntN(len(m))
			if i+1 != j {
				rs = append(rs, refusal{fmt.Sprintf("MoveToFront of node %d as the successor of node %d", j, i), quiet, ok(func() { l.MoveToFront(node(i), node(j)) })})
			}
			rs = append(rs, refusal{"MoveToFront of the front node", quiet, ok(func() { l.MoveToFront(nil, node(0)) })},
				refusal{"MoveToBack of the back node", quiet, ok(func() { l.MoveToBack(node(len(m)-2), node(len(m)-1)) })})
		} else {
			rs = append(rs, refusal{"FrontNode", quiet, func() string { return want(l.FrontNode() == nil, "a node") }},
				refusal{"BackNode", quiet, func() string { return want(l.BackNode() == nil, "a node") }})
		}
		return rs
	}
	return b
}

func orderedBox(t *T, kind string, d *dom[Key], safe bool) *box {
	s := newState(t, d, newOrdered(kind, d, safe))
	b := &box{t: t, name: kind, raw: s.c.raw}
	b.check = func() {
		s.name = b.name
		s.checkAll()
		if len(s.m.es) < 12 {
			s.allQueries()
		}
	}
	b.change = func() { t.Log("%s:", b.name); s.step() }
	b.bulk = func(n int) {
		t.Log("%s: %d insertions", b.name, n)
		r := pbt.NewRng(uint64(n))
		for i := 0; i < n; i++ {
			s.insert(d.at(int(r.N(40))))
		}
	}
	b.visit = func(f func(k, v any) bool) {
		s.c.traverse(func(k Key, v int) bool {
			if !s.c.multi {
				k.I = 0 // which member of a class is kept is not claimed
			}
			return f(k, v)
		})
	}
	b.entries = func() (out []kv) {
		for _, e := range s.m.es {
			if !s.c.hasVal {
				e.v = 0
			}
			if !s.c.multi {
				e.k.I = 0
			}
			out = append(out, kv{e.k, e.v})
		}
		return
	}
	absent := func() (Key, bool) {
		for i := 0; i < 8; i++ {
			k := d.gen()
			if t.Bool(1, 2) && len(s.m.es) > 0 {
				k = d.near(s.m.es[t.IntN(len(s.m.es))].k)
			}
			if !s.m.has(k) {
				return k, true
			}
		}
		return Key{1 << 40, 0}, true
	}
	b.refusals = func() []refusal {
		k, _ := absent()
		miss := s.c.find(k)
		past := s.c.last[0]()
		if past.Valid() {
			past.Next()
		}
		off := s.c.first[t.IntN(len(s.c.first))]()
		if off.Valid() {
			off.Prev()
		}
		iter := []it[Key]{miss, past, off}[t.IntN(3)]
		rs := []refusal{
			{"find of an absent key", quiet, func() string { return want(!miss.Valid(), "an entry") }},
			{"step past the end", quiet, func() string { return want(!past.Valid() && !off.Valid(), "an entry") }},
			{"erase of an absent key", quiet, ok(func() { s.c.erase(k) })},
		}
		if _, node := iter.(*nodeIt[Key]); !node {
			rs = append(rs, refusal{"a step of an iterator past the end", quiet, func() string {
				iter.Next()
				iter.Prev()
				return want(!iter.Valid(), "it became valid")
			}}, refusal{"a read through an iterator past the end", panics, ok(func() { iter.Key() })})
			if s.c.hasVal {
				rs = append(rs, refusal{"a write through an iterator past the end", either, ok(func() { iter.SetVal(-7) })})
			}
		}
		if s.c.get != nil {
			rs = append(rs, refusal{"Get of an absent key", quiet, func() string {
				v, found := s.c.get(k)
				return want(!found && v == 0, "%d, found %v", v, found)
			}})
		}
		if s.c.eraseAll != nil {
			rs = append(rs, refusal{"EraseAll of an absent key", quiet, ok(func() { s.c.eraseAll(k) })})
		}
		if m, isMap := s.c.raw.(*treemap.Map[Key, int]); isMap {
			rs = append(rs, refusal{"EraseIter past the end", quiet, ok(func() { m.EraseIter(iter.(*mapIt[Key]).i) })})
		}
		if tr, isTree := s.c.raw.(*rbtree.RbTree[Key, int]); isTree {
			rs = append(rs, refusal{"Delete of nil", quiet, ok(func() { tr.Delete(nil) })})
		}
		return rs
	}
	key := func() Key { return s.pickKey() }
	b.reads = []func(){func() { s.c.find(key()) }, func() { s.c.lower(key()) }, func() { s.c.upper(key()) }, func() { s.c.contains(key()) }}
	if s.c.get != nil {
		b.reads = append(b.reads, func() { s.c.get(key()) })
	}
	if s.c.count != nil {
		b.reads = append(b.reads, func() { s.c.count(key()) })
	}
	if s.c.union != nil {
		b.algebra = func(o *box, which int) func() {
			x, y := s.c, wrapSet(o.raw.(*set.Set[Key]), safe)
			return func() {
				switch which {
				case 0:
					x.union(y)
				case 1:
					x.inter(y)
				default:
					x.diff(y)
				}
			}
		}
	}
	return b
}

func skiplistBox(t *T, d *dom[Key], sh *shared) *box {
	l := skiplist.New[Key, int](d.cmpFn(), sh.sk...)
	m := omodel[Key]{cmp: d.cmp}
	b := &box{t: t, name: "skiplist", raw: l}
	n := 0
	b.check = func() {
		if l.Len() != len(m.es) {
			t.Failf("%s: Len() = %d, expected %d", b.name, l.Len(), len(m.es))
		}
		for i, k := range l.Keys() {
			if i >= len(m.es) || d.cmp(k, m.es[i].k) != 0 {
				t.Failf("%s: key %d is %v, unexpected", b.name, i, k)
			}
		}
		for _, e := range m.es {
			if v, err := l.Get(e.k); err != nil || v != e.v {
				t.Failf("%s: Get(%v) = %d, %v, expected %d", b.name, e.k, v, err, e.v)
			}
		}
	}
	insert := func(k Key) {
		n++
		l.Insert(k, n)
		if i := m.lower(k); m.has(k) {
			m.es[i].v = n
		} else {
			m.insert(k, n)
		}
	}
	b.bulk = func(c int) {
		t.Log("%s: %d insertions", b.name, c)
		r := pbt.NewRng(uint64(c))
		for i := 0; i < c; i++ {
			insert(d.at(int(r.N(60))))
		}
	}
	b.change = func() {
		if len(m.es) > 0 && t.Bool(1, 3) {
			i := t.IntN(len(m.es))
			t.Log("%s: remove %v", b.name, m.es[i].k)
			if !l.Remove(m.es[i].k) {
				t.Failf("%s: Remove(%v) does not find the key", b.name, m.es[i].k)
			}
			m.removeAt(i)
			return
		}
		k := d.gen()
		t.Log("%s: insert %v", b.name, k)
		insert(k)
	}
	b.visit = func(f func(k, v any) bool) {
		l.Traversal(func(k Key, v int) bool { k.I = 0; return f(k, v) })
	}
	b.entries = func() (out []kv) {
		for _, e := range m.es {
			e.k.I = 0
			out = append(out, kv{e.k, e.v})
		}
		return
	}
	b.refusals = func() []refusal {
		k := d.gen()
		if m.has(k) {
			k = Key{1 << 40, 0}
		}
		return []refusal{{"Get of an absent key", quiet, func() string { v, err := l.Get(k); return want(err != nil && v == 0, "%d, %v", v, err) }},
			{"Remove of an absent key", quiet, func() string { return want(!l.Remove(k), "true") }}}
	}
	b.reads = []func(){func() { l.Get(d.gen()) }}
	return b
}

func hamtBox(t *T, sh *shared) *box {
	h := hamt.New[int](sh.hm...)
	m := map[string]int{}
	pool := hamtPool(t, 40)
	pool = append(pool, "a", "b", "c")
	b := &box{t: t, name: "hamt", raw: h, unordered: true}
	n := 0
	b.check = func() {
		ks := h.StringKeys()
		if len(ks) != len(m) {
			t.Failf("%s: %d keys, expected %d", b.name, len(ks), len(m))
		}
		for _, k := range ks {
			v, err := h.Get([]byte(k))
			if w, ok := m[k]; !ok || err != nil || v != w {
				t.Failf("%s: key %q has value %d, %v; expected %d, present %v", b.name, k, v, err, w, ok)
			}
		}
	}
	insert := func(k string) {
		n++
		h.Insert([]byte(k), n)
		m[k] = n
	}
	b.bulk = func(c int) {
		t.Log("%s: %d insertions", b.name, c)
		r := pbt.NewRng(uint64(c))
		for i := 0; i < c; i++ {
			insert(pool[r.N(uint64(len(pool)))])
		}
	}
	b.change = func() {
		k := pool[t.IntN(len(pool))]
		if _, has := m[k]; has && t.Bool(1, 2) {
			t.Log("%s: erase %q", b.name, k)
			if !h.Erase([]byte(k)) {
				t.Failf("%s: Erase(%q) does not find the key", b.name, k)
			}
			delete(m, k)
			return
		}
		t.Log("%s: insert %q", b.name, k)
		insert(k)
	}
	b.visit = func(f func(k, v any) bool) { h.Traversal(func(k hamt.Key, v int) bool { return f(string(k), v) }) }
	b.entries = func() (out []kv) {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			out = append(out, kv{k, m[k]})
		}
		return
	}
	b.refusals = func() []refusal {
		k := pool[t.IntN(len(pool))]
		for _, has := m[k]; has; _, has = m[k] {
			k += "?"
		}
		return []refusal{{fmt.Sprintf("Get(%q)", k), quiet, func() string { v, err := h.Get([]byte(k)); return want(err != nil && v == 0, "%d, %v", v, err) }},
			{fmt.Sprintf("Erase(%q)", k), quiet, func() string { return want(!h.Erase([]byte(k)), "true") }}}
	}
	return b
}

func adapterBox(t *T, kind string, sh *shared) *box {
	var m []int
	n := 0
	b := &box{t: t, name: kind}
	var push func(int)
	var pop, front, back func() int
	var clear func()
	var size func() int
	var empty func() bool
	switch kind {
	case "queue":
		q := queue.New(sh.qu...)
		push, pop, front, back, clear, size, empty = q.Push, q.Pop, q.Front, q.Back, q.Clear, q.Size, q.Empty
	case "stack":
		s := stack.New(sh.sa...)
		push, pop, back, clear, size, empty = s.Push, s.Pop, s.Top, s.Clear, s.Size, s.Empty
	default:
		q := priorityqueue.New(func(a, b int) int { t.Tick(); return cmpInt(a, b) }, sh.pq...)
		push, pop, front, clear, size, empty = q.Push, q.Pop, q.Top, q.Clear, q.Size, q.Empty
	}
	b.check = func() {
		if size() != len(m) || empty() != (len(m) == 0) {
			t.Failf("%s: Size() = %d, expected %d", b.name, size(), len(m))
		}
		if len(m) == 0 {
			return
		}
		if front != nil && front() != m[0] || back != nil && back() != m[len(m)-1] {
			t.Failf("%s: shows another element at an end than expected of %s", b.name, str(m))
		}
	}
	b.bulk = func(c int) {
		t.Log("%s: %d pushes", b.name, c)
		for ; c > 0; c-- {
			n++
			v := n
			if kind == "priority queue" {
				v = (n * 37) % 101
			}
			push(v)
			m = append(m, v)
			if kind == "priority queue" {
				sort.Ints(m)
			}
		}
	}
	b.change = func() {
		switch k := t.Pick(5, 4, 1); {
		case k == 0 || len(m) == 0:
			b.bulk(1)
		case k == 1:
			i := 0
			if kind == "stack" {
				i = len(m) - 1
			}
			t.Log("%s: pop", b.name)
			if v := pop(); v != m[i] {
				t.Failf("%s: pop gives %d, expected %d", b.name, v, m[i])
			}
			m = removeSlice(m, i)
		case k == 2:
			t.Log("%s: clear", b.name)
			clear()
			m = nil
		}
	}
	b.refusals = func() (rs []refusal) {
		if len(m) > 0 {
			return nil
		}
		rs = append(rs, refusal{"pop of the empty " + kind, panics, ok(func() { pop() })})
		if front != nil {
			rs = append(rs, refusal{"front of the empty " + kind, panics, ok(func() { front() })})
		}
		if back != nil {
			rs = append(rs, refusal{"back of the empty " + kind, panics, ok(func() { back() })})
		}
		return
	}
	return b
}

func bitmapBox(t *T) *box {
	size := uint64(t.Size(200))
	bm := bitmap.New(size)
	size = (size + 7) / 8 * 8
	m := map[uint64]bool{}
	b := &box{t: t, name: "bitmap", raw: bm}
	b.check = func() {
		if bm.Size() != size {
			t.Failf("%s: Size() = %d, expected %d", b.name, bm.Size(), size)
		}
		for i := uint64(0); i < size; i++ {
			if bm.IsSet(i) != m[i] {
				t.Failf("%s: bit %d is %v", b.name, i, !m[i])
			}
		}
	}
	b.change = func() {
		switch k := t.Pick(5, 3, 1, 1); {
		case k <= 1 && size > 0:
			p := uint64(t.IntN(int(size)))
			t.Log("%s: bit %d becomes %v", b.name, p, k == 0)
			if k == 0 {
				bm.Set(p)
				m[p] = true
			} else {
				bm.Unset(p)
				delete(m, p)
			}
		case k == 2:
			t.Log("%s: clear", b.name)
			bm.Clear()
			m = map[uint64]bool{}
		case k == 3:
			size = uint64(t.Size(200))
			t.Log("%s: resize to %d", b.name, size)
			bm.Resize(size)
			size = (size + 7) / 8 * 8
			for p := range m {
				if p >= size {
					delete(m, p)
				}
			}
		}
	}
	b.refusals = func() []refusal {
		p := []uint64{size, size + 1, size + 7, size + 8, size + 1000, 1<<63 + size, 1<<64 - 1, 1 << 32}[t.IntN(8)]
		return []refusal{{fmt.Sprintf("Set(%d)", p), quiet, func() string { return want(!bm.Set(p), "true") }},
			{fmt.Sprintf("Unset(%d)", p), quiet, func() string { return want(!bm.Unset(p), "true") }},
			{fmt.Sprintf("IsSet(%d)", p), quiet, func() string { return want(!bm.IsSet(p), "true") }}}
	}
	return b
}

func bloomBox(t *T, sh *shared) *box {
	mb, kb := uint64(2000+t.IntN(5000)), uint64(1+t.IntN(9))
	f := bloom.New(mb, kb, sh.bl...)
	var m []string
	b := &box{t: t, name: "bloom filter", raw: f}
	n, data := 0, string(f.Data())
	b.check = func() {
		for _, s := range m {
			if !f.Contains(s) {
				t.Failf("%s: does not contain %q, which was added", b.name, s)
			}
		}
		if g := string(f.Data()); g != data {
			t.Failf("%s: its data changed without an addition", b.name)
		}
	}
	b.change = func() {
		n++
		s := fmt.Sprintf("%d-%d", t.IntN(5), n)
		t.Log("%s: add %q", b.name, s)
		f.Add(s)
		m = append(m, s)
		data = string(f.Data())
	}
	b.refusals = func() []refusal { return nil }
	return b
}

func ketamaBox(t *T, sh *shared) *box {
	r := ketama.New(sh.kt...)
	b := &box{t: t, name: "ketama", raw: r}
	m := map[string]bool{}
	snap := map[string]string{}
	n := 0
	take := func() map[string]string {
		out := map[string]string{}
		for i := 0; i < 20; i++ {
			k := fmt.Sprintf("key%d", i)
			if v, ok := r.Get(k); ok {
				out[k] = v
			}
		}
		return out
	}
	b.check = func() {
		if r.Empty() != (len(m) == 0) {
			t.Failf("%s: Empty() = %v with %d nodes", b.name, r.Empty(), len(m))
		}
		now := take()
		for i := 0; i < 20; i++ {
			k := fmt.Sprintf("key%d", i)
			if now[k] != snap[k] {
				t.Failf("%s: key %q moved from %q to %q without a change of its nodes", b.name, k, snap[k], now[k])
			}
			if len(m) > 0 && !m[now[k]] {
				t.Failf("%s: key %q is on %q, which is not a node", b.name, k, now[k])
			}
		}
	}
	b.change = func() {
		if len(m) > 0 && t.Bool(1, 3) {
			var ks []string
			for k := range m {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			k := ks[t.IntN(len(ks))]
			t.Log("%s: remove %q", b.name, k)
			r.Remove(k)
			delete(m, k)
		} else {
			n++
			k := fmt.Sprintf("node%d", n%7)
			t.Log("%s: add %q", b.name, k)
			r.Add(k)
			m[k] = true
		}
		snap = take()
	}
	b.refusals = func() []refusal {
		rs := []refusal{{"Remove of an unknown node", quiet, ok(func() { r.Remove("unknown") })}, {"Remove of nothing", quiet, ok(func() { r.Remove() })},
			{"Add of nothing", quiet, ok(func() { r.Add() })}}
		if len(m) == 0 {
			rs = append(rs, refusal{"Get on the empty ring", quiet, func() string { s, ok := r.Get("x"); return want(!ok && s == "", "%q, %v", s, ok) }})
		}
		return rs
	}
	return b
}
