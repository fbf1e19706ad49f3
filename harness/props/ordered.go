package props

import (
	"errors"
	"fmt"
	"strings"

	"github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/utils/iterator"
	"verifharness/pbt"
)

// it is an iterator or node handle of an ordered container.
type it[K any] interface {
	Valid() bool
	Next()
	Prev()
	Key() K
	Val() int
	SetVal(int) bool // false if the handle cannot write
	Clone() it[K]
	Equal(it[K]) bool
}

// node handles of the tree
type nodeIt[K any] struct{ n *rbtree.Node[K, int] }

func (x *nodeIt[K]) Valid() bool        { return x.n != nil }
func (x *nodeIt[K]) Next()              { x.n = x.n.Next() }
func (x *nodeIt[K]) Prev()              { x.n = x.n.Prev() }
func (x *nodeIt[K]) Key() K             { return x.n.Key() }
func (x *nodeIt[K]) Val() int           { return x.n.Value() }
func (x *nodeIt[K]) SetVal(v int) bool  { x.n.SetValue(v); return true }
func (x *nodeIt[K]) Clone() it[K]       { return &nodeIt[K]{x.n} }
func (x *nodeIt[K]) Equal(o it[K]) bool { return x.n == o.(*nodeIt[K]).n }

// moved checks that a move returned the iterator itself.
func moved(a, b any) {
	if a != b {
		panic("the iterator's move returned another iterator")
	}
}

type treeIt[K any] struct {
	i *rbtree.RbTreeIterator[K, int]
}

func (x *treeIt[K]) Valid() bool        { return x.i.IsValid() }
func (x *treeIt[K]) Next()              { moved(x.i.Next(), x.i) }
func (x *treeIt[K]) Prev()              { moved(x.i.Prev(), x.i) }
func (x *treeIt[K]) Key() K             { return x.i.Key() }
func (x *treeIt[K]) Val() int           { return x.i.Value() }
func (x *treeIt[K]) SetVal(v int) bool  { x.i.SetValue(v); return true }
func (x *treeIt[K]) Clone() it[K]       { return &treeIt[K]{x.i.Clone().(*rbtree.RbTreeIterator[K, int])} }
func (x *treeIt[K]) Equal(o it[K]) bool { return x.i.Equal(o.(*treeIt[K]).i) }

type mapIt[K any] struct{ i *treemap.MapIterator[K, int] }

func (x *mapIt[K]) Valid() bool        { return x.i.IsValid() }
func (x *mapIt[K]) Next()              { moved(x.i.Next(), x.i) }
func (x *mapIt[K]) Prev()              { moved(x.i.Prev(), x.i) }
func (x *mapIt[K]) Key() K             { return x.i.Key() }
func (x *mapIt[K]) Val() int           { return x.i.Value() }
func (x *mapIt[K]) SetVal(v int) bool  { x.i.SetValue(v); return true }
func (x *mapIt[K]) Clone() it[K]       { return &mapIt[K]{x.i.Clone().(*treemap.MapIterator[K, int])} }
func (x *mapIt[K]) Equal(o it[K]) bool { return x.i.Equal(o.(*mapIt[K]).i) }

type setIt[K any] struct{ i *set.SetIterator[K] }

func (x *setIt[K]) Valid() bool       { return x.i.IsValid() }
func (x *setIt[K]) Next()             { moved(x.i.Next(), x.i) }
func (x *setIt[K]) Prev()             { moved(x.i.Prev(), x.i) }
func (x *setIt[K]) Key() K            { return x.i.Value() }
func (x *setIt[K]) Val() int          { return 0 }
func (x *setIt[K]) SetVal(v int) bool { return false }
func (x *setIt[K]) Clone() it[K] {
	var c iterator.ConstIterator[K] = x.i.Clone()
	return &setIt[K]{c.(*set.SetIterator[K])}
}
func (x *setIt[K]) Equal(o it[K]) bool { return x.i.Equal(o.(*setIt[K]).i) }

// ocont is any of the ordered containers behind one set of functions.
type ocont[K any] struct {
	kind     string
	multi    bool // keeps duplicates
	hasVal   bool
	safe     bool
	insert   func(k K, v int)
	size     func() int
	empty    func() bool
	contains func(K) bool
	get      func(K) (int, bool)
	erase    func(K)          // by key: removes the key, all its pairs (multimap) or its first occurrence (multiset)
	eraseAll func(K)          // multiset
	eraseIt  func(it[K]) bool // by handle; false: not offered for this handle
	find     func(K) it[K]
	lower    func(K) it[K]
	upper    func(K) it[K]
	first    []func() it[K]
	last     []func() it[K]
	traverse func(func(K, int) bool)
	clear    func()
	str      func() string
	count    func(K) int
	union    func(o *ocont[K]) *ocont[K]
	inter    func(o *ocont[K]) *ocont[K]
	diff     func(o *ocont[K]) *ocont[K]
	raw      any
}

// found reads the verdict of a lookup: the package's own ErrorNotFound is how
// callers recognise a missing key; any other error would be a panic to them.
func found(err, notFound error) bool {
	if err != nil && !errors.Is(err, notFound) {
		panic(fmt.Sprintf("a lookup answered with the error %q, which is not the package's ErrorNotFound", err))
	}
	return err == nil
}

func newTree[K any](d *dom[K]) *ocont[K] {
	tr := rbtree.New[K, int](d.cmpFn())
	return &ocont[K]{kind: "rbtree", multi: true, hasVal: true, raw: tr,
		insert: tr.Insert, size: tr.Size, empty: tr.Empty,
		contains: func(k K) bool { return tr.FindNode(k) != nil },
		get:      func(k K) (int, bool) { v, err := tr.Find(k); return v, found(err, rbtree.ErrorNotFound) },
		erase:    func(k K) { tr.Delete(tr.FindNode(k)) },
		eraseIt: func(x it[K]) bool {
			switch y := x.(type) {
			case *nodeIt[K]:
				tr.Delete(y.n)
			default:
				return false
			}
			return true
		},
		find:  func(k K) it[K] { return &nodeIt[K]{tr.FindNode(k)} },
		lower: func(k K) it[K] { return &nodeIt[K]{tr.FindLowerBoundNode(k)} },
		upper: func(k K) it[K] { return &nodeIt[K]{tr.FindUpperBoundNode(k)} },
		first: []func() it[K]{func() it[K] { return &nodeIt[K]{tr.First()} }, func() it[K] { return &nodeIt[K]{tr.Begin()} },
			func() it[K] { return &treeIt[K]{tr.IterFirst()} }},
		last: []func() it[K]{func() it[K] { return &nodeIt[K]{tr.Last()} }, func() it[K] { return &nodeIt[K]{tr.RBegin()} },
			func() it[K] { return &treeIt[K]{tr.IterLast()} }},
		traverse: func(f func(K, int) bool) { tr.Traversal(f) },
		clear:    tr.Clear,
	}
}

func treemapOptions[K any](d *dom[K], safe bool) []treemap.Option {
	if !safe {
		return nil
	}
	if d.shared != nil {
		return d.shared.tm
	}
	return []treemap.Option{treemap.WithGoroutineSafe()}
}

func setOptions[K any](d *dom[K], safe bool) []set.Option {
	if !safe {
		return nil
	}
	if d.shared != nil {
		return d.shared.st
	}
	return []set.Option{set.WithGoroutineSafe()}
}

func newMap[K any](d *dom[K], safe bool) *ocont[K] {
	o := treemapOptions(d, safe)
	m := treemap.New[K, int](d.cmpFn(), o...)
	return &ocont[K]{kind: "map", hasVal: true, safe: safe, raw: m,
		insert: m.Insert, size: m.Size, contains: m.Contains,
		get:   func(k K) (int, bool) { v, err := m.Get(k); return v, found(err, treemap.ErrorNotFound) },
		erase: m.Erase,
		eraseIt: func(x it[K]) bool {
			y, ok := x.(*mapIt[K])
			if ok {
				m.EraseIter(y.i)
			}
			return ok
		},
		find:     func(k K) it[K] { return &mapIt[K]{m.Find(k)} },
		lower:    func(k K) it[K] { return &mapIt[K]{m.LowerBound(k)} },
		upper:    func(k K) it[K] { return &mapIt[K]{m.UpperBound(k)} },
		first:    []func() it[K]{func() it[K] { return &mapIt[K]{m.First()} }, func() it[K] { return &mapIt[K]{m.Begin()} }},
		last:     []func() it[K]{func() it[K] { return &mapIt[K]{m.Last()} }},
		traverse: func(f func(K, int) bool) { m.Traversal(f) },
		clear:    m.Clear,
	}
}

func newMultiMap[K any](d *dom[K], safe bool) *ocont[K] {
	o := treemapOptions(d, safe)
	m := treemap.NewMultiMap[K, int](d.cmpFn(), o...)
	return &ocont[K]{kind: "multimap", multi: true, hasVal: true, safe: safe, raw: m,
		insert: m.Insert, size: m.Size, contains: m.Contains,
		get:      func(k K) (int, bool) { v, err := m.Get(k); return v, found(err, treemap.ErrorNotFound) },
		erase:    m.Erase,
		eraseIt:  func(x it[K]) bool { return false },
		find:     func(k K) it[K] { return &mapIt[K]{m.Find(k)} },
		lower:    func(k K) it[K] { return &mapIt[K]{m.LowerBound(k)} },
		upper:    func(k K) it[K] { return &mapIt[K]{m.UpperBound(k)} },
		first:    []func() it[K]{func() it[K] { return &mapIt[K]{m.First()} }, func() it[K] { return &mapIt[K]{m.Begin()} }},
		last:     []func() it[K]{func() it[K] { return &mapIt[K]{m.Last()} }},
		traverse: func(f func(K, int) bool) { m.Traversal(f) },
		clear:    m.Clear,
	}
}

func wrapSet[K any](s *set.Set[K], safe bool) *ocont[K] {
	c := &ocont[K]{kind: "set", safe: safe, raw: s,
		insert: func(k K, _ int) { s.Insert(k) }, size: s.Size, contains: s.Contains,
		erase:    s.Erase,
		eraseIt:  func(x it[K]) bool { return false },
		find:     func(k K) it[K] { return &setIt[K]{s.Find(k)} },
		lower:    func(k K) it[K] { return &setIt[K]{s.LowerBound(k)} },
		upper:    func(k K) it[K] { return &setIt[K]{s.UpperBound(k)} },
		first:    []func() it[K]{func() it[K] { return &setIt[K]{s.First()} }, func() it[K] { return &setIt[K]{s.Begin()} }},
		last:     []func() it[K]{func() it[K] { return &setIt[K]{s.Last()} }},
		traverse: func(f func(K, int) bool) { s.Traversal(func(k K) bool { return f(k, 0) }) },
		clear:    s.Clear, str: s.String,
	}
	c.union = func(o *ocont[K]) *ocont[K] { return wrapSet(s.Union(o.raw.(*set.Set[K])), false) }
	c.inter = func(o *ocont[K]) *ocont[K] { return wrapSet(s.Intersect(o.raw.(*set.Set[K])), false) }
	c.diff = func(o *ocont[K]) *ocont[K] { return wrapSet(s.Diff(o.raw.(*set.Set[K])), false) }
	return c
}

func newSet[K any](d *dom[K], safe bool) *ocont[K] {
	o := setOptions(d, safe)
	return wrapSet(set.New[K](d.cmpFn(), o...), safe)
}

func newMultiSet[K any](d *dom[K], safe bool) *ocont[K] {
	o := setOptions(d, safe)
	s := set.NewMultiSet[K](d.cmpFn(), o...)
	return &ocont[K]{kind: "multiset", multi: true, safe: safe, raw: s,
		insert: func(k K, _ int) { s.Insert(k) }, size: s.Size, contains: s.Contains,
		erase: s.Erase, eraseAll: s.EraseAll,
		eraseIt:  func(x it[K]) bool { return false },
		find:     func(k K) it[K] { return &setIt[K]{s.Find(k)} },
		lower:    func(k K) it[K] { return &setIt[K]{s.LowerBound(k)} },
		upper:    func(k K) it[K] { return &setIt[K]{s.UpperBound(k)} },
		first:    []func() it[K]{func() it[K] { return &setIt[K]{s.First()} }, func() it[K] { return &setIt[K]{s.Begin()} }},
		last:     []func() it[K]{func() it[K] { return &setIt[K]{s.Last()} }},
		traverse: func(f func(K, int) bool) { s.Traversal(func(k K) bool { return f(k, 0) }) },
		clear:    s.Clear, str: s.String, count: s.Count,
	}
}

var orderedKinds = []string{"rbtree", "map", "multimap", "set", "multiset"}

func newOrdered[K any](kind string, d *dom[K], safe bool) *ocont[K] {
	switch kind {
	case "rbtree":
		return newTree(d)
	case "map":
		return newMap(d, safe)
	case "multimap":
		return newMultiMap(d, safe)
	case "set":
		return newSet(d, safe)
	default:
		return newMultiSet(d, safe)
	}
}

// ostate is a container with its model.
type ostate[K any] struct {
	t    *T
	d    *dom[K]
	c    *ocont[K]
	m    omodel[K]
	next int // next value to insert
	name string
}

func newState[K any](t *T, d *dom[K], c *ocont[K]) *ostate[K] {
	return &ostate[K]{t: t, d: d, c: c, m: omodel[K]{cmp: d.cmp}, next: 100, name: c.kind}
}

// same tells whether an observed key is the model's. Where the container keeps
// one key per class only the class counts, elsewhere the very key.
func (s *ostate[K]) sameKey(a, b K) bool {
	if !s.c.multi {
		return s.m.cmp(a, b) == 0
	}
	return any(a) == any(b)
}

func (s *ostate[K]) sameEntry(k K, v int, e entry[K]) bool {
	return s.sameKey(k, e.k) && (!s.c.hasVal || v == e.v)
}

func (s *ostate[K]) show() string {
	var b strings.Builder
	b.WriteString("[")
	for i, e := range s.m.es {
		if i > 0 {
			b.WriteString(" ")
		}
		if i >= 40 {
			fmt.Fprintf(&b, "... %d entries", len(s.m.es))
			break
		}
		if s.c.hasVal {
			fmt.Fprintf(&b, "%v:%d", any(e.k), e.v)
		} else {
			fmt.Fprintf(&b, "%v", any(e.k))
		}
	}
	b.WriteString("]")
	return b.String()
}

// insert puts a key into container and model.
func (s *ostate[K]) insert(k K) {
	s.next++
	v := s.next
	s.c.insert(k, v)
	s.modelInsert(k, v)
}

func (s *ostate[K]) modelInsert(k K, v int) {
	if !s.c.multi {
		if i := s.m.lower(k); i < len(s.m.es) && s.m.cmp(s.m.es[i].k, k) == 0 {
			if s.c.hasVal {
				s.m.es[i].v = v
			}
			return
		}
	}
	s.m.insert(k, v)
}

func (s *ostate[K]) erase(k K) {
	s.c.erase(k)
	lo, hi := s.m.lower(k), s.m.upper(k)
	if lo == hi {
		return
	}
	if s.c.kind == "rbtree" || s.c.kind == "multiset" {
		hi = lo + 1
	}
	s.m.es = append(s.m.es[:lo], s.m.es[hi:]...)
}

func (s *ostate[K]) eraseAll(k K) {
	s.c.eraseAll(k)
	lo, hi := s.m.lower(k), s.m.upper(k)
	s.m.es = append(s.m.es[:lo], s.m.es[hi:]...)
}

// standsOn tells what is wrong if x does not stand on model position i (outside: past the end).
func (s *ostate[K]) standsOn(x it[K], i int) string {
	if i < 0 || i >= len(s.m.es) {
		if x.Valid() {
			return fmt.Sprintf("is on %v:%d, expected to be past the end", any(x.Key()), x.Val())
		}
		return ""
	}
	if !x.Valid() {
		return fmt.Sprintf("is not valid, expected entry %d (%v:%d)", i, any(s.m.es[i].k), s.m.es[i].v)
	}
	if k, v := x.Key(), x.Val(); !s.sameEntry(k, v, s.m.es[i]) {
		return fmt.Sprintf("is on %v:%d, expected entry %d (%v:%d)", any(k), v, i, any(s.m.es[i].k), s.m.es[i].v)
	}
	return ""
}

func (s *ostate[K]) checkAt(x it[K], i int, what string, args ...int) {
	if p := s.standsOn(x, i); p != "" {
		s.t.Failf("%s: %s %v %s; model %s", s.name, what, args, p, s.show())
	}
}

// walk checks a forward and a reverse walk from given ends.
func (s *ostate[K]) walk(fi, li int) {
	x := s.c.first[fi%len(s.c.first)]()
	for i := range s.m.es {
		s.checkAt(x, i, "a forward walk, step", i)
		x.Next()
	}
	s.checkAt(x, -1, "the end of a forward walk")
	x = s.c.last[li%len(s.c.last)]()
	for i := len(s.m.es) - 1; i >= 0; i-- {
		s.checkAt(x, i, "a reverse walk, step", len(s.m.es)-1-i)
		x.Prev()
	}
	s.checkAt(x, -1, "the end of a reverse walk")
}

func (s *ostate[K]) checkTraversal() {
	t := s.t
	i := 0
	s.c.traverse(func(k K, v int) bool {
		if i >= len(s.m.es) {
			t.Failf("%s: the traversal visits more than the %d entries", s.name, len(s.m.es))
		}
		if !s.sameEntry(k, v, s.m.es[i]) {
			t.Failf("%s: visit %d of the traversal gives %v:%d, expected %v:%d", s.name, i, any(k), v, any(s.m.es[i].k), s.m.es[i].v)
		}
		i++
		return true
	})
	t.Check(i == len(s.m.es), "%s: the traversal visits %d of %d entries", s.name, i, len(s.m.es))
}

// query checks every reader for key k.
func (s *ostate[K]) query(k K) {
	t := s.t
	lo, hi := s.m.lower(k), s.m.upper(k)
	has := lo < hi
	f := -1
	if has {
		f = lo
	}
	bad := func(what string, got, want any) {
		t.Failf("%s: %s(%v) = %v, expected %v; model %s", s.name, what, any(k), got, want, s.show())
	}
	at := func(what string, x it[K], i int) {
		if p := s.standsOn(x, i); p != "" {
			t.Failf("%s: %s(%v) %s; model %s", s.name, what, any(k), p, s.show())
		}
	}
	at("Find", s.c.find(k), f)
	at("LowerBound", s.c.lower(k), lo)
	at("UpperBound", s.c.upper(k), hi)
	if c := s.c.contains(k); c != has {
		bad("Contains", c, has)
	}
	if s.c.get != nil {
		v, ok := s.c.get(k)
		if ok != has {
			bad("Get: found", ok, has)
		}
		if has && v != s.m.es[lo].v {
			bad("Get", v, s.m.es[lo].v)
		}
	}
	if s.c.count != nil {
		if n := s.c.count(k); n != hi-lo {
			bad("Count", n, hi-lo)
		}
	}
}

// checkSmall checks sizes and ends.
func (s *ostate[K]) checkSmall() {
	t := s.t
	n := s.c.size()
	if n != len(s.m.es) {
		t.Failf("%s: Size() = %d, expected %d", s.name, n, len(s.m.es))
	}
	if s.c.empty != nil {
		t.Check(s.c.empty() == (len(s.m.es) == 0), "%s: Empty() is %v with %d entries", s.name, s.c.empty(), len(s.m.es))
	}
	for i, f := range s.c.first {
		s.checkAt(f(), min(0, len(s.m.es)-1), "first", i)
	}
	for i, f := range s.c.last {
		s.checkAt(f(), len(s.m.es)-1, "last", i)
	}
}

func (s *ostate[K]) checkString() {
	if s.c.str == nil {
		return
	}
	ks := make([]K, len(s.m.es))
	for i, e := range s.m.es {
		ks[i] = e.k
	}
	got, want := s.c.str(), listString(ks)
	if !s.c.multi {
		if _, ok := any(s.m.cmp).(func(a, b Key) int); ok {
			return // which member of a class is kept is not claimed
		}
	}
	s.t.Check(got == want, "%s: String() = %q, expected %q", s.name, got, want)
}

// checkAll compares everything observable.
func (s *ostate[K]) checkAll() {
	s.checkSmall()
	for i := 0; i < max(len(s.c.first), len(s.c.last)); i++ {
		s.walk(i, i)
	}
	s.checkTraversal()
	if len(s.m.es) < 200 {
		s.checkString()
	}
}

// queries checks the readers on stored keys, keys next to them and generated ones.
func (s *ostate[K]) queries(n int) {
	for i := 0; i < n; i++ {
		k := s.d.gen()
		if len(s.m.es) > 0 && s.t.Bool(2, 3) {
			k = s.m.es[s.t.IntN(len(s.m.es))].k
			if s.t.Bool(1, 3) {
				k = s.d.near(k)
			}
		}
		s.query(k)
	}
}

// allQueries checks the readers on every stored key.
func (s *ostate[K]) allQueries() {
	for i := range s.m.es {
		if i == 0 || s.m.cmp(s.m.es[i-1].k, s.m.es[i].k) != 0 {
			s.query(s.m.es[i].k)
		}
	}
}

// pickKey draws a stored key (mostly) or any key.
func (s *ostate[K]) pickKey() K {
	if len(s.m.es) > 0 && s.t.Bool(4, 5) {
		return s.m.es[s.t.IntN(len(s.m.es))].k
	}
	return s.d.gen()
}

// bulk inserts a run of keys in one of several orders.
func (s *ostate[K]) bulk(n int) {
	t := s.t
	pat := t.IntN(5)
	start := t.IntN(50)
	stride := 1 + t.IntN(3)
	seed := t.IntN(1000)
	r := pbt.NewRng(uint64(seed))
	t.Log("insert %d keys, pattern %d from %d stride %d seed %d", n, pat, start, stride, seed)
	for i := 0; i < n; i++ {
		j := i
		switch pat {
		case 1:
			j = n - 1 - i
		case 2: // zig-zag from both ends
			j = i / 2
			if i%2 == 1 {
				j = n - 1 - i/2
			}
		case 3: // random
			j = int(r.N(uint64(n)))
		case 4: // from the middle outwards
			j = n/2 + (i+1)/2*(1-2*(i%2))
		}
		s.insert(s.d.at(start + j*stride))
	}
}

// thin erases many entries by key.
func (s *ostate[K]) thin() {
	t := s.t
	n := len(s.m.es)
	if n == 0 {
		return
	}
	pat := t.IntN(4)
	seed := t.IntN(1000)
	k := t.IntN(n + 1)
	r := pbt.NewRng(uint64(seed))
	t.Log("erase %d entries, pattern %d seed %d", k, pat, seed)
	for i := 0; i < k && len(s.m.es) > 0; i++ {
		j := 0
		switch pat {
		case 1:
			j = len(s.m.es) - 1
		case 2:
			j = int(r.N(uint64(len(s.m.es))))
		case 3:
			j = len(s.m.es) / 2
		}
		s.erase(s.m.es[j].k)
	}
}

// handleAt returns a handle on model position i, reached in a generated way.
func (s *ostate[K]) handleAt(i int) it[K] {
	k := s.m.es[i].k
	lo, hi := s.m.lower(k), s.m.upper(k)
	switch w := s.t.IntN(5); {
	case w == 0:
		x := s.c.find(k)
		for j := lo; j < i; j++ {
			x.Next()
		}
		return x
	case w == 1 && hi < len(s.m.es):
		x := s.c.upper(k)
		for j := hi; j > i; j-- {
			x.Prev()
		}
		return x
	case w == 2 && i < 200:
		x := s.c.first[s.t.IntN(len(s.c.first))]()
		for j := 0; j < i; j++ {
			x.Next()
		}
		return x
	case w == 3 && len(s.m.es)-i < 200:
		x := s.c.last[s.t.IntN(len(s.c.last))]()
		for j := len(s.m.es) - 1; j > i; j-- {
			x.Prev()
		}
		return x
	}
	x := s.c.lower(k)
	for j := lo; j < i; j++ {
		x.Next()
	}
	return x
}

// step performs one generated operation.
func (s *ostate[K]) step() {
	t := s.t
	switch t.Pick(10, 6, 3, 3, 1, 2) {
	case 0:
		k := s.d.gen()
		t.Log("insert %v", any(k))
		s.insert(k)
	case 1:
		k := s.pickKey()
		t.Log("erase %v", any(k))
		s.erase(k)
	case 2: // erase through a handle
		if len(s.m.es) == 0 {
			return
		}
		i := t.IntN(len(s.m.es))
		x := s.handleAt(i)
		s.checkAt(x, i, "a handle")
		if s.c.eraseIt(x) {
			t.Log("erase entry %d by handle", i)
			s.m.removeAt(i)
		}
	case 3: // write through a handle
		if len(s.m.es) == 0 {
			return
		}
		i := t.IntN(len(s.m.es))
		x := s.handleAt(i)
		s.next++
		if x.SetVal(s.next) {
			t.Log("set value %d of entry %d", s.next, i)
			s.m.es[i].v = s.next
		}
	case 4:
		t.Log("clear")
		s.c.clear()
		s.m.es = nil
	case 5:
		if s.c.eraseAll != nil {
			k := s.pickKey()
			t.Log("erase all %v", any(k))
			s.eraseAll(k)
		}
	}
}

// runOrdered is the history check of one kind.
func runOrdered[K any](t *T, d *dom[K], kind string, big bool) {
	safe := t.Bool(1, 3)
	s := newState(t, d, newOrdered(kind, d, safe))
	t.Log("%s over %s, goroutine safe %v", kind, d.name, safe)
	erased, maxN, dup := 0, 0, false
	if big {
		t.Repeat(1, 6, func(int) {
			s.bulk(1 + t.Size(1200))
			maxN = max(maxN, len(s.m.es))
			n := len(s.m.es)
			s.thin()
			if len(s.m.es) < n {
				erased++
			}
			t.Repeat(0, 12, func(int) { s.step() })
			s.checkAll()
			s.queries(20)
		})
	} else {
		t.Repeat(1, 60, func(int) {
			n := len(s.m.es)
			s.step()
			if len(s.m.es) < n {
				erased++
			}
			maxN = max(maxN, len(s.m.es))
			s.checkSmall()
			s.queries(2)
			if len(s.m.es) <= 12 || t.Bool(1, 4) {
				s.checkAll()
			}
		})
	}
	s.checkAll()
	if len(s.m.es) < 300 {
		s.allQueries()
	}
	for i := 1; i < len(s.m.es); i++ {
		dup = dup || s.m.cmp(s.m.es[i-1].k, s.m.es[i].k) == 0
	}
	t.ClassIf(dup, "equal keys left")
	t.ClassIf(erased > 0, "something erased")
	t.ClassIf(safe, "goroutine safe")
	t.ClassIf(maxN >= 100, "100 or more entries")
	if erased > 0 && maxN >= 3 {
		t.NonTrivial()
	}
}

func orderedPhases(kind string, quick, quickBig, thorough, thoroughBig int) []pbt.Phase {
	run := func(big bool) func(t *T) {
		return func(t *T) {
			withDom(t, func(d *dom[int]) { runOrdered(t, d, kind, big) }, func(d *dom[string]) { runOrdered(t, d, kind, big) },
				func(d *dom[Key]) { runOrdered(t, d, kind, big) })
		}
	}
	return []pbt.Phase{{Name: "history", Quick: quick, Thorough: thorough, Run: run(false)},
		{Name: "large", Quick: quickBig, Thorough: thoroughBig, Run: run(true)}}
}

const orderedRule = "cases are histories of generated inserts, erases (by key, by handle), value updates and clears over generated key domains (one to thousands of different keys, keys equal under the comparator but distinguishable); every reader is compared with a sorted-list model after each step. Non-trivial: something was erased and the container once held three or more entries."

func init() {
	for id, kind := range map[string]string{"C02": "rbtree", "C04": "map", "C05": "multimap", "C06": "set", "C08": "multiset"} {
		pbt.Register(pbt.Prop{ID: id, Rule: orderedRule,
			Assumptions: []string{"handles given to Delete and EraseIter belong to the container and are live", "one goroutine"},
			Phases:      orderedPhases(kind, 450000, 3000, 6000000, 120000)})
	}
}
