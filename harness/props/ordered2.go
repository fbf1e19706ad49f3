package props

import (
	"fmt"
	"math"

	"github.com/liyue201/gostl/ds/rbtree"
	"verifharness/pbt"
)

// ---- C03: balance

func runBalance(t *T, level int) {
	big := level > 0
	seen := map[int]struct{}{}
	counting := false
	cmp := func(a, b Key) int {
		t.Tick()
		if counting {
			seen[a.I] = struct{}{}
			seen[b.I] = struct{}{}
		}
		return cmpInt(a.O, b.O)
	}
	tr := rbtree.New[Key, int](cmp)
	id, n, maxN := 0, 0, 0
	ins := func(o int) { id++; tr.Insert(Key{o, id}, id); n++; maxN = max(maxN, n) }
	valid := func() {
		ok, err := tr.IsRbTree()
		if !ok || err != nil {
			t.Failf("IsRbTree() = %v, %v with %d pairs", ok, err, n)
		}
	}
	width := 1
	lookups := func(k int) {
		limit := int(2*math.Log2(float64(n+1))) + 2
		for i := 0; i < k; i++ {
			q := Key{t.IntN(width+2) - 1, 0}
			for w, f := range []func(){
				func() { tr.Find(q) }, func() { tr.FindNode(q) }, func() { tr.FindLowerBoundNode(q) }, func() { tr.FindUpperBoundNode(q) }} {
				clear(seen)
				counting = true
				f()
				counting = false
				delete(seen, 0)
				if len(seen) > limit {
					t.Failf("lookup %d of %d examined %d of %d keys, limit %d", w, q.O, len(seen), n, limit)
				}
			}
		}
	}
	del := func(nd *rbtree.Node[Key, int]) {
		if nd != nil {
			tr.Delete(nd)
			n--
		}
	}
	erased := false
	maxBulk, rounds, every := 40, 12, 1
	if big {
		maxBulk, rounds, every = 1500, 6, 97
	}
	if t.Thorough() && big {
		maxBulk = 20000
		every = 1511
	}
	if level > 1 {
		maxBulk, rounds, every = 100000, 4, 5003
	}
	t.Repeat(1, rounds, func(int) {
		pat := t.IntN(7)
		k := 1 + t.Size(maxBulk)
		if level > 1 && n < 2000 {
			k = 1000 + t.IntN(maxBulk)
		}
		if !big && t.Bool(1, 2) {
			k = 1 + t.IntN(3)
		}
		seed := t.IntN(1 << 16)
		r := pbt.NewRng(uint64(seed))
		w := 1 + t.Size(2*maxBulk)
		base := t.IntN(w)
		width = max(width, base+w+k)
		grow := t.Bool(3, 5)
		t.Log("%v %d, pattern %d width %d base %d seed %d", map[bool]string{true: "insert", false: "erase"}[grow], k, pat, w, base, seed)
		for i := 0; i < k; i++ {
			if grow {
				switch pat {
				case 0:
					ins(base + i)
				case 1:
					ins(base + k - i)
				case 2: // zig-zag
					if i%2 == 0 {
						ins(base + i/2)
					} else {
						ins(base + k - i/2)
					}
				case 3: // many equal
					ins(base + int(r.N(3)))
				case 4: // from the middle outwards
					ins(base + k/2 + (i+1)/2*(1-2*(i%2)))
				default:
					ins(int(r.N(uint64(width))))
				}
			} else {
				if n == 0 {
					break
				}
				erased = true
				switch pat {
				case 0, 1:
					del(tr.First())
				case 2:
					del(tr.Last())
				case 3: // a node with neighbours in the middle
					nd := tr.FindLowerBoundNode(Key{width / 2, 0})
					if nd == nil {
						nd = tr.Last()
					}
					del(nd)
				default:
					nd := tr.FindLowerBoundNode(Key{int(r.N(uint64(width))), 0})
					if nd == nil {
						nd = tr.First()
					}
					del(nd)
				}
			}
			if i%every == 0 {
				valid()
				if big {
					lookups(1)
				}
			}
		}
		valid()
		lookups(4)
		if t.Bool(1, 25) {
			t.Log("clear")
			tr.Clear()
			n = 0
			valid()
		}
		if n != tr.Size() {
			t.Failf("Size() = %d after operations that leave %d pairs", tr.Size(), n)
		}
	})
	t.ClassIf(erased, "something erased")
	t.ClassIf(maxN >= 100, "100 or more pairs")
	t.ClassIf(maxN >= 1000, "1000 or more pairs")
	if maxN >= 8 {
		t.NonTrivial()
	}
}

// ---- C07: set algebra

func runAlgebra[K any](t *T, d *dom[K]) {
	mk := func(safe bool, name string) *ostate[K] {
		s := newState(t, d, newSet(d, safe))
		s.name = name
		return s
	}
	a := mk(t.Bool(1, 2), "a")
	b := mk(t.Bool(1, 2), "b")
	rel := t.Pick(2, 2, 2, 2, 2, 2, 3)
	fill := func(s *ostate[K], max int) {
		t.Repeat(0, max, func(int) {
			k := s.d.gen()
			s.insert(k)
		})
		if t.Bool(1, 12) {
			s.bulk(t.Size(300))
		}
		if t.Bool(1, 4) {
			s.thin()
		}
	}
	if rel != 6 {
		fill(a, 25)
	}
	switch rel {
	case 0: // b independent
		fill(b, 25)
	case 1: // b part of a
		for _, e := range a.m.es {
			if t.Bool(1, 2) {
				b.insert(e.k)
			}
		}
	case 2: // a part of b
		for _, e := range a.m.es {
			b.insert(e.k)
		}
		fill(b, 8)
	case 3: // disjoint
		t.Repeat(0, 25, func(int) {
			if k := d.gen(); !a.m.has(k) {
				b.insert(k)
			}
		})
	case 4: // the same set
		b = a
	case 5: // equal contents
		for _, e := range a.m.es {
			b.insert(e.k)
		}
	case 6: // runs of neighbours, each in one of the sets or in both
		c := omodel[K]{cmp: d.cmp}
		for i, n := 0, t.Size(25)+t.Size(t.Variant(2)*200); i < n; i++ {
			k := d.at(i)
			if t.Bool(1, 3) {
				k = d.gen()
			}
			if !c.has(k) {
				c.insert(k, 0)
			}
		}
		left, where := 0, 0
		max := []int{3, 30, 300}[t.IntN(3)]
		for _, e := range c.es {
			if left == 0 {
				left, where = 1+t.IntN(max), t.IntN(3)
				if t.Bool(1, 3) { // touching
					left, where = 1, 2
				}
			}
			left--
			if where != 1 {
				a.insert(e.k)
			}
			if where != 0 {
				b.insert(e.k)
			}
		}
	}
	t.Log("a = %s", a.show())
	t.Log("b = %s (same set: %v)", b.show(), a == b)
	t.ClassIf(a == b, "same set")
	t.ClassIf(len(a.m.es) == 0 || len(b.m.es) == 0, "an empty operand")
	results := []*ostate[K]{}
	combine := func(op int, x, y *ostate[K]) *ostate[K] {
		r := &ostate[K]{t: t, d: d, m: omodel[K]{cmp: d.cmp}, next: 100}
		switch op {
		case 0:
			r.c, r.name = x.c.union(y.c), "union of "+x.name+" and "+y.name
			for _, e := range x.m.es {
				r.modelInsert(e.k, 0)
			}
			for _, e := range y.m.es {
				r.modelInsert(e.k, 0)
			}
		case 1:
			r.c, r.name = x.c.inter(y.c), "intersection of "+x.name+" and "+y.name
			for _, e := range x.m.es {
				if y.m.has(e.k) {
					r.modelInsert(e.k, 0)
				}
			}
		default:
			r.c, r.name = x.c.diff(y.c), "difference of "+x.name+" and "+y.name
			for _, e := range x.m.es {
				if !y.m.has(e.k) {
					r.modelInsert(e.k, 0)
				}
			}
		}
		t.Log("%s", r.name)
		r.checkAll()
		x.checkAll()
		y.checkAll()
		return r
	}
	for op := 0; op < 3; op++ {
		results = append(results, combine(op, a, b))
	}
	pool := append([]*ostate[K]{a, b}, results...)
	// later changes stay with the set they are made to
	t.Repeat(0, 15, func(int) {
		s := pool[t.IntN(len(pool))]
		t.Log("on %s:", s.name)
		s.step()
		for _, o := range pool {
			o.checkSmall()
			if len(o.m.es) < 60 {
				o.walk(0, 0)
			}
		}
		if t.Bool(1, 5) && len(pool) < 12 {
			x, y := pool[t.IntN(len(pool))], pool[t.IntN(len(pool))]
			pool = append(pool, combine(t.IntN(3), x, y))
		}
	})
	for _, o := range pool {
		o.checkAll()
		o.queries(3)
	}
	common := 0
	for _, e := range a.m.es {
		if b.m.has(e.k) {
			common++
		}
	}
	t.ClassIf(common > 0 && common < len(a.m.es) && common < len(b.m.es), "overlapping")
	if len(a.m.es) > 0 && len(b.m.es) > 0 && a != b {
		t.NonTrivial()
	}
}

// ---- C09: handle stability

type handle[K any] struct {
	x  it[K]
	id int // entry it stands on
}

type stab[K any] struct {
	*ostate[K]
	hs   []*handle[K]
	kill int // handles dropped because their element was erased
}

func (s *stab[K]) index(id int) int {
	for i, e := range s.m.es {
		if e.id == id {
			return i
		}
	}
	return -1
}

// sweep drops the handles on erased elements and checks the others.
func (s *stab[K]) sweep() {
	var live []*handle[K]
	for _, h := range s.hs {
		i := s.index(h.id)
		if i < 0 {
			s.kill++
			continue
		}
		live = append(live, h)
		s.checkAt(h.x, i, "a handle kept on entry", i)
		y := h.x.Clone()
		y.Next()
		s.checkAt(y, i+1, "the successor of a handle kept on entry", i)
		y = h.x.Clone()
		y.Prev()
		s.checkAt(y, i-1, "the predecessor of a handle kept on entry", i)
	}
	s.hs = live
}

func runStability[K any](t *T, d *dom[K], kind string) {
	s := &stab[K]{ostate: newState(t, d, newOrdered(kind, d, t.Bool(1, 3)))}
	t.Log("%s over %s", kind, d.name)
	changed, loops := 0, 0
	if t.Bool(1, 3) {
		s.bulk(t.Size(60))
	}
	t.Repeat(1, 50, func(int) {
		switch t.Pick(5, 3, 8, 2, 2, 2) {
		case 0, 1:
			s.step()
			changed++
		case 2: // take a handle
			if len(s.m.es) > 0 && len(s.hs) < 14 {
				i := t.IntN(len(s.m.es))
				t.Log("take a handle on entry %d", i)
				s.hs = append(s.hs, &handle[K]{s.handleAt(i), s.m.es[i].id})
			}
		case 3: // erase through a kept handle
			if len(s.hs) > 0 {
				h := s.hs[t.IntN(len(s.hs))]
				if i := s.index(h.id); i >= 0 {
					if s.c.eraseIt(h.x) {
						t.Log("erase entry %d by a kept handle", i)
						s.m.removeAt(i)
						changed++
					}
				}
			}
		case 4: // move a kept handle
			if len(s.hs) > 0 {
				h := s.hs[t.IntN(len(s.hs))]
				i := s.index(h.id)
				fwd := t.Bool(1, 2)
				t.Log("move the handle on entry %d, forward %v", i, fwd)
				if fwd {
					h.x.Next()
					i++
				} else {
					h.x.Prev()
					i--
				}
				s.checkAt(h.x, i, "a moved handle")
				if i >= 0 && i < len(s.m.es) {
					h.id = s.m.es[i].id
				} else {
					h.id = -1
				}
			}
		case 5: // erase while iterating
			loops++
			s.eraseLoop()
		}
		s.sweep()
		s.checkSmall()
	})
	s.checkAll()
	t.ClassIf(s.kill > 0, "a handle's element erased")
	t.ClassIf(loops > 0, "erase while iterating")
	if changed > 0 && len(s.hs) > 0 || loops > 0 {
		t.NonTrivial()
	}
}

// eraseLoop walks the whole container, stepping past an element before erasing it.
func (s *stab[K]) eraseLoop() {
	t := s.t
	fwd := t.Bool(2, 3)
	keep := t.IntN(4) // 0: erase all
	t.Log("erase while iterating, forward %v, density %d", fwd, keep)
	x := s.c.last[t.IntN(len(s.c.last))]()
	if fwd {
		x = s.c.first[t.IntN(len(s.c.first))]()
	}
	step := func(y it[K]) {
		if fwd {
			y.Next()
		} else {
			y.Prev()
		}
	}
	ids := make([]int, len(s.m.es))
	for i, e := range s.m.es {
		ids[i] = e.id
	}
	if !fwd {
		for i, j := 0, len(ids)-1; i < j; i, j = i+1, j-1 {
			ids[i], ids[j] = ids[j], ids[i]
		}
	}
	for p := 0; p < len(ids); p++ {
		i := s.index(ids[p])
		if i < 0 {
			continue // erased together with an equal key
		}
		s.checkAt(x, i, "erase while iterating, visit", p)
		cur := x.Clone()
		chosen := keep == 0 || t.IntN(keep+1) == 0
		step(x)
		if !chosen {
			continue
		}
		k := s.m.es[i].k
		if s.c.eraseIt(cur) {
			s.m.removeAt(i)
			continue
		}
		switch s.c.kind {
		case "multimap": // all equal keys go: step past them first
			for x.Valid() && s.m.cmp(x.Key(), k) == 0 {
				step(x)
			}
			s.erase(k)
		case "rbtree": // a tree iterator does not give its node: erase the first equal one, unless the iterator stands on it
			if lo := s.m.lower(k); !x.Valid() || x.Val() != s.m.es[lo].v {
				s.erase(k)
			}
		case "multiset":
			if lo := s.m.lower(k); !x.Valid() || any(x.Key()) != any(s.m.es[lo].k) || s.m.lower(k)+1 == s.m.upper(k) {
				if _, ok := any(k).(Key); ok {
					s.erase(k)
				} else if s.m.lower(k)+1 == s.m.upper(k) {
					s.erase(k)
				}
			}
		default:
			s.erase(k)
		}
	}
	s.checkAt(x, -1, "the end of erase while iterating")
}

// withDoms is withDom for functions of a kind.
func ofKind(i func(*T, *dom[int], string), s func(*T, *dom[string], string), k func(*T, *dom[Key], string)) func(*T) {
	return func(t *T) {
		kind := orderedKinds[t.Variant(len(orderedKinds))]
		withDom(t, func(d *dom[int]) { i(t, d, kind) }, func(d *dom[string]) { s(t, d, kind) }, func(d *dom[Key]) { k(t, d, kind) })
	}
}

func init() {
	pbt.Register(pbt.Prop{ID: "C03",
		Rule:        "cases are build-up and thinning phases in monotone, zig-zag, inside-out, equal-key and random orders; IsRbTree is asked at every step (sampled in the large phase) and the distinct stored keys shown to the comparator are counted for each lookup and bound search against 2*log2(n+1)+2. Non-trivial: the tree held eight or more pairs.",
		Assumptions: []string{"deleted nodes belong to the tree"},
		Phases: []pbt.Phase{{Name: "small", Quick: 450000, Thorough: 3000000, Run: func(t *T) { runBalance(t, 0) }},
			{Name: "large", Quick: 6000, Thorough: 60000, Run: func(t *T) { runBalance(t, 1) }},
			{Name: "huge", Quick: 150, Thorough: 4000, Run: func(t *T) { runBalance(t, 2) }}}})
	pbt.Register(pbt.Prop{ID: "C07",
		Rule:        "cases are two sets (independent, nested, disjoint, equal, one and the same) built by generated histories, their union, intersection and difference, and later changes and further combinations of all of them, each compared with its own sorted-list model. Non-trivial: two different non-empty operands.",
		Assumptions: []string{"both sets use the same ordering"},
		Phases: []pbt.Phase{{Name: "algebra", Quick: 360000, Thorough: 2000000, Run: func(t *T) {
			withDom(t, func(d *dom[int]) { runAlgebra(t, d) }, func(d *dom[string]) { runAlgebra(t, d) }, func(d *dom[Key]) { runAlgebra(t, d) })
		}}}})
	pbt.Register(pbt.Prop{ID: "C09",
		Rule:        "cases are histories of changes to a tree, map, multimap, set or multiset during which up to 14 iterators or nodes are kept; after every change each one whose element lives must still be on it and step to its current neighbours; loops erase while iterating in both directions. Non-trivial: a change was made while a handle was kept, or such a loop ran.",
		Assumptions: []string{"handles to erased elements are not used again"},
		Phases: []pbt.Phase{{Name: "handles", Quick: 900000, Thorough: 4000000,
			Run: ofKind(runStability[int], runStability[string], runStability[Key])}}})
	_ = fmt.Sprint
}
