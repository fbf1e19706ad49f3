package props

import (
	"fmt"
	"reflect"

	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	"github.com/liyue201/gostl/ds/rbtree"
	"verifharness/pbt"
)

// ---- C43

// wk is an iterator of a list or an ordered container.
type wk interface {
	Valid() bool
	Next()
	Prev()
	Clone() wk
	Equal(wk) bool
}

// walkC is a container of the walks with its model.
type walkC struct {
	name    string
	prev    bool // iterators step back
	n       func() int
	change  func()
	place   func(i int) wk            // an iterator on element i, made in a generated way
	on      func(x wk, i int) string  // what is wrong if x is not on element i (-1: past the end)
	write   func(x wk, i int) bool    // writes a new value, updates the model; false: not offered
	absent  func() (x wk, i int)      // the answer of a search for a missing element
	check   func()                    // the contents
	stepOff func(x wk) (staying bool) // whether x may be moved when past the end
}

type blIt struct{ i *bidlist.ListIterator[int] }

func (x *blIt) Valid() bool     { return x.i.IsValid() }
func (x *blIt) Next()           { moved(x.i.Next(), x.i) }
func (x *blIt) Prev()           { moved(x.i.Prev(), x.i) }
func (x *blIt) Clone() wk       { return &blIt{x.i.Clone().(*bidlist.ListIterator[int])} }
func (x *blIt) Equal(o wk) bool { return x.i.Equal(o.(*blIt).i) }

type slIt struct{ i *simplelist.ListIterator[int] }

func (x *slIt) Valid() bool     { return x.i.IsValid() }
func (x *slIt) Next()           { moved(x.i.Next(), x.i) }
func (x *slIt) Prev()           { panic("a simplelist iterator does not step back") }
func (x *slIt) Clone() wk       { return &slIt{x.i.Clone().(*simplelist.ListIterator[int])} }
func (x *slIt) Equal(o wk) bool { return x.i.Equal(o.(*slIt).i) }

type ordIt[K any] struct{ it[K] }

func (x *ordIt[K]) Clone() wk       { return &ordIt[K]{x.it.Clone()} }
func (x *ordIt[K]) Equal(o wk) bool { return x.it.Equal(o.(*ordIt[K]).it) }

func ordWalk[K any](t *T, d *dom[K], kind string) *walkC {
	s := newState(t, d, newOrdered(kind, d, t.Bool(1, 3)))
	wrap := func(x it[K]) wk {
		if y, ok := x.(*nodeIt[K]); ok && t.Bool(2, 3) {
			x = &treeIt[K]{rbtree.NewIterator(y.n)}
		}
		return &ordIt[K]{x}
	}
	return &walkC{name: kind, prev: true,
		n: func() int { return len(s.m.es) },
		change: func() {
			if t.Bool(1, 6) {
				s.bulk(1 + t.Size(60))
			} else {
				s.step()
			}
		},
		place: func(i int) wk { return wrap(s.handleAt(i)) },
		on:    func(x wk, i int) string { return s.standsOn(x.(*ordIt[K]).it, i) },
		write: func(x wk, i int) bool {
			s.next++
			if !x.(*ordIt[K]).SetVal(s.next) {
				return false
			}
			s.m.es[i].v = s.next
			return true
		},
		absent: func() (wk, int) {
			k := s.d.gen()
			if len(s.m.es) > 0 {
				k = s.d.near(s.m.es[t.IntN(len(s.m.es))].k)
			}
			end := func(i int) int {
				if i == len(s.m.es) {
					return -1
				}
				return i
			}
			switch t.IntN(3) {
			case 0:
				if !s.m.has(k) {
					return wrap(s.c.find(k)), -1
				}
				return wrap(s.c.find(k)), s.m.lower(k)
			case 1:
				return wrap(s.c.lower(k)), end(s.m.lower(k))
			}
			return wrap(s.c.upper(k)), end(s.m.upper(k))
		},
		check:   func() { s.checkAll() },
		stepOff: func(x wk) bool { _, node := x.(*ordIt[K]).it.(*nodeIt[K]); return !node },
	}
}

// listModel is the part the two lists share.
type listModel struct {
	m  []int
	no int
}

func (l *listModel) on(v func() int, valid bool, i int) string {
	switch {
	case i < 0 && valid:
		return fmt.Sprintf("is on %d, expected to be past the end", v())
	case i < 0:
	case !valid:
		return fmt.Sprintf("is not valid, expected element %d (%d)", i, l.m[i])
	case v() != l.m[i]:
		return fmt.Sprintf("is on %d, expected element %d (%d)", v(), i, l.m[i])
	}
	return ""
}

func bidlistWalk(t *T) *walkC {
	l := bidlist.New[int]()
	var m listModel
	node := func(i int) *bidlist.Node[int] {
		if t.Bool(1, 2) {
			x := l.BackNode()
			for j := len(m.m) - 1; j > i; j-- {
				x = x.Prev()
			}
			return x
		}
		x := l.FrontNode()
		for ; i > 0; i-- {
			x = x.Next()
		}
		return x
	}
	return &walkC{name: "bidlist", prev: true, n: func() int { return len(m.m) },
		change: func() {
			m.no++
			k := t.Pick(4, 3, 2, 2, 2, 1)
			n := len(m.m)
			if n == 0 && k > 1 {
				k = 0
			}
			switch k {
			case 0:
				t.Log("PushBack(%d)", m.no)
				l.PushBack(m.no)
				m.m = append(m.m, m.no)
			case 1:
				t.Log("PushFront(%d)", m.no)
				l.PushFront(m.no)
				m.m = insertSlice(m.m, 0, m.no)
			case 2:
				i := t.IntN(n)
				t.Log("InsertBefore element %d", i)
				l.InsertBefore(m.no, node(i))
				m.m = insertSlice(m.m, i, m.no)
			case 3:
				i := t.IntN(n)
				t.Log("Remove element %d", i)
				l.Remove(node(i))
				m.m = removeSlice(m.m, i)
			case 4:
				i := t.IntN(n)
				t.Log("MoveToFront element %d", i)
				l.MoveToFront(node(i))
				m.m = insertSlice(removeSlice(m.m, i), 0, m.m[i])
			case 5:
				i := t.IntN(n)
				t.Log("MoveToBack element %d", i)
				l.MoveToBack(node(i))
				m.m = append(removeSlice(m.m, i), m.m[i])
			}
		},
		place: func(i int) wk { return &blIt{bidlist.NewIterator(node(i))} },
		on:    func(x wk, i int) string { y := x.(*blIt).i; return m.on(y.Value, y.IsValid(), i) },
		write: func(x wk, i int) bool {
			m.no++
			x.(*blIt).i.SetValue(m.no)
			m.m[i] = m.no
			return true
		},
		absent: func() (wk, int) { return &blIt{bidlist.NewIterator[int](nil)}, -1 },
		check: func() {
			if s := l.String(); s != listString(m.m) {
				t.Failf("bidlist: String() = %q, expected %q", s, listString(m.m))
			}
		},
		stepOff: func(wk) bool { return true },
	}
}

func simplelistWalk(t *T) *walkC {
	l := simplelist.New[int]()
	var m listModel
	node := func(i int) *simplelist.Node[int] {
		if i == len(m.m)-1 && t.Bool(1, 2) {
			return l.BackNode()
		}
		x := l.FrontNode()
		for ; i > 0; i-- {
			x = x.Next()
		}
		return x
	}
	return &walkC{name: "simplelist", n: func() int { return len(m.m) },
		change: func() {
			m.no++
			k := t.Pick(4, 3, 2, 2)
			n := len(m.m)
			if n == 0 && k > 1 {
				k = 0
			}
			switch k {
			case 0:
				t.Log("PushBack(%d)", m.no)
				l.PushBack(m.no)
				m.m = append(m.m, m.no)
			case 1:
				t.Log("PushFront(%d)", m.no)
				l.PushFront(m.no)
				m.m = insertSlice(m.m, 0, m.no)
			case 2:
				i := t.IntN(n)
				t.Log("InsertAfter element %d", i)
				l.InsertAfter(m.no, node(i))
				m.m = insertSlice(m.m, i+1, m.no)
			case 3:
				i := t.IntN(n)
				t.Log("Remove element %d", i)
				if i == 0 {
					l.Remove(nil, node(0))
				} else {
					l.Remove(node(i-1), node(i))
				}
				m.m = removeSlice(m.m, i)
			}
		},
		place: func(i int) wk { return &slIt{simplelist.NewIterator(node(i))} },
		on:    func(x wk, i int) string { y := x.(*slIt).i; return m.on(y.Value, y.IsValid(), i) },
		write: func(x wk, i int) bool {
			m.no++
			x.(*slIt).i.SetValue(m.no)
			m.m[i] = m.no
			return true
		},
		absent: func() (wk, int) { return &slIt{simplelist.NewIterator[int](nil)}, -1 },
		check: func() {
			if s := l.String(); s != listString(m.m) {
				t.Failf("simplelist: String() = %q, expected %q", s, listString(m.m))
			}
		},
		stepOff: func(wk) bool { return true },
	}
}

// walker is an iterator with the element it should be on.
type walker struct {
	c *walkC
	x wk
	i int
}

func (w *walker) verify(t *T, what string) {
	if p := w.c.on(w.x, w.i); p != "" {
		t.Failf("%s: %s: the iterator %s", w.c.name, what, p)
	}
}

// move steps w and tells whether it did.
func (w *walker) move(fwd bool) bool {
	if !fwd && !w.c.prev || w.i < 0 && !w.c.stepOff(w.x) {
		return false
	}
	if fwd {
		w.x.Next()
		if w.i >= 0 {
			if w.i++; w.i == w.c.n() {
				w.i = -1
			}
		}
	} else {
		w.x.Prev()
		if w.i >= 0 {
			w.i--
		}
	}
	return true
}

// comparable: iterators of one type
func sameType(a, b wk) bool { return itType(a) == itType(b) }

func itType(a wk) reflect.Type {
	if v := reflect.ValueOf(a).Elem().Field(0); v.Kind() == reflect.Interface {
		return v.Elem().Type()
	}
	return reflect.TypeOf(a)
}

func runWalks[K any](t *T, d *dom[K], kind string) {
	var cs []*walkC
	for i := 1 + sgn(t.Bool(1, 3)); i > 0; i-- {
		switch kind {
		case "bidlist":
			cs = append(cs, bidlistWalk(t))
		case "simplelist":
			cs = append(cs, simplelistWalk(t))
		default:
			cs = append(cs, ordWalk(t, d, kind))
		}
	}
	t.Log("%d %s", len(cs), kind)
	maxN, off := 0, false
	t.Repeat(1, 4, func(int) {
		c := cs[t.IntN(len(cs))]
		t.Repeat(0, 14, func(int) { c.change() })
		n := c.n()
		maxN = max(maxN, n)
		if n <= 24 { // from every element to both ends, and past them
			for i := 0; i < n; i++ {
				for _, fwd := range []bool{true, false} {
					w := &walker{c, c.place(i), i}
					w.verify(t, fmt.Sprintf("placed on element %d", i))
					for j := 0; w.i >= 0 && w.move(fwd); j++ {
						w.verify(t, fmt.Sprintf("placed on element %d, %d steps, forward %v", i, j+1, fwd))
					}
					for j := 0; j < 3 && w.i < 0 && w.move(fwd != (j == 1)); j++ {
						w.verify(t, "moved after it walked off")
					}
				}
			}
		}
		var ws []*walker
		t.Repeat(1, 30, func(int) {
			op := t.Pick(3, 6, 6, 3, 3, 1)
			if len(ws) == 0 {
				op = 0
			}
			switch op {
			case 0:
				if len(ws) >= 6 {
					ws = removeSlice(ws, t.IntN(len(ws)))
				}
				c := cs[t.IntN(len(cs))]
				w := &walker{c: c}
				if n := c.n(); n > 0 && t.Bool(5, 6) {
					w.i = t.IntN(n)
					w.x = c.place(w.i)
				} else {
					w.x, w.i = c.absent()
				}
				t.Log("%s: an iterator on %d", c.name, w.i)
				ws = append(ws, w)
			case 1, 2:
				w := ws[t.IntN(len(ws))]
				from := w.i
				if w.move(op == 1) {
					t.Log("%d moves to %d", from, w.i)
				}
				off = off || w.i < 0
			case 3:
				w := ws[t.IntN(len(ws))]
				t.Log("clone of %d", w.i)
				ws = append(ws, &walker{w.c, w.x.Clone(), w.i})
			case 4:
				w := ws[t.IntN(len(ws))]
				if w.i >= 0 && w.c.write(w.x, w.i) {
					t.Log("write to %d", w.i)
				}
			case 5:
				for _, c := range cs {
					c.check()
				}
			}
			for _, w := range ws {
				w.verify(t, "after the operation")
				for _, v := range ws {
					if !sameType(w.x, v.x) {
						continue
					}
					want := w.i == v.i && (w.c == v.c || w.i < 0)
					if w.x.Equal(v.x) != want {
						t.Failf("%s: Equal of iterators on %d and %d (-1: past the end; same container: %v) is %v", w.c.name, w.i, v.i, w.c == v.c, !want)
					}
				}
			}
		})
		for _, c := range cs {
			c.check()
		}
	})
	t.Class(kind)
	if maxN >= 3 && off {
		t.NonTrivial()
	}
}

func init() {
	kinds := append([]string{"bidlist", "simplelist"}, orderedKinds...)
	pbt.Register(pbt.Prop{
		ID:          "C43",
		Rule:        "a container that held at least 3 elements, and an iterator that walked past an end; in phase foreign (iterators of different kinds of containers compared) the containers are not empty",
		Assumptions: []string{"the container is not changed while the iterators walk, except through them (C09, C16 and C17 cover that)"},
		Phases: []pbt.Phase{{Name: "walks", Quick: 600000, Thorough: 2000000, Run: func(t *T) {
			kind := kinds[t.Variant(len(kinds))]
			withDom(t, func(d *dom[int]) { runWalks(t, d, kind) }, func(d *dom[string]) { runWalks(t, d, kind) }, func(d *dom[Key]) { runWalks(t, d, kind) })
		}}, {Name: "foreign", Quick: 2000, Thorough: 20000, Run: runForeign}},
	})
}
