package props

import (
	"fmt"

	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/vector"
	"verifharness/pbt"
)

// ---- C37

// keyDom draws a domain of keys, some of them equal in order.
func keyDom(t *T, sh *shared) *dom[Key] {
	d := newKeyDom(t)
	d.shared = sh
	d.armed = new(int)
	d.disarm()
	return d
}

// visits runs the traversal of b, stopping at visit stop (-1: never), and checks it.
func (b *box) visits(stop int, order []kv) []kv {
	t := b.t
	var got []kv
	stopped := false
	b.visit(func(k, v any) bool {
		if stopped {
			t.Failf("%s: the visitor is called again after it returned false at visit %d", b.name, stop)
		}
		got = append(got, kv{k, v})
		if len(got) > len(order) {
			t.Failf("%s: visit %d of %d entries gives %v", b.name, len(got), len(order), kv{k, v})
		}
		if !b.unordered || stop >= 0 {
			if w := order[len(got)-1]; w != got[len(got)-1] {
				t.Failf("%s: visit %d gives %v, expected %v", b.name, len(got)-1, got[len(got)-1], w)
			}
		}
		stopped = len(got)-1 == stop
		return !stopped
	})
	n := len(order)
	if stop >= 0 && stop < n {
		n = stop + 1
	}
	if len(got) != n {
		t.Failf("%s: %d visits, expected %d of %d entries", b.name, len(got), n, len(order))
	}
	return got
}

func runVisit(t *T) {
	kind := visitKinds[t.Variant(len(visitKinds))]
	safe := t.Bool(1, 2)
	sh := newShared(safe, false)
	b := newBox(t, kind, keyDom(t, sh), sh, safe)
	t.Log("%s, goroutine safe %v", kind, safe)
	stops, maxN := 0, 0
	t.Repeat(1, 5, func(int) {
		t.Repeat(0, 20, func(int) { b.change() })
		if t.Bool(1, 4) {
			b.bulk(t.Size(80))
		}
		order := b.entries()
		maxN = max(maxN, len(order))
		if b.unordered {
			got := b.visits(-1, order)
			left := map[kv]int{}
			for _, e := range order {
				left[e]++
			}
			for _, e := range got {
				if left[e]--; left[e] < 0 {
					t.Failf("%s: the traversal gives %v, which is not an entry or was given before", b.name, e)
				}
			}
			order = got // its own order, whatever it is
		} else {
			b.visits(-1, order)
		}
		n := len(order)
		if n <= 24 {
			for i := 0; i < n; i++ {
				b.visits(i, order)
				stops++
			}
		} else {
			for i := 0; i < 10; i++ {
				b.visits([]int{0, 1, n - 1, n - 2, t.IntN(n)}[t.IntN(5)], order)
				stops++
			}
		}
		b.check()
		b.change() // locks are free
		b.check()
	})
	t.Class(kind)
	t.ClassIf(maxN == 0, "empty")
	if maxN >= 3 && stops > 0 {
		t.NonTrivial()
	}
}

// ---- C38

func (b *box) refuse(r refusal) {
	t := b.t
	t.Log("%s: %s", b.name, r.name)
	bad := ""
	panicked := pbt.Panics(func() { bad = r.f() })
	if bad != "" {
		t.Failf("%s: %s: %s", b.name, r.name, bad)
	}
	if panicked && r.how == quiet {
		t.Failf("%s: %s panics", b.name, r.name)
	}
	if !panicked && r.how == panics {
		t.Failf("%s: %s does not panic", b.name, r.name)
	}
	b.check()
}

func runRefuse(t *T) {
	kinds := boxKinds
	kind := kinds[t.Variant(len(kinds))]
	safe := t.Bool(2, 3)
	sh := newShared(safe, t.Bool(1, 3))
	d := keyDom(t, sh)
	b := newBox(t, kind, d, sh, safe)
	t.Log("%s, goroutine safe %v", kind, safe)
	refused, panicked := 0, 0
	t.Repeat(1, 12, func(int) {
		t.Repeat(0, 6, func(int) { b.change() })
		if b.bulk != nil && t.Bool(1, 12) {
			b.bulk(t.Size(300))
		}
		b.check()
		rs := b.refusals()
		if len(rs) > 0 {
			t.Repeat(1, 3, func(int) {
				r := rs[t.IntN(len(rs))]
				b.refuse(r)
				refused++
			})
		}
		if b.visit != nil && t.Bool(1, 4) {
			at := t.IntN(4)
			t.Log("%s: the visitor panics at visit %d", b.name, at)
			n := 0
			p := pbt.Try(func() {
				b.visit(func(any, any) bool {
					n++
					if n > at {
						panic("visitor panics")
					}
					return true
				})
			})
			if n > at {
				t.Check(p != nil, "%s: the visitor's panic does not reach the caller", b.name)
				panicked++
			}
			b.check()
		}
		if len(b.reads) > 0 && t.Bool(1, 4) {
			f := b.reads[t.IntN(len(b.reads))]
			if b.algebra != nil && t.Bool(1, 2) {
				o := b
				if t.Bool(2, 3) {
					o = newBox(t, kind, d, sh, safe)
					o.bulk(1 + t.IntN(5))
				}
				f = b.algebra(o, t.IntN(3))
				if t.Bool(1, 2) && o != b {
					f = o.algebra(b, t.IntN(3))
				}
				defer func() { o.change(); o.check() }()
			}
			after := t.IntN(6)
			t.Log("%s: the comparator panics at call %d of a read", b.name, after)
			d.arm(after)
			if pbt.Try(f) != nil {
				panicked++
			}
			d.disarm()
			b.check()
			b.change()
			b.check()
		}
		b.change()
		b.check()
	})
	t.Class(kind)
	t.ClassIf(panicked > 0, "a caller's function panicked")
	if refused > 0 || panicked > 0 {
		t.NonTrivial()
	}
}

// ---- C39

func runMany(t *T) {
	safe := t.Bool(1, 2)
	sh := newShared(safe, t.Bool(1, 3))
	d := keyDom(t, sh)
	var bs []*box
	n := 2 + t.IntN(3)
	first := t.Variant(len(boxKinds))
	for i := 0; i < n; i++ {
		kind := boxKinds[first]
		if i > 1 && t.Bool(1, 3) {
			kind = boxKinds[t.IntN(len(boxKinds))]
		}
		b := newBox(t, kind, d, sh, safe)
		b.name = fmt.Sprintf("%s %d", b.name, i)
		bs = append(bs, b)
	}
	t.Log("goroutine safe %v, %d containers:", safe, n)
	for _, b := range bs {
		t.Log("  %s", b.name)
	}
	touched := map[int]bool{}
	nested := 0
	t.Repeat(1, 30, func(int) {
		i := t.IntN(n)
		b := bs[i]
		switch t.Pick(12, 1, 2) {
		case 0:
			b.change()
			touched[i] = true
		case 1:
			if b.bulk != nil {
				b.bulk(t.Size(300))
				touched[i] = true
			}
		case 2: // change another container while this one is being traversed
			o := bs[t.IntN(n)]
			if b.visit == nil || o == b {
				return
			}
			t.Log("while %s is traversed", b.name)
			left := 3
			b.visit(func(any, any) bool {
				o.change()
				nested++
				left--
				return left > 0
			})
		}
		for _, b := range bs {
			b.check()
		}
	})
	t.Class(boxKinds[first])
	t.ClassIf(nested > 0, "changed one while another is traversed")
	if len(touched) >= 2 {
		t.NonTrivial()
	}
}

// copied is an array or vector with its model.
type copied[E comparable] struct {
	name   string
	m      []E
	change func()
	size   func() int
	at     func(int) E
	dup    func() *copied[E]
}

func newCopied[E comparable](t *T, el elems[E], src any) *copied[E] {
	c := &copied[E]{}
	switch x := src.(type) {
	case *array.Array[E]:
		c.size, c.at = x.Size, x.At
		c.change = func() {
			v := el.gen()
			switch t.Pick(5, 1, 2) {
			case 1:
				t.Log("%s: fill with %v", c.name, v)
				x.Fill(v)
				for i := range c.m {
					c.m[i] = v
				}
			default:
				if len(c.m) > 0 {
					i := t.IntN(len(c.m))
					t.Log("%s: element %d = %v", c.name, i, v)
					if t.Bool(1, 3) {
						x.Data()[i] = v
					} else if t.Bool(1, 2) {
						x.IterAt(i).SetValue(v)
					} else {
						x.Set(i, v)
					}
					c.m[i] = v
				}
			}
		}
		c.dup = func() *copied[E] { return newCopied(t, el, array.NewFromArray(x)) }
	case *vector.Vector[E]:
		c.size, c.at = x.Size, x.At
		c.change = func() {
			v := el.gen()
			k := t.Pick(5, 3, 2, 2, 2, 1, 1, 1)
			if len(c.m) == 0 && (k == 1 || k == 2 || k == 4) {
				k = 0
			}
			switch k {
			case 0:
				t.Log("%s: push %v", c.name, v)
				x.PushBack(v)
				c.m = append(c.m, v)
			case 1:
				i := t.IntN(len(c.m))
				t.Log("%s: element %d = %v", c.name, i, v)
				if t.Bool(1, 2) {
					x.SetAt(i, v)
				} else {
					x.IterAt(i).SetValue(v)
				}
				c.m[i] = v
			case 2:
				t.Log("%s: pop", c.name)
				x.PopBack()
				c.m = c.m[:len(c.m)-1]
			case 3:
				i := t.IntN(len(c.m) + 1)
				t.Log("%s: insert %v at %d", c.name, v, i)
				x.InsertAt(i, v)
				c.m = insertSlice(c.m, i, v)
			case 4:
				i := t.IntN(len(c.m))
				t.Log("%s: erase %d", c.name, i)
				x.EraseAt(i)
				c.m = removeSlice(c.m, i)
			case 5:
				t.Log("%s: clear", c.name)
				x.Clear()
				c.m = nil
			case 6:
				t.Log("%s: reserve or shrink", c.name)
				if t.Bool(1, 2) {
					x.Reserve(len(c.m) + t.IntN(10))
				} else {
					x.ShrinkToFit()
				}
			case 7:
				i := t.IntN(len(c.m) + 1)
				t.Log("%s: resize to %d", c.name, i)
				x.Resize(i)
				c.m = c.m[:i]
			}
		}
		c.dup = func() *copied[E] { return newCopied(t, el, vector.NewFromVector(x)) }
	}
	return c
}

func runCopies[E comparable](t *T, el elems[E]) {
	isArray := t.Variant(2) == 0
	n := t.Size(12)
	var first *copied[E]
	if isArray {
		a := array.New[E](n)
		first = newCopied(t, el, a)
		first.m = make([]E, n)
	} else {
		var o []vector.Option
		if t.Bool(1, 2) {
			o = append(o, vector.WithCapacity(t.IntN(20)))
		}
		first = newCopied(t, el, vector.New[E](o...))
	}
	first.name = "0"
	cs := []*copied[E]{first}
	changed := map[string]bool{}
	t.Log("array: %v, size %d, elements %s", isArray, n, el.name)
	t.Repeat(2, 40, func(int) {
		c := cs[t.IntN(len(cs))]
		if len(cs) < 5 && t.Bool(1, 5) {
			x := c.dup()
			x.name = fmt.Sprint(len(cs))
			x.m = cloneSlice(c.m)
			t.Log("%s is copied to %s", c.name, x.name)
			cs = append(cs, x)
		} else {
			c.m = cloneSlice(c.m)
			c.change()
			if len(cs) > 1 {
				changed[c.name] = true
			}
		}
		for _, c := range cs {
			if c.size() != len(c.m) {
				t.Failf("copy %s: size %d, expected %d", c.name, c.size(), len(c.m))
			}
			for i, w := range c.m {
				if g := c.at(i); g != w {
					t.Failf("copy %s: element %d is %v, expected %s", c.name, i, g, str(c.m))
				}
			}
		}
	})
	t.ClassIf(isArray, "arrays")
	t.ClassIf(!isArray, "vectors")
	t.ClassIf(len(cs) > 2, "three or more copies")
	if len(changed) >= 2 {
		t.NonTrivial()
	}
}

func init() {
	pbt.Register(pbt.Prop{ID: "C37",
		Rule:        "cases build a generated container of one of the nine kinds with a traversal and, at several points of its history, traverse it completely and with a visitor that stops at every position (or ten drawn ones), comparing each visit with the model. Non-trivial: three or more entries.",
		Assumptions: []string{"the visitor does not use the container", "one goroutine"},
		Phases:      []pbt.Phase{{Name: "stops", Quick: 720000, Thorough: 5000000, Run: runVisit}}})
	pbt.Register(pbt.Prop{ID: "C38",
		Rule:        "cases are histories of a generated container of one of 19 kinds in which calls that must be refused (positions outside, empty containers, absent keys, foreign nodes, iterators past the end) and reads with a panicking visitor or comparator are mixed with ordinary changes; after each the contents are compared with the model and the history goes on. Non-trivial: something was refused or panicked.",
		Assumptions: []string{"one goroutine; a lock left held shows as a deadlock"},
		Phases:      []pbt.Phase{{Name: "history", Quick: 900000, Thorough: 6000000, Run: runRefuse}}})
	pbt.Register(pbt.Prop{ID: "C39",
		Rule:        "cases run interleaved histories on two to four containers, two of one kind and the others of any, built from the same option values and comparator, and compare all of them with their models after each step; or copy arrays and vectors and go on changing original and copies. Non-trivial: two or more containers were changed.",
		Assumptions: []string{"one goroutine"},
		Phases: []pbt.Phase{{Name: "interleaved", Quick: 450000, Thorough: 2500000, Run: runMany},
			{Name: "copies", Quick: 240000, Thorough: 3000000, Run: func(t *T) {
				withElem(t, func(e elems[int]) { runCopies(t, e) }, func(e elems[string]) { runCopies(t, e) }, func(e elems[rec]) { runCopies(t, e) }, func(e elems[*int]) { runCopies(t, e) })
			}}}})
}
