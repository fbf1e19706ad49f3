package props

import (
	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/iterator"
	"verifharness/pbt"
)

// seq is any of the random-access containers behind one set of functions.
type seq[E comparable] struct {
	kind  string
	raw   any
	size  func() int
	at    func(int) E
	set   func(int, E)
	begin func() iterator.RandomAccessIterator[E]
	end   func() iterator.RandomAccessIterator[E]
	first func() iterator.RandomAccessIterator[E]
	last  func() iterator.RandomAccessIterator[E]
	iter  func(int) iterator.RandomAccessIterator[E]
	push  func(E) // nil: fixed length
	pop   func()
	str   func() string // nil: none
}

var seqKinds = []string{"array", "slice", "vector", "deque"}

func newSeq[E comparable](kind string, vals []E, skew int) *seq[E] {
	type ra = iterator.RandomAccessIterator[E]
	switch kind {
	case "array":
		a := array.New[E](len(vals))
		for i, v := range vals {
			a.Set(i, v)
		}
		return &seq[E]{kind: kind, raw: a, size: a.Size, at: a.At, set: a.Set, begin: func() ra { return a.Begin() }, end: func() ra { return a.End() },
			first: func() ra { return a.First() }, last: func() ra { return a.Last() }, iter: func(p int) ra { return a.IterAt(p) }, str: a.String}
	case "slice":
		s := slice.NewSliceWrapper(cloneSlice(vals))
		return &seq[E]{kind: kind, raw: s, size: s.Len, at: s.At, set: s.Set, begin: func() ra { return s.Begin() }, end: func() ra { return s.End() },
			first: func() ra { return s.First() }, last: func() ra { return s.Last() }, iter: func(p int) ra { return s.Begin().IteratorAt(p) }}
	case "vector":
		v := vector.New[E]()
		for _, x := range vals {
			v.PushBack(x)
		}
		return &seq[E]{kind: kind, raw: v, size: v.Size, at: v.At, set: v.SetAt, begin: func() ra { return v.Begin() }, end: func() ra { return v.End() },
			first: func() ra { return v.First() }, last: func() ra { return v.Last() }, iter: func(p int) ra { return v.IterAt(p) },
			push: v.PushBack, pop: func() { v.PopBack() }, str: v.String}
	default:
		d := deque.New[E]()
		k := min(len(vals), skew) // so many are pushed at the front
		for i := k - 1; i >= 0; i-- {
			d.PushFront(vals[i])
		}
		for _, x := range vals[k:] {
			d.PushBack(x)
		}
		return &seq[E]{kind: kind, raw: d, size: d.Size, at: d.At, set: func(i int, x E) { d.Set(i, x) }, begin: func() ra { return d.Begin() }, end: func() ra { return d.End() },
			first: func() ra { return d.First() }, last: func() ra { return d.Last() }, iter: func(p int) ra { return d.IterAt(p) },
			push: d.PushBack, pop: func() { d.PopBack() }, str: d.String}
	}
}

func (s *seq[E]) contents() []E {
	out := make([]E, 0, s.size())
	for i := 0; i < s.size(); i++ {
		out = append(out, s.at(i))
	}
	return out
}

func (s *seq[E]) expect(t *T, want []E) {
	if s.size() != len(want) {
		t.Failf("%s: size %d, expected %d", s.kind, s.size(), len(want))
	}
	for i, w := range want {
		if g := s.at(i); g != w {
			t.Failf("%s: element %d is %v; expected %s", s.kind, i, g, str(want))
		}
	}
}

// ---- C12: deque

type dstate[E comparable] struct {
	t    *T
	d    *deque.Deque[E]
	m    []E
	maxN int
}

func (s *dstate[E]) check() {
	t, d, n := s.t, s.d, len(s.m)
	if d.Size() != n || d.Empty() != (n == 0) {
		t.Failf("Size() = %d, Empty() = %v, expected %d elements", d.Size(), d.Empty(), n)
	}
	for i, w := range s.m {
		if g := d.At(i); g != w {
			t.Failf("At(%d) = %v, expected %v; %d elements", i, g, w, n)
		}
	}
	if n > 0 && (d.Front() != s.m[0] || d.Back() != s.m[n-1]) {
		t.Failf("Front() = %v, Back() = %v, expected %v, %v", d.Front(), d.Back(), s.m[0], s.m[n-1])
	}
	s.maxN = max(s.maxN, n)
}

func (s *dstate[E]) walk() {
	t, n := s.t, len(s.m)
	i := 0
	for x := s.d.Begin(); x.IsValid(); x.Next() {
		if i >= n || x.Value() != s.m[i] || x.Position() != i {
			t.Failf("a forward iteration, step %d of %d, gives %v at %d", i, n, x.Value(), x.Position())
		}
		i++
	}
	if i != n {
		t.Failf("a forward iteration gives %d of %d elements", i, n)
	}
	for x := s.d.Last(); x.IsValid(); x.Prev() {
		i--
		if i < 0 || x.Value() != s.m[i] {
			t.Failf("a reverse iteration gives %v at %d", x.Value(), x.Position())
		}
	}
	if i != 0 {
		t.Failf("a reverse iteration misses %d elements", i)
	}
	i = 0
	for x, e := s.d.First(), s.d.End(); !x.Equal(e); x.Next() {
		i++
		if i > n {
			t.Failf("an iteration from First does not meet End")
		}
	}
	if n < 80 {
		if g, w := s.d.String(), listString(s.m); g != w {
			t.Failf("String() = %q, expected %q", g, w)
		}
	}
}

// position draws a position in [0, n), ends favoured.
func pos(t *T, n int) int {
	if n <= 1 {
		return 0
	}
	switch t.Pick(6, 1, 1, 1, 1) {
	case 1:
		return min(t.IntN(3), n-1)
	case 2:
		return max(n-1-t.IntN(3), 0)
	case 3: // around multiples of the segment size from the front
		return min(max(t.IntN(n/128+1)*128+t.IntN(5)-2, 0), n-1)
	case 4: // and from the back
		return max(min(n-t.IntN(n/128+1)*128+t.IntN(5)-2, n-1), 0)
	}
	return t.IntN(n)
}

func runDeque[E comparable](t *T, el elems[E], big bool) {
	s := &dstate[E]{t: t, d: deque.New[E]()}
	d := s.d
	pool := make([]E, 37) // elements for bulk steps
	for i := range pool {
		pool[i] = el.gen()
	}
	ctr := 0
	bulkElem := func() E { ctr++; return pool[ctr%len(pool)] }
	t.Log("deque of %s", el.name)
	removed, mid := 0, 0
	maxLen := 2500
	bulk := 1
	run := func(n int) int {
		if big || t.Bool(1, 12) {
			return 1 + t.Size(bulk)
		}
		return 1
	}
	shift := 0 // elements popped from the front less those pushed there: pushes fill segments of 128
	at := func(n int) int {
		if n > 1 && t.Bool(1, 4) { // where a segment may begin
			return min(max(128*(t.IntN(n/128+2))-shift&127+t.Pick(1, 4, 1)-1, 0), n-1)
		}
		return pos(t, n)
	}
	rounds := 40
	bulk = 200
	if big {
		rounds = 14
		bulk = 700
	}
	val := func(n int) E {
		if n > 1 {
			return bulkElem()
		}
		return el.gen()
	}
	t.Repeat(1, rounds, func(int) {
		k := t.Pick(5, 5, 4, 4, 5, 5, 3, 3, 1)
		n := len(s.m)
		if n == 0 && k >= 2 && k != 4 {
			k = t.IntN(2)
		}
		switch k {
		case 0, 1:
			c := run(n)
			if t.Bool(1, 16) { // fill up a segment
				c = shift&127 + 128*t.IntN(3)
				if k == 1 {
					c = -(shift+n)&127 + 128*t.IntN(3)
				}
			}
			if n+c > maxLen {
				break
			}
			if k == 0 {
				shift -= c
			}
			t.Log("push %d, at the front %v", c, k == 0)
			add := make([]E, c)
			for i := range add {
				add[i] = val(c)
				if k == 0 {
					d.PushFront(add[i])
				} else {
					d.PushBack(add[i])
				}
			}
			if k == 0 {
				for i, j := 0, c-1; i < j; i, j = i+1, j-1 {
					add[i], add[j] = add[j], add[i]
				}
				s.m = append(add, s.m...)
			} else {
				s.m = append(s.m, add...)
			}
		case 2, 3:
			c := min(run(n), n)
			if t.Bool(1, 16) { // empty a segment
				c = 128 - shift&127 + 128*t.IntN(3)
				if k == 3 {
					c = (shift+n)&127 + 128*t.IntN(3)
				}
				c = min(c, n)
			}
			if k == 2 {
				shift += c
			}
			t.Log("pop %d, at the front %v", c, k == 2)
			for i := 0; i < c; i++ {
				var g, w E
				if k == 2 {
					w = s.m[0]
					g = d.PopFront()
					s.m = s.m[1:]
				} else {
					w = s.m[len(s.m)-1]
					g = d.PopBack()
					s.m = s.m[:len(s.m)-1]
				}
				if g != w {
					t.Failf("pop gives %v, expected %v; %d elements left", g, w, len(s.m))
				}
			}
			s.m = cloneSlice(s.m)
			removed++
		case 4:
			c := run(n)
			if n+c > maxLen {
				break
			}
			c = min(c, 150)
			p := at(n + 1)
			step := t.IntN(2) * t.IntN(40)
			t.Log("insert %d from position %d, step %d", c, p, step)
			for i := 0; i < c; i++ {
				q := (p + i*step) % (len(s.m) + 1)
				v := val(c)
				d.Insert(q, v)
				s.m = insertSlice(s.m, q, v)
			}
			mid++
		case 5:
			c := min(run(n), n)
			c = min(c, 150)
			p := at(n)
			step := t.IntN(2) * t.IntN(40)
			t.Log("erase %d from position %d, step %d", c, p, step)
			for i := 0; i < c; i++ {
				q := (p + i*step) % len(s.m)
				d.EraseAt(q)
				s.m = append(s.m[:q], s.m[q+1:]...)
			}
			mid++
			removed++
		case 6:
			a := at(n + 1)
			b := at(n + 1)
			if a > b {
				a, b = b, a
			}
			if t.Bool(1, 2) {
				b = min(a+t.IntN(4), n)
			} else if t.Bool(1, 2) { // whole segments
				b = min(a+128*(1+t.IntN(3)), n)
			}
			t.Log("erase the range [%d,%d)", a, b)
			d.EraseRange(a, b)
			s.m = append(s.m[:a], s.m[b:]...)
			removed++
		case 7:
			p, v := at(n), el.gen()
			t.Log("set position %d", p)
			if t.Bool(1, 2) {
				if err := d.Set(p, v); err != nil {
					t.Failf("Set(%d) of %d elements: %v", p, n, err)
				}
			} else {
				d.IterAt(p).SetValue(v)
			}
			s.m[p] = v
		case 8:
			if t.Bool(1, 2) {
				t.Log("clear")
				d.Clear()
				s.m = nil
			}
		}
		s.check()
		if t.Bool(1, 8) {
			s.walk()
		}
	})
	s.check()
	s.walk()
	t.ClassIf(s.maxN > 128, "more than one segment")
	t.ClassIf(s.maxN > 640, "more than five segments")
	t.ClassIf(mid > 0, "positional insertion or erasure")
	if removed > 0 && s.maxN >= 3 {
		t.NonTrivial()
	}
}

// ---- C13: vector

func runVector[E comparable](t *T, el elems[E]) {
	var v *vector.Vector[E]
	c0 := t.Size(40)
	if t.Bool(1, 2) {
		v = vector.New[E](vector.WithCapacity(c0))
		if v.Capacity() < c0 {
			t.Failf("a vector made with capacity %d has capacity %d", c0, v.Capacity())
		}
	} else {
		v = vector.New[E]()
	}
	var m []E
	t.Log("vector of %s", el.name)
	capOps, removed, maxN := 0, 0, 0
	at := func(what string, x *vector.VectorIterator[E], p int) {
		if x.Position() != p || x.IsValid() != (p < len(m)) || (p < len(m) && x.Value() != m[p]) {
			t.Failf("the iterator returned by %s stands at %d (valid %v), expected %d of %s", what, x.Position(), x.IsValid(), p, str(m))
		}
	}
	stay := func(what string, got, given *vector.VectorIterator[E], p int) {
		if given.Position() != p {
			t.Failf("%s moves the iterator it is given from %d to %d", what, p, given.Position())
		}
		if got.Prev(); given.Position() != p {
			t.Failf("moving the iterator returned by %s moves the one that was given", what)
		}
	}
	check := func() {
		n := len(m)
		if v.Size() != n || v.Empty() != (n == 0) || v.Capacity() < n || len(v.Data()) != n {
			t.Failf("Size() %d, Empty() %v, Capacity() %d, %d in Data(); expected %s", v.Size(), v.Empty(), v.Capacity(), len(v.Data()), str(m))
		}
		for i, w := range m {
			if g := v.At(i); g != w || v.Data()[i] != w {
				t.Failf("At(%d) = %v; expected %s", i, g, str(m))
			}
		}
		if n > 0 && (v.Front() != m[0] || v.Back() != m[n-1]) {
			t.Failf("Front() = %v, Back() = %v; expected %s", v.Front(), v.Back(), str(m))
		}
	}
	t.Repeat(1, 50, func(int) {
		n := len(m)
		k := t.Pick(8, 3, 4, 3, 3, 3, 3, 3, 3, 3, 2, 3, 2, 1)
		switch k {
		case 0:
			c := 1
			if t.Bool(1, 15) {
				c = t.Size(100)
			}
			t.Log("PushBack %d times", c)
			for i := 0; i < c; i++ {
				x := el.gen()
				v.PushBack(x)
				m = append(m, x)
			}
		case 1:
			if n > 0 {
				t.Log("PopBack")
				if g := v.PopBack(); g != m[n-1] {
					t.Failf("PopBack() = %v, expected %v", g, m[n-1])
				}
				m = m[:n-1]
				removed++
			}
		case 2, 3:
			p, x := pos(t, n+1), el.gen()
			t.Log("insert %v at %d, by iterator %v", x, p, k == 3)
			m = insertSlice(m, p, x)
			if k == 2 {
				v.InsertAt(p, x)
			} else {
				g := v.IterAt(p)
				r := v.Insert(g, x)
				at("Insert", r, p)
				stay("Insert", r, g, p)
			}
		case 4, 5:
			if n > 0 {
				p := pos(t, n)
				t.Log("erase at %d, by iterator %v", p, k == 5)
				m = removeSlice(m, p)
				if k == 4 {
					v.EraseAt(p)
				} else {
					g := v.IterAt(p)
					r := v.Erase(g)
					at("Erase", r, p)
					stay("Erase", r, g, p)
				}
				removed++
			}
		case 6, 7:
			a, b := pos(t, n+1), pos(t, n+1)
			if a > b {
				a, b = b, a
			}
			t.Log("erase the range [%d,%d), by iterators %v", a, b, k == 7)
			m = append(cloneSlice(m[:a]), m[b:]...)
			if k == 6 {
				v.EraseIndexRange(a, b)
			} else {
				g, h := v.IterAt(a), v.IterAt(b)
				r := v.EraseRange(g, h)
				at("EraseRange", r, a)
				stay("EraseRange", r, g, a)
				stay("EraseRange", r, h, b)
			}
			removed++
		case 8:
			if n > 0 {
				p, x := pos(t, n), el.gen()
				t.Log("set %d to %v", p, x)
				if t.Bool(1, 2) {
					v.SetAt(p, x)
				} else {
					v.IterAt(p).SetValue(x)
				}
				m[p] = x
			}
		case 9:
			c := t.Size(120)
			t.Log("Reserve %d", c)
			v.Reserve(c)
			if v.Capacity() < c {
				t.Failf("Capacity() = %d after Reserve(%d)", v.Capacity(), c)
			}
			capOps++
		case 10:
			t.Log("ShrinkToFit")
			v.ShrinkToFit()
			if v.Capacity() != n {
				t.Failf("Capacity() = %d after ShrinkToFit with %d elements", v.Capacity(), n)
			}
			capOps++
		case 11:
			c := t.Size(n)
			if t.Bool(1, 5) {
				c = n + t.Size(20) // does nothing
			}
			t.Log("Resize %d", c)
			v.Resize(c)
			m = m[:min(c, n)]
			removed++
		case 12:
			i := 0
			for x := v.Begin(); !x.Equal(v.End()); x.Next() {
				if i >= n || x.Value() != m[i] {
					t.Failf("an iteration gives %v at %d; expected %s", x.Value(), i, str(m))
				}
				i++
			}
			for x := v.Last(); x.IsValid(); x.Prev() {
				i--
				if i < 0 || x.Value() != m[i] {
					t.Failf("a reverse iteration gives %v at %d; expected %s", x.Value(), i, str(m))
				}
			}
			if i != 0 {
				t.Failf("the iterations differ in length by %d", i)
			}
			if g := v.String(); g != listString(m) {
				t.Failf("String() = %q, expected %q", g, listString(m))
			}
		case 13:
			if t.Bool(1, 2) {
				t.Log("Clear")
				v.Clear()
				m = nil
			}
		}
		m = cloneSlice(m)
		maxN = max(maxN, len(m))
		check()
	})
	t.ClassIf(capOps > 0, "capacity operations")
	t.ClassIf(maxN > 32, "more than 32 elements")
	if removed > 0 && maxN >= 3 {
		t.NonTrivial()
	}
}

// ---- C14: array and slice wrapper

func runArray[E comparable](t *T, el elems[E]) {
	n := t.Size(20)
	if t.Bool(1, 12) {
		n = t.Size(300)
	}
	var zero E
	type ar struct {
		a *array.Array[E]
		m []E
	}
	mk := func(n int) *ar {
		x := &ar{array.New[E](n), make([]E, n)}
		return x
	}
	as := []*ar{mk(n), mk(n), mk(n + 1 + t.IntN(3))}
	t.Log("arrays of %s, lengths %d, %d and %d", el.name, n, n, len(as[2].m))
	_ = zero
	check := func(w int) {
		x := as[w]
		k := len(x.m)
		if x.a.Size() != k || x.a.Empty() != (k == 0) || len(x.a.Data()) != k {
			t.Failf("array %d: Size() %d, Empty() %v, expected %d elements", w, x.a.Size(), x.a.Empty(), k)
		}
		for i, v := range x.m {
			if g := x.a.At(i); g != v || x.a.Data()[i] != v {
				t.Failf("array %d: At(%d) = %v; expected %s", w, i, g, str(x.m))
			}
		}
		if k > 0 {
			if x.a.Front() != x.m[0] || x.a.Back() != x.m[k-1] {
				t.Failf("array %d: Front() %v, Back() %v; expected %s", w, x.a.Front(), x.a.Back(), str(x.m))
			}
			if x.a.First().Value() != x.m[0] || x.a.Last().Value() != x.m[k-1] || x.a.Begin().Value() != x.m[0] {
				t.Failf("array %d: First, Begin or Last do not give the first or last element of %s", w, str(x.m))
			}
		}
		if g := x.a.String(); g != listString(x.m) {
			t.Failf("array %d: String() = %q, expected %q", w, g, listString(x.m))
		}
	}
	swaps, sets := 0, 0
	t.Repeat(1, 30, func(int) {
		w := t.Pick(3, 2, 1)
		x := as[w]
		k := len(x.m)
		switch t.Pick(5, 1, 3, 3, 1) {
		case 0:
			if k > 0 {
				i, v := pos(t, k), el.gen()
				t.Log("array %d: set %d to %v", w, i, v)
				x.a.Set(i, v)
				x.m[i] = v
				sets++
			}
		case 1:
			v := el.gen()
			t.Log("array %d: fill with %v", w, v)
			x.a.Fill(v)
			for i := range x.m {
				x.m[i] = v
			}
			sets++
		case 2:
			if k > 0 {
				i, v := pos(t, k), el.gen()
				t.Log("array %d: iterator at %d sets %v", w, i, v)
				x.a.IterAt(i).SetValue(v)
				x.m[i] = v
				sets++
			}
		case 3:
			o := t.IntN(3)
			t.Log("array %d: swap with array %d", w, o)
			x.a.SwapArray(as[o].a)
			if len(as[o].m) == k {
				x.m, as[o].m = as[o].m, x.m
				swaps++
			}
		case 4:
			t.Log("array %d: copied from array", w)
			x.a = array.NewFromArray(x.a)
		}
		for w := range as {
			check(w)
		}
	})
	t.ClassIf(swaps > 0, "swaps")
	if n > 0 && sets > 0 {
		t.NonTrivial()
	}
}

func runWrapper[E comparable](t *T, el elems[E]) {
	top, same := 12, -1
	if t.Bool(1, 6) {
		top = 200
	}
	mkSlice := func() []E {
		n := t.Size(top) + 4
		if same >= 0 && t.Bool(1, 3) { // as long as the one before
			n = same
		}
		same = n
		back := make([]E, n)
		for i := range back {
			back[i] = el.gen()
		}
		lo := t.IntN(3)
		hi := lo + t.IntN(len(back)-lo+1)
		if t.Bool(1, 2) {
			lo, hi = 0, n
		}
		return back[lo:hi]
	}
	slices := [][]E{mkSlice(), mkSlice(), nil}
	// a full copy of each backing array, up to its capacity
	models := make([][]E, 3)
	for i, s := range slices {
		models[i] = cloneSlice(s[:cap(s)])
	}
	cur := 0
	w := slice.NewSliceWrapper(slices[0])
	t.Log("slice wrapper of %s, lengths %d and %d", el.name, len(slices[0]), len(slices[1]))
	attached, sets := 0, 0
	t.Repeat(1, 30, func(int) {
		n := len(slices[cur])
		switch t.Pick(4, 4, 3, 2) {
		case 0:
			if n > 0 {
				i, v := pos(t, n), el.gen()
				t.Log("set %d to %v through the wrapper", i, v)
				w.Set(i, v)
				models[cur][i] = v
				sets++
			}
		case 1:
			k := t.IntN(2)
			if len(slices[k]) > 0 {
				i, v := pos(t, len(slices[k])), el.gen()
				t.Log("set %d of slice %d to %v", i, k, v)
				slices[k][i] = v
				models[k][i] = v
				sets++
			}
		case 2:
			if n > 0 {
				i, v := pos(t, n), el.gen()
				t.Log("set %d to %v through an iterator", i, v)
				w.Begin().IteratorAt(i).SetValue(v)
				models[cur][i] = v
				sets++
			}
		case 3:
			cur = t.Pick(3, 3, 1)
			t.Log("attach slice %d", cur)
			w.Attach(slices[cur])
			attached++
		}
		n = len(slices[cur])
		if w.Len() != n {
			t.Failf("Len() = %d, the attached slice has %d", w.Len(), n)
		}
		for i := 0; i < n; i++ {
			if g := w.At(i); g != models[cur][i] {
				t.Failf("At(%d) = %v, expected %v", i, g, models[cur][i])
			}
		}
		for k, s := range slices {
			if !eqSlice(s[:cap(s)], models[k]) {
				t.Failf("slice %d (length %d) is %v over its whole capacity, expected %v", k, len(s), s[:cap(s)], models[k])
			}
		}
		if n > 0 && (w.First().Value() != models[cur][0] || w.Begin().Value() != models[cur][0] || !w.Last().IsValid() || w.Last().Value() != models[cur][n-1]) {
			t.Failf("First, Begin or Last do not refer to the first or last element")
		}
		i := 0
		for x := w.Begin(); !x.Equal(w.End()); x.Next() {
			if i >= n || x.Value() != models[cur][i] {
				t.Failf("an iteration, step %d, gives another element than the slice", i)
			}
			i++
		}
		if i != n {
			t.Failf("an iteration gives %d of %d elements", i, n)
		}
	})
	t.ClassIf(attached > 0, "another slice attached")
	if sets > 0 {
		t.NonTrivial()
	}
}

// ---- C15: random-access iterators

type raIter[E comparable] struct {
	x   iterator.RandomAccessIterator[E]
	c   int // container
	pos int
}

func runRA[E comparable](t *T, el elems[E]) {
	kind := seqKinds[t.Variant(4)]
	maxN := 10
	if kind == "deque" && t.Bool(1, 3) {
		maxN = 400
	}
	mk := func() ([]E, *seq[E]) {
		vals := make([]E, t.Size(maxN))
		fill := el.gen()
		for i := range vals {
			if i < 24 {
				fill = el.gen()
			}
			vals[i] = fill
		}
		return vals, newSeq(kind, vals, t.IntN(maxN+1))
	}
	var cs [3]*seq[E]
	var ms [3][]E
	ms[0], cs[0] = mk()
	ms[1] = cloneSlice(ms[0]) // equal contents, another container
	cs[1] = newSeq(kind, ms[1], t.IntN(maxN+1))
	other := seqKinds[(t.IntN(3)+1+t.Variant(4))%4]
	ms[2] = cloneSlice(ms[0])
	cs[2] = newSeq(other, ms[2], 0)
	t.Log("%s, %s and %s of %d %s", kind, kind, other, len(ms[0]), el.name)
	var its []*raIter[E]
	check := func(x *raIter[E], what string) {
		m := ms[x.c]
		ok := x.pos >= 0 && x.pos < len(m)
		if x.x.Position() != x.pos || x.x.IsValid() != ok {
			t.Failf("%s: %s: position %d, valid %v; expected position %d in %d elements", cs[x.c].kind, what, x.x.Position(), x.x.IsValid(), x.pos, len(m))
		}
		if ok && x.x.Value() != m[x.pos] {
			t.Failf("%s: %s: value %v at position %d, expected %v", cs[x.c].kind, what, x.x.Value(), x.pos, m[x.pos])
		}
	}
	add := func(x iterator.RandomAccessIterator[E], c, p int, what string) {
		r := &raIter[E]{x, c, p}
		check(r, what)
		if len(its) < 12 {
			its = append(its, r)
		} else {
			its[t.IntN(len(its))] = r
		}
	}
	moves, eqs := 0, 0
	t.Repeat(1, 50, func(int) {
		k := t.Pick(6, 8, 3, 3, 3, 2)
		if len(its) == 0 {
			k = 0
		}
		switch k {
		case 0:
			c := t.Pick(4, 2, 1)
			n := len(ms[c])
			switch t.IntN(6) {
			case 0:
				t.Log("Begin of %d", c)
				add(cs[c].begin(), c, 0, "Begin")
			case 1:
				t.Log("End of %d", c)
				add(cs[c].end(), c, n, "End")
			case 2:
				t.Log("First of %d", c)
				add(cs[c].first(), c, 0, "First")
			case 3:
				t.Log("Last of %d", c)
				add(cs[c].last(), c, n-1, "Last")
			default:
				p := pos(t, n+2) - 1
				t.Log("IterAt %d of %d", p, c)
				add(cs[c].iter(p), c, p, "IterAt")
			}
		case 1:
			x := its[t.IntN(len(its))]
			n := len(ms[x.c])
			if x.pos > n {
				break
			}
			moves++
			if t.Bool(3, 5) {
				t.Log("Next from %d", x.pos)
				if r := x.x.Next(); r != iterator.ConstIterator[E](x.x) {
					t.Failf("Next returns another iterator than itself")
				}
				x.pos = min(x.pos+1, n)
				check(x, "after Next")
			} else {
				t.Log("Prev from %d", x.pos)
				if r := x.x.Prev(); r != iterator.ConstBidIterator[E](x.x) {
					t.Failf("Prev returns another iterator than itself")
				}
				x.pos = max(x.pos-1, -1)
				check(x, "after Prev")
			}
		case 2:
			x := its[t.IntN(len(its))]
			v := el.gen()
			t.Log("write %v at %d", v, x.pos)
			if x.pos >= 0 && x.pos < len(ms[x.c]) {
				x.x.SetValue(v)
				ms[x.c][x.pos] = v
			} else {
				pbt.Try(func() { x.x.SetValue(v) }) // refused
			}
		case 3:
			x := its[t.IntN(len(its))]
			t.Log("clone of the iterator at %d", x.pos)
			add(x.x.Clone().(iterator.RandomAccessIterator[E]), x.c, x.pos, "Clone")
		case 4:
			x := its[t.IntN(len(its))]
			p := pos(t, len(ms[x.c])+2) - 1
			t.Log("IteratorAt %d of the iterator at %d", p, x.pos)
			add(x.x.IteratorAt(p), x.c, p, "IteratorAt")
			check(x, "after IteratorAt")
		case 5: // change the size
			c := t.IntN(3)
			if cs[c].push == nil {
				break
			}
			if t.Bool(1, 2) || len(ms[c]) == 0 {
				v := el.gen()
				t.Log("push %v to %d", v, c)
				cs[c].push(v)
				ms[c] = append(ms[c], v)
			} else {
				t.Log("pop from %d", c)
				cs[c].pop()
				ms[c] = ms[c][:len(ms[c])-1]
			}
		}
		for _, x := range its {
			check(x, "an iterator kept")
			for _, y := range its {
				want := x.c == y.c && x.pos == y.pos
				if x.x.Equal(y.x) != want {
					t.Failf("Equal of positions %d of container %d (%s) and %d of %d (%s) is %v", x.pos, x.c, cs[x.c].kind, y.pos, y.c, cs[y.c].kind, !want)
				}
				if want && x != y {
					eqs++
				}
			}
		}
		if len(ms[0]) < 30 || t.Bool(1, 6) {
			for c := range cs {
				cs[c].expect(t, ms[c])
			}
		}
	})
	for c := range cs {
		cs[c].expect(t, ms[c])
	}
	t.Class(kind)
	if moves > 0 && eqs > 0 && len(ms[0]) > 0 {
		t.NonTrivial()
	}
}

func elemPhase(name string, quick, thorough int, i func(*T, elems[int]), s func(*T, elems[string]), r func(*T, elems[rec]), p func(*T, elems[*int])) pbt.Phase {
	return pbt.Phase{Name: name, Quick: quick, Thorough: thorough, Run: func(t *T) {
		withElem(t, func(e elems[int]) { i(t, e) }, func(e elems[string]) { s(t, e) }, func(e elems[rec]) { r(t, e) }, func(e elems[*int]) { p(t, e) })
	}}
}

func init() {
	small := func(t *T, big bool) {
		withElem(t, func(e elems[int]) { runDeque(t, e, big) }, func(e elems[string]) { runDeque(t, e, big) },
			func(e elems[rec]) { runDeque(t, e, big) }, func(e elems[*int]) { runDeque(t, e, big) })
	}
	pbt.Register(pbt.Prop{ID: "C12",
		Rule:        "cases are histories of single and bulk pushes, pops, positional insertions and erasures, range erasures, sets and clears (up to 2500 elements, some twenty segments; positions around multiples of 128 favoured); the whole deque is compared with a slice after each step, by index, by iteration both ways and as a string. Non-trivial: something was removed and the deque held three or more elements.",
		Assumptions: []string{"one goroutine"},
		Phases: []pbt.Phase{{Name: "history", Quick: 600000, Thorough: 3000000, Run: func(t *T) { small(t, false) }},
			{Name: "large", Quick: 16000, Thorough: 800000, Run: func(t *T) { small(t, true) }}}})
	pbt.Register(pbt.Prop{ID: "C13",
		Rule:   "cases are histories of every vector operation (by index, iterator and range, capacity operations mixed in), compared with a slice after each step; returned iterators must stand where documented. Non-trivial: something was removed and the vector held three or more elements.",
		Phases: []pbt.Phase{elemPhase("history", 900000, 12000000, runVector[int], runVector[string], runVector[rec], runVector[*int])}})
	pbt.Register(pbt.Prop{ID: "C14",
		Rule:        "cases are histories over three arrays (two of equal length) or over a slice wrapper and the Go slices attached to it, with sets, fills, iterator writes, swaps and attachments; contents, and the whole backing array of each slice, are compared after each step. Non-trivial: something was written.",
		Assumptions: []string{"one goroutine"},
		Phases: []pbt.Phase{elemPhase("array", 450000, 6000000, runArray[int], runArray[string], runArray[rec], runArray[*int]),
			elemPhase("slice", 450000, 6000000, runWrapper[int], runWrapper[string], runWrapper[rec], runWrapper[*int])}})
	pbt.Register(pbt.Prop{ID: "C15",
		Rule:        "cases keep up to twelve iterators over three containers (two of one kind, with equal contents, and one of another kind) with a model position each, through moves, writes, clones, IteratorAt and changes of size; validity, value, position and all pairwise equalities are checked after each step. Non-trivial: iterators moved and two met.",
		Assumptions: []string{"positions asked for lie between -1 and the size"},
		Phases:      []pbt.Phase{elemPhase("iterators", 450000, 6000000, runRA[int], runRA[string], runRA[rec], runRA[*int])}})
}
