package props

import (
	"fmt"

	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	"verifharness/pbt"
)

// elems makes elements of a generated type.
type elems[E comparable] struct {
	name string
	gen  func() E // any element; small domains make equal ones likely
}

type rec struct {
	A int
	B string
}

// withElem runs one of the generic functions with an element type.
func withElem(t *T, i func(elems[int]), s func(elems[string]), r func(elems[rec]), p func(elems[*int])) {
	n := 0
	switch t.Pick(5, 3, 1, 1) {
	case 0:
		small := t.Bool(1, 3)
		i(elems[int]{"int", func() int {
			if small {
				return t.IntN(3)
			}
			n++
			return n
		}})
	case 1:
		s(elems[string]{"string", func() string {
			if t.Bool(1, 3) {
				return ""
			}
			n++
			return fmt.Sprintf("s%d", n)
		}})
	case 2:
		r(elems[rec]{"struct", func() rec { n++; return rec{n, fmt.Sprint(n % 3)} }})
	default:
		p(elems[*int]{"pointer", func() *int {
			if t.Bool(1, 5) {
				return nil
			}
			n++
			v := n
			return &v
		}})
	}
}

// ---- C16: bidlist

type blist[E comparable] struct {
	l     *bidlist.List[E]
	nodes []*bidlist.Node[E]
	vals  []E
	name  string
}

func (b *blist[E]) check(t *T) {
	n := len(b.vals)
	if b.l.Len() != n || b.l.Size() != n || b.l.Empty() != (n == 0) {
		t.Failf("%s: Len %d, Size %d, Empty %v, expected %d elements", b.name, b.l.Len(), b.l.Size(), b.l.Empty(), n)
	}
	x := b.l.FrontNode()
	for i := 0; i < n; i++ {
		if x == nil {
			t.Failf("%s: a forward walk ends after %d of %d elements; expected %s", b.name, i, n, str(b.vals))
		}
		if x.Value != b.vals[i] {
			t.Failf("%s: element %d is %v walking forwards; expected %s", b.name, i, x.Value, str(b.vals))
		}
		if b.nodes[i] != nil && x != b.nodes[i] {
			t.Failf("%s: node %d (value %v) is another node than the one put there; expected %s", b.name, i, x.Value, str(b.vals))
		}
		b.nodes[i] = x
		x = x.Next()
	}
	if x != nil {
		t.Failf("%s: a forward walk goes past %d elements; expected %s", b.name, n, str(b.vals))
	}
	x = b.l.BackNode()
	for i := n - 1; i >= 0; i-- {
		if x != b.nodes[i] {
			t.Failf("%s: a reverse walk does not give the node at %d; expected %s", b.name, i, str(b.vals))
		}
		x = x.Prev()
	}
	if x != nil {
		t.Failf("%s: a reverse walk goes past %d elements", b.name, n)
	}
	if n > 0 {
		if b.l.Front() != b.vals[0] || b.l.Back() != b.vals[n-1] {
			t.Failf("%s: Front %v, Back %v; expected %s", b.name, b.l.Front(), b.l.Back(), str(b.vals))
		}
	}
}

func (b *blist[E]) checkForms(t *T) {
	if s := b.l.String(); s != listString(b.vals) {
		t.Failf("%s: String() = %q, expected %q", b.name, s, listString(b.vals))
	}
	i := 0
	b.l.Traversal(func(v E) bool {
		if i >= len(b.vals) || v != b.vals[i] {
			t.Failf("%s: visit %d of the traversal gives %v; expected %s", b.name, i, v, str(b.vals))
		}
		i++
		return true
	})
	if i != len(b.vals) {
		t.Failf("%s: the traversal visits %d of %d elements", b.name, i, len(b.vals))
	}
}

func (b *blist[E]) put(i int, v E, n *bidlist.Node[E]) {
	b.vals = insertSlice(b.vals, i, v)
	b.nodes = insertSlice(b.nodes, i, n)
}

func (b *blist[E]) drop(i int) *bidlist.Node[E] {
	n := b.nodes[i]
	b.vals, b.nodes = removeSlice(b.vals, i), removeSlice(b.nodes, i)
	return n
}

func runBidlist[E comparable](t *T, el elems[E]) {
	t.Log("bidlists of %s", el.name)
	ls := []*blist[E]{{l: bidlist.New[E](), name: "list 0"}, {l: new(bidlist.List[E]), name: "list 1"}}
	var dead []*bidlist.Node[E]
	moves, refused, joined := 0, 0, 0
	maxN := 0
	if t.Bool(1, 64) { // the history starts on a longer list
		for n := t.Size(300); n > 0; n-- {
			v := el.gen()
			ls[0].l.PushBack(v)
			ls[0].put(len(ls[0].vals), v, nil)
		}
		ls[0].check(t)
		t.Log("%s starts with %d elements", ls[0].name, len(ls[0].vals))
	}
	t.Repeat(1, 60, func(int) {
		w := t.Pick(3, 1)
		b, o := ls[w], ls[1-w]
		// a node of b (mostly), of the other list or of none
		node := func() (*bidlist.Node[E], int) {
			switch t.Pick(8, 1, 1) {
			case 1:
				if len(o.nodes) > 0 {
					return o.nodes[t.IntN(len(o.nodes))], -1
				}
			case 2:
				if len(dead) > 0 {
					return dead[t.IntN(len(dead))], -1
				}
			}
			if len(b.nodes) == 0 {
				return nil, -1
			}
			i := t.IntN(len(b.nodes))
			if t.Bool(1, 3) {
				i = []int{0, len(b.nodes) - 1}[t.IntN(2)]
			}
			return b.nodes[i], i
		}
		one := func(what string) (*bidlist.Node[E], int, bool) {
			n, i := node()
			if n == nil {
				return nil, 0, false
			}
			t.Log("%s: %s node %d (-1: of no or another list)", b.name, what, i)
			if i < 0 {
				refused++
			}
			return n, i, true
		}
		switch t.Pick(4, 4, 2, 2, 3, 3, 4, 3, 3, 5, 3, 3, 1, 1) {
		case 0:
			v := el.gen()
			t.Log("%s: PushBack %v", b.name, v)
			b.l.PushBack(v)
			b.put(len(b.vals), v, nil)
		case 1:
			v := el.gen()
			t.Log("%s: PushFront %v", b.name, v)
			b.l.PushFront(v)
			b.put(0, v, nil)
		case 2, 3:
			back := t.Bool(1, 2)
			t.Log("%s: pop, at the back %v", b.name, back)
			pop, i := b.l.PopFront, 0
			if back {
				pop, i = b.l.PopBack, len(b.vals)-1
			}
			if len(b.vals) == 0 {
				refused++
				if !pbt.Panics(func() { pop() }) {
					t.Failf("%s: a pop of the empty list did not panic", b.name)
				}
				break
			}
			want := b.vals[i]
			if v := pop(); v != want {
				t.Failf("%s: pop gives %v, expected %v", b.name, v, want)
			}
			dead = append(dead, b.drop(i))
		case 4, 5:
			before := t.Bool(1, 2)
			n, i, ok := one("insert before/after")
			if !ok {
				break
			}
			v := el.gen()
			t.Log("  %v, before %v", v, before)
			var got *bidlist.Node[E]
			if before {
				got = b.l.InsertBefore(v, n)
			} else {
				got = b.l.InsertAfter(v, n)
				i++
			}
			if n2 := got; i >= 0 && !(i == 0 && !before) {
				if n2 == nil || n2.Value != v {
					t.Failf("%s: the insertion does not return the new node", b.name)
				}
				b.put(i, v, n2)
			}
		case 6:
			n, i, ok := one("Remove")
			if !ok {
				break
			}
			want := n.Value
			if v := b.l.Remove(n); v != want {
				t.Failf("%s: Remove gives %v, expected %v", b.name, v, want)
			}
			if i >= 0 {
				dead = append(dead, b.drop(i))
			}
		case 7, 8:
			front := t.Bool(1, 2)
			n, i, ok := one("move to front/back")
			if !ok {
				break
			}
			t.Log("  to the front %v", front)
			moves++
			if front {
				b.l.MoveToFront(n)
			} else {
				b.l.MoveToBack(n)
			}
			if i >= 0 {
				v := b.vals[i]
				b.drop(i)
				if front {
					b.put(0, v, n)
				} else {
					b.put(len(b.vals), v, n)
				}
			}
		case 9:
			n, i, ok := one("MoveAfter: move")
			if !ok {
				break
			}
			m, j, ok := one("  after")
			if !ok {
				break
			}
			moves++
			b.l.MoveAfter(n, m)
			if i >= 0 && j >= 0 && i != j {
				v := b.vals[i]
				b.drop(i)
				if j > i {
					j--
				}
				b.put(j+1, v, n)
			}
		case 10, 11:
			src, front := o, t.Bool(1, 2)
			if t.Bool(1, 3) {
				src = b
			}
			if len(b.vals)+len(src.vals) > 200 {
				break
			}
			t.Log("%s: append a list of %d, to the front %v, itself %v", b.name, len(src.vals), front, src == b)
			joined++
			vs := cloneSlice(src.vals)
			none := make([]*bidlist.Node[E], len(vs))
			if front {
				b.l.PushFrontList(src.l)
				b.vals, b.nodes = append(vs, b.vals...), append(none, b.nodes...)
			} else {
				b.l.PushBackList(src.l)
				b.vals, b.nodes = append(b.vals, vs...), append(b.nodes, none...)
			}
		case 12:
			if t.Bool(1, 2) {
				t.Log("%s: Clear", b.name)
				b.l.Clear()
				dead = append(dead, b.nodes...)
				b.vals, b.nodes = nil, nil
			}
		case 13:
			if len(b.nodes) > 0 {
				i := t.IntN(len(b.nodes))
				v := el.gen()
				t.Log("%s: node %d gets value %v", b.name, i, v)
				b.nodes[i].Value = v
				b.vals[i] = v
			}
		}
		maxN = max(maxN, len(b.vals))
		for _, l := range ls {
			l.check(t)
		}
		for i := max(0, len(dead)-6); i < len(dead); i++ {
			if dead[i].Next() != nil || dead[i].Prev() != nil {
				t.Failf("%s: a removed node (value %v) still has neighbours", b.name, dead[i].Value)
			}
		}
		if t.Bool(1, 4) {
			b.checkForms(t)
		}
	})
	for _, l := range ls {
		l.checkForms(t)
	}
	t.ClassIf(moves > 0, "moves")
	t.ClassIf(refused > 0, "foreign nodes or pops of an empty list")
	t.ClassIf(joined > 0, "lists appended")
	if maxN >= 3 {
		t.NonTrivial()
	}
}

// ---- C17: simplelist

type slist[E comparable] struct {
	l     *simplelist.List[E]
	nodes []*simplelist.Node[E]
	vals  []E
	name  string
}

func (b *slist[E]) check(t *T) {
	n := len(b.vals)
	if b.l.Len() != n {
		t.Failf("%s: Len %d, expected %d", b.name, b.l.Len(), n)
	}
	x := b.l.FrontNode()
	for i := 0; i < n; i++ {
		if x == nil {
			t.Failf("%s: a walk ends after %d of %d elements; expected %s", b.name, i, n, str(b.vals))
		}
		if x.Value != b.vals[i] {
			t.Failf("%s: element %d is %v; expected %s", b.name, i, x.Value, str(b.vals))
		}
		if b.nodes[i] != nil && x != b.nodes[i] {
			t.Failf("%s: node %d (value %v) is another node than the one put there; expected %s", b.name, i, x.Value, str(b.vals))
		}
		b.nodes[i] = x
		x = x.Next()
	}
	if x != nil {
		t.Failf("%s: a walk goes past %d elements; expected %s", b.name, n, str(b.vals))
	}
	if n == 0 {
		if b.l.BackNode() != nil {
			t.Failf("%s: the empty list has a back node", b.name)
		}
	} else if b.l.BackNode() != b.nodes[n-1] {
		t.Failf("%s: BackNode is not the last node; expected %s", b.name, str(b.vals))
	}
}

func (b *slist[E]) checkForms(t *T) {
	if s := b.l.String(); s != listString(b.vals) {
		t.Failf("%s: String() = %q, expected %q", b.name, s, listString(b.vals))
	}
	i := 0
	b.l.Traversal(func(v E) bool {
		if i >= len(b.vals) || v != b.vals[i] {
			t.Failf("%s: visit %d of the traversal gives %v; expected %s", b.name, i, v, str(b.vals))
		}
		i++
		return true
	})
	if i != len(b.vals) {
		t.Failf("%s: the traversal visits %d of %d elements", b.name, i, len(b.vals))
	}
}

func (b *slist[E]) put(i int, v E, n *simplelist.Node[E]) {
	b.vals = insertSlice(b.vals, i, v)
	b.nodes = insertSlice(b.nodes, i, n)
}

func (b *slist[E]) drop(i int) *simplelist.Node[E] {
	n := b.nodes[i]
	b.vals, b.nodes = removeSlice(b.vals, i), removeSlice(b.nodes, i)
	return n
}

func (b *slist[E]) at(i int) *simplelist.Node[E] {
	if i < 0 || i >= len(b.nodes) {
		return nil
	}
	return b.nodes[i]
}

func runSimplelist[E comparable](t *T, el elems[E]) {
	t.Log("simplelists of %s", el.name)
	ls := []*slist[E]{{l: simplelist.New[E](), name: "list 0"}, {l: new(simplelist.List[E]), name: "list 1"}}
	var dead []*simplelist.Node[E]
	moves, refused, removed, maxN := 0, 0, 0, 0
	if t.Bool(1, 20) { // the history starts on a longer list
		for n := t.Size(300); n > 0; n-- {
			v := el.gen()
			ls[0].l.PushBack(v)
			ls[0].put(len(ls[0].vals), v, nil)
		}
		ls[0].check(t)
		t.Log("%s starts with %d elements", ls[0].name, len(ls[0].vals))
	}
	t.Repeat(1, 50, func(int) {
		w := t.Pick(3, 1)
		b, o := ls[w], ls[1-w]
		pos := func() int {
			if t.Bool(1, 3) {
				return []int{0, len(b.nodes) - 1}[t.IntN(2)]
			}
			return t.IntN(len(b.nodes))
		}
		k := t.Pick(4, 4, 4, 4, 3, 3, 1, 1)
		if len(b.nodes) == 0 && k >= 2 && k <= 5 {
			k = t.IntN(2)
		}
		switch k {
		case 0:
			v := el.gen()
			t.Log("%s: PushBack %v", b.name, v)
			b.l.PushBack(v)
			b.put(len(b.vals), v, nil)
		case 1:
			v := el.gen()
			t.Log("%s: PushFront %v", b.name, v)
			b.l.PushFront(v)
			b.put(0, v, nil)
		case 2:
			i, v := pos(), el.gen()
			t.Log("%s: InsertAfter %v, node %d", b.name, v, i)
			n := b.l.InsertAfter(v, b.nodes[i])
			if n == nil || n.Value != v {
				t.Failf("%s: InsertAfter does not return the new node", b.name)
			}
			b.put(i+1, v, n)
		case 3:
			i := pos()
			t.Log("%s: Remove node %d", b.name, i)
			n := b.nodes[i]
			want := b.vals[i]
			if v := b.l.Remove(b.at(i-1), n); v != want {
				t.Failf("%s: Remove gives %v, expected %v", b.name, v, want)
			}
			dead = append(dead, b.drop(i))
			removed++
		case 4, 5:
			i := pos()
			front := k == 4
			t.Log("%s: move node %d, to the front %v", b.name, i, front)
			n, v := b.nodes[i], b.vals[i]
			if front {
				b.l.MoveToFront(b.at(i-1), n)
			} else {
				b.l.MoveToBack(b.at(i-1), n)
			}
			b.drop(i)
			if front {
				b.put(0, v, n)
			} else {
				b.put(len(b.vals), v, n)
			}
			moves++
		case 6:
			pool := append(cloneSlice(o.nodes), dead...)
			if len(pool) > 0 {
				n := pool[t.IntN(len(pool))]
				t.Log("%s: InsertAfter a node of another or no list", b.name)
				b.l.InsertAfter(el.gen(), n)
				refused++
			}
		case 7:
			if len(b.nodes) > 0 {
				i, v := pos(), el.gen()
				t.Log("%s: node %d gets value %v", b.name, i, v)
				b.nodes[i].Value = v
				b.vals[i] = v
			}
		}
		maxN = max(maxN, len(b.vals))
		for _, l := range ls {
			l.check(t)
		}
		if t.Bool(1, 4) {
			b.checkForms(t)
		}
	})
	for _, l := range ls {
		l.checkForms(t)
	}
	t.ClassIf(moves > 0, "moves")
	t.ClassIf(removed > 0, "removals")
	t.ClassIf(refused > 0, "foreign nodes")
	if maxN >= 3 && (moves > 0 || removed > 0) {
		t.NonTrivial()
	}
}

func init() {
	pbt.Register(pbt.Prop{ID: "C16",
		Rule:        "cases are histories over two lists of one element type with every operation on nodes of the list, of the other list and of none (removed, popped, cleared), lists appended to themselves and to empty ones; after each step both lists are compared with a slice of values and nodes, forwards and backwards. Non-trivial: a list held three or more elements.",
		Assumptions: []string{"nodes and lists passed are not nil"},
		Phases: []pbt.Phase{{Name: "history", Quick: 900000, Thorough: 12000000, Run: func(t *T) {
			withElem(t, func(e elems[int]) { runBidlist(t, e) }, func(e elems[string]) { runBidlist(t, e) },
				func(e elems[rec]) { runBidlist(t, e) }, func(e elems[*int]) { runBidlist(t, e) })
		}}}})
	pbt.Register(pbt.Prop{ID: "C17",
		Rule:        "cases are histories over two lists of one element type: pushes, insertions after own and foreign nodes, removals and moves of a node given with its predecessor (ends favoured); after each step both lists are compared with a slice of values and nodes. Non-trivial: a list held three or more elements and something was moved or removed.",
		Assumptions: []string{"the predecessor passed is the node's predecessor (nil for the front node)"},
		Phases: []pbt.Phase{{Name: "history", Quick: 900000, Thorough: 12000000, Run: func(t *T) {
			withElem(t, func(e elems[int]) { runSimplelist(t, e) }, func(e elems[string]) { runSimplelist(t, e) },
				func(e elems[rec]) { runSimplelist(t, e) }, func(e elems[*int]) { runSimplelist(t, e) })
		}}}})
}
