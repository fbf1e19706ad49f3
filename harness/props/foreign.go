package props

import (
	"fmt"
	"strings"

	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	"github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/iterator"
)

// namedIt is an iterator with the container and type it belongs to.
type namedIt struct {
	kind, where string
	seq         bool
	i           iterator.ConstIterator[int]
}

// runForeign compares iterators of different kinds of containers that hold the same elements.
// Those of sequences take part as arguments only.
func runForeign(t *T) {
	n := t.IntN(5)
	vals := make([]int, n)
	for i := range vals {
		vals[i] = i
		if t.Bool(1, 4) {
			vals[i] = 0
		}
	}
	v, d, bl, sl := vector.New[int](), deque.New[int](), bidlist.New[int](), simplelist.New[int]()
	a := array.New[int](n)
	w := slice.NewSliceWrapper(cloneSlice(vals))
	m, mm := treemap.New[int, int](cmpInt), treemap.NewMultiMap[int, int](cmpInt)
	s, ms := set.New[int](cmpInt), set.NewMultiSet[int](cmpInt)
	tr := rbtree.New[int, int](cmpInt)
	for i, x := range vals {
		v.PushBack(x)
		d.PushBack(x)
		bl.PushBack(x)
		sl.PushBack(x)
		a.Set(i, x)
		m.Insert(i, x)
		mm.Insert(i, x)
		s.Insert(x)
		ms.Insert(x)
		tr.Insert(i, x)
	}
	var its []namedIt
	add := func(kind, where string, seq bool, i iterator.ConstIterator[int]) {
		its = append(its, namedIt{kind, where, seq, i})
	}
	ends := func(kind string, seq bool, begin func() iterator.ConstIterator[int]) {
		add(kind, "begin", seq, begin())
		it := begin()
		steps := t.IntN(n + 1)
		for i := 0; i < steps && it.IsValid(); i++ {
			it = it.Next()
		}
		add(kind, fmt.Sprintf("begin + %d", steps), seq, it)
	}
	ends("vector", true, func() iterator.ConstIterator[int] { return v.Begin() })
	ends("deque", true, func() iterator.ConstIterator[int] { return d.Begin() })
	ends("array", true, func() iterator.ConstIterator[int] { return a.Begin() })
	ends("slice", true, func() iterator.ConstIterator[int] { return w.Begin() })
	ends("bidlist", false, func() iterator.ConstIterator[int] { return bidlist.NewIterator(bl.FrontNode()) })
	ends("simplelist", false, func() iterator.ConstIterator[int] { return simplelist.NewIterator(sl.FrontNode()) })
	ends("map", false, func() iterator.ConstIterator[int] { return m.Begin() })
	ends("map", false, func() iterator.ConstIterator[int] { return mm.Begin() })
	ends("set", false, func() iterator.ConstIterator[int] { return s.Begin() })
	ends("set", false, func() iterator.ConstIterator[int] { return ms.Begin() })
	ends("rbtree", false, func() iterator.ConstIterator[int] { return tr.IterFirst() })
	t.Log("containers of %v: %s", vals, func() string {
		var b strings.Builder
		for _, x := range its {
			fmt.Fprintf(&b, "%s %s; ", x.kind, x.where)
		}
		return b.String()
	}())
	for _, x := range its {
		for _, y := range its {
			if !x.seq && x.kind != y.kind && x.i.Equal(y.i) {
				t.Failf("a %s iterator (%s) equals a %s iterator (%s)", x.kind, x.where, y.kind, y.where)
			}
		}
	}
	if n > 0 {
		t.NonTrivial()
	}
}
