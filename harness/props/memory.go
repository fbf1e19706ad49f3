package props

import (
	"encoding/binary"
	"fmt"
	"runtime"
	"slices"

	"github.com/liyue201/gostl/ds/bitmap"
	bloom "github.com/liyue201/gostl/ds/bloomfilter"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/ketama"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	"github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/ds/stack"
	"github.com/liyue201/gostl/ds/vector"
	"verifharness/pbt"
)

// blob is an element that takes memory of its own.
type blob struct {
	n   int
	pad [56]byte
}

func cmpBlob(a, b *blob) int { return cmpInt(a.n, b.n) }

// keeper is a container under a memory watch.
type keeper struct {
	raw   any
	add   func(n int)
	drop  func() // removes one element; there is one
	clear func() // nil: none
	size  func() int
	gives bool // gives memory back as it empties
}

// heapInUse is the memory of all reachable objects.
func heapInUse() int64 {
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

var keeperKinds = []string{"deque", "vector", "queue", "stack", "priority queue", "bidlist", "simplelist",
	"rbtree", "map", "multimap", "set", "multiset", "skiplist", "hamt", "ketama"}

// newKeeper makes a container whose elements are added and dropped where mode says:
// 0 first in first out, 1 last in first out, 2 anywhere, 3 changing.
func newKeeper(kind string, mode int, list bool, rng *pbt.Rng) *keeper {
	if mode == 3 {
		mode = int(rng.N(3))
	}
	where := func(n int) int { // the position dropped
		switch mode {
		case 0:
			return 0
		case 1:
			return n - 1
		}
		return int(rng.N(uint64(n)))
	}
	var keys []int // in order of insertion; what a keyed container holds
	take := func() int {
		i := where(len(keys))
		k := keys[i]
		keys = slices.Delete(keys, i, i+1)
		return k
	}
	scatter := func(n int) int { return int(uint32(n) * 2654435761) } // distinct and in no order
	switch kind {
	case "deque":
		d := deque.New[*blob]()
		return &keeper{d, func(n int) {
			switch mode {
			case 2:
				if n%3 == 0 {
					d.Insert(int(rng.N(uint64(d.Size()+1))), &blob{n: n})
				} else if n%3 == 1 {
					d.PushFront(&blob{n: n})
				} else {
					d.PushBack(&blob{n: n})
				}
			default:
				d.PushBack(&blob{n: n})
			}
		}, func() {
			switch p := where(d.Size()); {
			case p == 0:
				d.PopFront()
			case p == d.Size()-1:
				d.PopBack()
			case rng.N(2) == 0:
				d.EraseAt(p)
			default:
				d.EraseRange(p, p+1)
			}
		}, d.Clear, d.Size, true}
	case "vector":
		v := vector.New[*blob]()
		return &keeper{v, func(n int) {
			if mode == 2 {
				v.InsertAt(int(rng.N(uint64(v.Size()+1))), &blob{n: n})
			} else {
				v.PushBack(&blob{n: n})
			}
		}, func() {
			if p := where(v.Size()); p == v.Size()-1 {
				v.PopBack()
			} else {
				v.EraseAt(p)
			}
		}, v.Clear, v.Size, false}
	case "queue":
		var opts []queue.Option[*blob]
		if list {
			opts = append(opts, queue.WithListContainer[*blob]())
		}
		q := queue.New(opts...)
		return &keeper{q, func(n int) { q.Push(&blob{n: n}) }, func() { q.Pop() }, q.Clear, q.Size, true}
	case "stack":
		var opts []stack.Option[*blob]
		if list {
			opts = append(opts, stack.WithListContainer[*blob]())
		}
		s := stack.New(opts...)
		return &keeper{s, func(n int) { s.Push(&blob{n: n}) }, func() { s.Pop() }, s.Clear, s.Size, true}
	case "priority queue":
		q := priorityqueue.New(cmpBlob)
		return &keeper{q, func(n int) {
			switch mode {
			case 1:
				n = -n
			case 2:
				n = scatter(n)
			}
			q.Push(&blob{n: n})
		}, func() { q.Pop() }, q.Clear, q.Size, false}
	case "bidlist":
		l := bidlist.New[*blob]()
		var nodes []*bidlist.Node[*blob]
		return &keeper{l, func(n int) {
			if mode == 2 && len(nodes) > 0 {
				at := nodes[rng.N(uint64(len(nodes)))]
				if n%2 == 0 {
					l.InsertBefore(&blob{n: n}, at)
					if at = at.Prev(); at == nil {
						at = l.FrontNode()
					}
				} else {
					l.InsertAfter(&blob{n: n}, at)
					if at = at.Next(); at == nil {
						at = l.BackNode()
					}
				}
				nodes = append(nodes, at)
				return
			}
			l.PushBack(&blob{n: n})
			nodes = append(nodes, l.BackNode())
		}, func() {
			i := where(len(nodes))
			l.Remove(nodes[i])
			nodes = slices.Delete(nodes, i, i+1)
		}, func() { l.Clear(); nodes = nil }, l.Len, true}
	case "simplelist":
		l := simplelist.New[*blob]()
		return &keeper{l, func(n int) {
			if mode == 1 {
				l.PushFront(&blob{n: n})
			} else {
				l.PushBack(&blob{n: n})
			}
		}, func() {
			p := 0
			if mode == 2 {
				p = where(min(l.Len(), 20))
			}
			var before *simplelist.Node[*blob]
			x := l.FrontNode()
			for ; p > 0; p-- {
				before, x = x, x.Next()
			}
			l.Remove(before, x)
		}, nil, l.Len, true}
	case "rbtree":
		l := rbtree.New[*blob, *blob](cmpBlob)
		return &keeper{l, func(n int) {
			n = scatter(n)
			keys = append(keys, n)
			l.Insert(&blob{n: n}, &blob{n: n})
		}, func() { l.Delete(l.FindNode(&blob{n: take()})) }, func() { l.Clear(); keys = nil }, l.Size, true}
	case "map":
		l := treemap.New[*blob, *blob](cmpBlob)
		return &keeper{l, func(n int) {
			n = scatter(n)
			keys = append(keys, n)
			l.Insert(&blob{n: n}, &blob{n: n})
			if n%5 == 0 {
				l.Insert(&blob{n: n}, &blob{n: n})
			}
		}, func() {
			k := &blob{n: take()}
			if k.n%2 == 0 {
				l.Erase(k)
			} else {
				l.EraseIter(l.Find(k))
			}
		}, func() { l.Clear(); keys = nil }, l.Size, true}
	case "multimap":
		l := treemap.NewMultiMap[*blob, *blob](cmpBlob)
		return &keeper{l, func(n int) {
			n = scatter(n)
			keys = append(keys, n)
			l.Insert(&blob{n: n}, &blob{n: n})
			l.Insert(&blob{n: n}, &blob{n: n})
		}, func() { l.Erase(&blob{n: take()}) }, func() { l.Clear(); keys = nil }, l.Size, true}
	case "set":
		l := set.New(cmpBlob)
		return &keeper{l, func(n int) {
			n = scatter(n)
			keys = append(keys, n)
			l.Insert(&blob{n: n})
			l.Insert(&blob{n: n})
		}, func() { l.Erase(&blob{n: take()}) }, func() { l.Clear(); keys = nil }, l.Size, true}
	case "multiset":
		l := set.NewMultiSet(cmpBlob)
		return &keeper{l, func(n int) {
			n = scatter(n)
			keys = append(keys, n)
			l.Insert(&blob{n: n})
			l.Insert(&blob{n: n})
		}, func() {
			k := &blob{n: take()}
			if k.n%2 == 0 {
				l.EraseAll(k)
			} else {
				l.Erase(k)
				l.Erase(k)
			}
		}, func() { l.Clear(); keys = nil }, l.Size, true}
	case "skiplist":
		l := skiplist.New[*blob, *blob](cmpBlob)
		return &keeper{l, func(n int) {
			n = scatter(n)
			keys = append(keys, n)
			l.Insert(&blob{n: n}, &blob{n: n})
			if n%5 == 0 {
				l.Insert(&blob{n: n}, &blob{n: n})
			}
		}, func() { l.Remove(&blob{n: take()}) }, nil, l.Len, true}
	case "hamt":
		l := hamt.New[*blob]()
		size := 0
		key := func(n int) hamt.Key {
			if n%2 == 0 { // eight in turn agree in the low bits of their hashes
				n /= 2
				c := fnvChains[n/8%len(fnvChains)]
				var k []byte
				for i, p := range c.pairs {
					k = binary.LittleEndian.AppendUint64(k, p[n>>i&1])
				}
				return binary.LittleEndian.AppendUint32(k, uint32(n/8))
			}
			return binary.LittleEndian.AppendUint32(nil, uint32(n))
		}
		return &keeper{l, func(n int) {
			k := key(n)
			if _, err := l.Get(k); err != nil {
				keys = append(keys, n)
				size++
			}
			l.Insert(k, &blob{n: n})
		}, func() {
			k := key(take())
			l.Erase(k)
			size--
		}, nil, func() int { return size }, true}
	case "ketama":
		l := ketama.New(ketama.WithReplicas(3))
		return &keeper{l, func(n int) {
			keys = append(keys, n)
			l.Add(name64(n))
		}, func() { l.Remove(name64(take())) }, nil, func() int { return len(keys) }, true}
	}
	panic(kind)
}

func name64(n int) string { return fmt.Sprintf("%060d", n) }

func runMemory(t *T) {
	kind := keeperKinds[t.Variant(len(keeperKinds))]
	mode, list := t.IntN(4), t.Bool(1, 2)
	rng := pbt.NewRng(t.Uniform64())
	most := 1 + t.Size(200)
	steps := 20000
	slow := kind == "ketama"
	if slow {
		most, steps = min(most, 40), 1500
	}
	if t.Thorough() {
		steps *= 4
	}
	emptied := t.Bool(1, 2)
	k := newKeeper(kind, mode, list, rng) // a first one, for what is allocated once and for all
	k.add(1)
	k.drop()
	before := heapInUse()
	k = newKeeper(kind, mode, list, rng)
	// phases of growing to most, hovering and thinning, never above most elements
	added, live, n := 0, 0, 0
	up := true
	for n < steps {
		n++
		t.Tick()
		if live >= most {
			up = false
		} else if live == 0 || rng.N(64) == 0 {
			up = true
		}
		if up && rng.N(8) != 0 || live == 0 {
			added++
			k.add(added)
			live++
		} else {
			k.drop()
			live--
		}
		if k.clear != nil && rng.N(5000) == 0 {
			k.clear()
			live = 0
		}
	}
	t.Log("%s, mode %d: at most %d elements, %d added, %d left", kind, mode, most, added, live)
	held := heapInUse() - before
	perElement, base := int64(600), int64(300_000)
	if slow {
		perElement = 3 * 600
	}
	if limit := perElement*int64(most) + base; held > limit {
		t.Failf("%s (mode %d, list %v), %d elements added one at a time and never more than %d there: it takes %d bytes, more than %d", kind, mode, list, added, most, held, limit)
	}
	if emptied && k.gives {
		// grow a lot and empty it again
		top := 3000
		if slow {
			top = 100
		}
		for i := 0; i < top; i++ {
			added++
			k.add(added)
		}
		full := heapInUse() - before
		if k.clear != nil && rng.N(2) == 0 {
			k.clear()
		} else {
			for k.size() > 0 {
				k.drop()
			}
		}
		held = heapInUse() - before
		t.Log("%d more take %d bytes; %d are left when it is empty", top, full, held)
		if limit := int64(60_000); held > limit {
			t.Failf("%s (mode %d, list %v), grown by %d elements to %d bytes and emptied: it takes %d bytes, more than %d", kind, mode, list, top, full, held, limit)
		}
	}
	runtime.KeepAlive(k)
	t.Class(kind)
	t.ClassIf(emptied && k.gives, "emptied")
	t.NonTrivial()
}

// runBits checks that bit containers take about a bit per bit.
func runBits(t *T) {
	n := uint64(1+t.IntN(1<<20)) << uint(t.IntN(5))
	which := t.Variant(3)
	before := heapInUse()
	var keep []any
	switch which {
	case 0:
		b := bitmap.New(n)
		switch t.IntN(4) {
		case 0:
			b = bitmap.New(n * uint64(t.IntN(20)) / 5)
			b.Resize(n)
		case 1:
			b.Clear()
		case 2:
			b.Resize(n / 3)
			b.Clear()
			b.Resize(n)
		}
		for i := uint64(0); i < 2000; i++ {
			b.Set(i * n / 2000)
		}
		keep = append(keep, b)
	case 1:
		b := bloom.New(n, 3)
		for i := 0; i < 2000; i++ {
			b.Add(fmt.Sprint("element", i))
		}
		keep = append(keep, b)
	case 2:
		count := min(n/16, 200_000) + 10
		b := bloom.NewWithEstimates(count, 0.01)
		for i := 0; i < 2000; i++ {
			b.Add(fmt.Sprint("element", i))
		}
		n = count * 10
		keep = append(keep, b)
	}
	held := heapInUse() - before
	runtime.KeepAlive(keep)
	name := []string{"bitmap", "bloom filter", "estimated bloom filter"}[which]
	t.Log("%s of %d bits: %d bytes", name, n, held)
	if limit := int64(n/8)*5/4 + 20_000; held > limit {
		t.Failf("a %s of %d bits takes %d bytes, more than %d", name, n, held, limit)
	}
	t.Class(name)
	if n > 1<<18 {
		t.NonTrivial()
	}
}

func init() {
	pbt.Register(pbt.Prop{
		ID:   "C45",
		Rule: "every container case adds so many elements in turn that keeping them would exceed the bound; bit containers of over 2^18 bits",
		Assumptions: []string{"memory is that of the objects reachable after a collection",
			"bound: 600 bytes per element held at the peak (64 of them the element's own; three points of a ring per node) plus 300000; 60000 when emptied",
			"vector and priority queue keep the capacity of their peak"},
		Phases: []pbt.Phase{
			{Name: "held", Quick: 3000, Thorough: 6000, Run: runMemory},
			{Name: "bits", Quick: 600, Thorough: 3000, Run: runBits},
		},
	})
}
