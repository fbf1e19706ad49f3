package props

import (
	"fmt"
	"sort"
	"strings"

	bloom "github.com/liyue201/gostl/ds/bloomfilter"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/ketama"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/ds/stack"
	"verifharness/pbt"
)

// csys is a goroutine-safe container with its sequential model.
type csys struct {
	init  []int
	gen   func() *cop   // an operation
	fill  func() *cop   // an operation that lets it grow
	bulk  func() *cop   // if any: one that adds an element the operations leave alone
	final func() []*cop // operations that show the contents
	roles []func() *cop // if any: what each thread of a scenario keeps doing
	own   int           // the thread operations are generated for, -1: none
}

func upd(st []int, i int, v int) []int {
	out := cloneSlice(st)
	out[i] = v
	return out
}

func read(name string, run func() string, f func(st []int) string) *cop {
	return &cop{name, run, func(st []int) ([]int, string) { return st, f(st) }}
}

func write(name string, run func(), f func(st []int) []int) *cop {
	return &cop{name, func() string { run(); return "" }, func(st []int) ([]int, string) { return f(st), "" }}
}

func yes(b bool) string {
	if b {
		return "yes"
	}
	return "no"
}

func pairStr(k, v int) string { return fmt.Sprintf("%d:%d ", k, v) }

// pairs of the model: key, value, key, value, ..., sorted by key
func pairAt(st []int, k int) (lo, hi int) {
	for lo = 0; lo < len(st) && st[lo] < k; lo += 2 {
	}
	for hi = lo; hi < len(st) && st[hi] == k; hi += 2 {
	}
	return
}

func cutPairs(st []int, lo, hi int) []int {
	return append(cloneSlice(st[:lo]), st[hi:]...)
}

func addPair(st []int, at, k, v int) []int {
	return append(append(cloneSlice(st[:at]), k, v), st[at:]...)
}

func pairsUpTo(st []int, n int) string {
	var b strings.Builder
	for i := 0; i < len(st) && i/2 < n; i += 2 {
		b.WriteString(pairStr(st[i], st[i+1]))
	}
	return b.String()
}

// kvOps are the operations of a map-like container.
type kvOps struct {
	insert   func(k, v int)
	get      func(k int) (int, error)
	erase    func(k int) string // "": says nothing
	says     bool
	contains func(int) bool
	size     func() int
	clear    func()
	visit    func(func(k, v int) bool)
	keys     func() []int
	valid    map[string]func(k int) bool // searches: whether they find something
	eraseAt  func(k int)                 // erases k, which is there, through an iterator
	multi    bool
	sorted   bool // false: visits in some order
}

// filler is a key that the operations do not use.
func filler(t *T, below bool) int {
	if below && t.Bool(1, 3) {
		return -1 - t.IntN(200)
	}
	return 200 + t.IntN(600)
}

func kvSys(t *T, y func(), o kvOps) *csys {
	w := []int{1, 2, 3, 8}[t.IntN(4)]
	val := 0
	const all = 1 << 30
	c := &csys{}
	key := func() int { return t.IntN(w) }
	insert := func(k int) *cop {
		val++
		v := val
		return write(fmt.Sprintf("Insert(%d, %d)", k, v), func() { o.insert(k, v) }, func(st []int) []int {
			lo, hi := pairAt(st, k)
			if lo < hi && !o.multi {
				return upd(st, lo+1, v)
			}
			return addPair(st, hi, k, v)
		})
	}
	c.fill = func() *cop { return insert(key()) }
	c.bulk = func() *cop { return insert(filler(t, o.sorted)) }
	visit := func(n int) *cop {
		return read(fmt.Sprintf("Traversal of up to %d", n), func() string {
			var out []string
			o.visit(func(k, v int) bool {
				y()
				out = append(out, pairStr(k, v))
				return len(out) < n
			})
			if !o.sorted {
				sort.Strings(out)
			}
			return strings.Join(out, "")
		}, func(st []int) string {
			if !o.sorted {
				var out []string
				for i := 0; i < len(st); i += 2 {
					out = append(out, pairStr(st[i], st[i+1]))
				}
				sort.Strings(out)
				return strings.Join(out, "")
			}
			return pairsUpTo(st, n)
		})
	}
	size := func() *cop {
		return read("Size", func() string { return fmt.Sprint(o.size()) }, func(st []int) string { return fmt.Sprint(len(st) / 2) })
	}
	keys := func() *cop {
		return read("Keys", func() string {
			ks := o.keys()
			if !o.sorted {
				sort.Ints(ks)
			}
			return fmt.Sprint(ks)
		}, func(st []int) string {
			ks := []int{}
			for i := 0; i < len(st); i += 2 {
				ks = append(ks, st[i])
			}
			return fmt.Sprint(ks)
		})
	}
	var names []string
	for n := range o.valid {
		names = append(names, n)
	}
	sort.Strings(names)
	c.gen = func() *cop {
		k := key()
		for {
			switch t.Pick(6, 4, 4, 2, 2, 1, 2, 2, 2, 2) {
			case 9:
				// iterators are for one goroutine: a key only this thread changes
				if k := 100 + c.own; o.eraseAt != nil && c.own >= 0 {
					if t.Bool(1, 2) {
						val++
						v := val
						return write(fmt.Sprintf("Insert(%d, %d)", k, v), func() { o.insert(k, v) }, func(st []int) []int {
							lo, hi := pairAt(st, k)
							if lo < hi {
								return upd(st, lo+1, v)
							}
							return addPair(st, hi, k, v)
						})
					}
					return write(fmt.Sprintf("EraseIter of %d", k), func() { o.eraseAt(k) }, func(st []int) []int {
						lo, hi := pairAt(st, k)
						return cutPairs(st, lo, hi)
					})
				}
			case 0:
				return c.fill()
			case 1:
				return &cop{fmt.Sprintf("Erase(%d)", k), func() string { return o.erase(k) }, func(st []int) ([]int, string) {
					lo, hi := pairAt(st, k)
					out := ""
					if o.says {
						out = yes(lo < hi)
					}
					return cutPairs(st, lo, hi), out
				}}
			case 2:
				return read(fmt.Sprintf("Get(%d)", k), func() string {
					v, err := o.get(k)
					if err != nil {
						return "none"
					}
					return fmt.Sprint(v)
				}, func(st []int) string {
					if lo, hi := pairAt(st, k); lo < hi {
						return fmt.Sprint(st[lo+1])
					}
					return "none"
				})
			case 3:
				if o.contains != nil {
					return read(fmt.Sprintf("Contains(%d)", k), func() string { return yes(o.contains(k)) }, func(st []int) string { lo, hi := pairAt(st, k); return yes(lo < hi) })
				}
			case 4:
				if o.size != nil {
					return size()
				}
			case 5:
				if o.clear != nil {
					return write("Clear", o.clear, func([]int) []int { return nil })
				}
			case 6:
				n := all
				if o.sorted && t.Bool(1, 3) {
					n = 1 + t.IntN(3)
				}
				return visit(n)
			case 7:
				if o.keys != nil {
					return keys()
				}
			case 8:
				if len(names) > 0 {
					n := names[t.IntN(len(names))]
					f := o.valid[n]
					return read(fmt.Sprintf("%s(%d) finds something", n, k), func() string { return yes(f(k)) }, func(st []int) string {
						lo, hi := pairAt(st, k)
						switch n {
						case "Find":
							return yes(lo < hi)
						case "LowerBound":
							return yes(lo < len(st))
						case "UpperBound":
							return yes(hi < len(st))
						}
						return yes(len(st) > 0)
					})
				}
			}
		}
	}
	c.final = func() []*cop {
		out := []*cop{visit(all)}
		if o.size != nil {
			out = append(out, size())
		}
		if o.keys != nil {
			out = append(out, keys())
		}
		return out
	}
	return c
}

// options returns the options in some order, some of them given twice.
func options[O any](t *T, os ...O) (out []O) {
	for len(os) > 0 {
		i := t.IntN(len(os))
		out = append(out, os[i])
		if t.Bool(1, 8) {
			out = append(out, os[i])
		}
		os = append(append([]O(nil), os[:i]...), os[i+1:]...)
	}
	return out
}

func cmpYield(y func()) func(a, b int) int {
	return func(a, b int) int { y(); return cmpInt(a, b) }
}

func mapSys(t *T, y func()) *csys {
	m := treemap.New[int, int](cmpYield(y), options(t, treemap.WithGoroutineSafe())...)
	clear, eraseAt := m.Clear, func(k int) {
		if it := m.Find(k); it.IsValid() {
			m.EraseIter(it)
		}
	}
	if t.Bool(1, 2) { // not both: the iterator's element must stay
		clear = nil
	} else {
		eraseAt = nil
	}
	return kvSys(t, y, kvOps{insert: m.Insert, get: m.Get, erase: func(k int) string { m.Erase(k); return "" }, contains: m.Contains, size: m.Size, clear: clear, eraseAt: eraseAt,
		visit: func(f func(k, v int) bool) { m.Traversal(f) }, sorted: true, valid: map[string]func(int) bool{
			"Find": func(k int) bool { return m.Find(k).IsValid() }, "LowerBound": func(k int) bool { return m.LowerBound(k).IsValid() },
			"UpperBound": func(k int) bool { return m.UpperBound(k).IsValid() }, "Begin": func(int) bool { return m.Begin().IsValid() },
			"First": func(int) bool { return m.First().IsValid() }, "Last": func(int) bool { return m.Last().IsValid() }}})
}

func multimapSys(t *T, y func()) *csys {
	m := treemap.NewMultiMap[int, int](cmpYield(y), options(t, treemap.WithGoroutineSafe())...)
	return kvSys(t, y, kvOps{insert: m.Insert, get: m.Get, erase: func(k int) string { m.Erase(k); return "" }, contains: m.Contains, size: m.Size, clear: m.Clear,
		visit: func(f func(k, v int) bool) { m.Traversal(f) }, sorted: true, multi: true, valid: map[string]func(int) bool{
			"Find": func(k int) bool { return m.Find(k).IsValid() }, "LowerBound": func(k int) bool { return m.LowerBound(k).IsValid() },
			"UpperBound": func(k int) bool { return m.UpperBound(k).IsValid() }, "Begin": func(int) bool { return m.Begin().IsValid() },
			"First": func(int) bool { return m.First().IsValid() }, "Last": func(int) bool { return m.Last().IsValid() }}})
}

func skipSys(t *T, y func()) *csys {
	l := skiplist.New[int, int](cmpYield(y), options(t, skiplist.WithGoroutineSafe(), skiplist.WithMaxLevel([]int{1, 2, 4, 10}[t.IntN(4)]))...)
	return kvSys(t, y, kvOps{insert: l.Insert, get: l.Get, erase: func(k int) string { return yes(l.Remove(k)) }, says: true, size: l.Len,
		visit: func(f func(k, v int) bool) { l.Traversal(f) }, sorted: true,
		keys: func() []int { return append([]int{}, l.Keys()...) }})
}

// ---- sets: the state is the number of elements of the first set, its elements and those of the second

type setOps struct {
	insert, erase func(int)
	eraseAll      func(int)
	count         func(int) int
	contains      func(int) bool
	size          func() int
	clear         func()
	visit         func(func(int) bool)
	str           func() string
	valid         map[string]func(k int) bool
}

func setsOf(st []int) (a, b []int) {
	if len(st) == 0 {
		return nil, nil
	}
	return st[1 : 1+st[0]], st[1+st[0]:]
}

func withSet(st []int, which int, s []int) []int {
	a, b := setsOf(st)
	if which == 0 {
		a = s
	} else {
		b = s
	}
	return append(append([]int{len(a)}, a...), b...)
}

func setSys(t *T, y func(), multi bool, os []setOps, algebra func(i, j, which int) string) *csys {
	w := []int{1, 2, 3, 8}[t.IntN(4)]
	c := &csys{}
	get := func(st []int, which int) []int {
		a, b := setsOf(st)
		if which == 0 {
			return a
		}
		return b
	}
	at := func(s []int, k int) (lo, hi int) {
		lo = sort.SearchInts(s, k)
		return lo, sort.SearchInts(s, k+1)
	}
	elems := func(s []int, n int) string { return fmt.Sprint(append([]int{}, s[:min(n, len(s))]...)) }
	insertKey := func(i, k int) *cop {
		return write(fmt.Sprintf("%d.Insert(%d)", i, k), func() { os[i].insert(k) }, func(st []int) []int {
			s := get(st, i)
			lo, hi := at(s, k)
			if lo < hi && !multi {
				return st
			}
			return withSet(st, i, insertSlice(cloneSlice(s), hi, k))
		})
	}
	insert := func(i int) *cop { return insertKey(i, t.IntN(w)) }
	visit := func(i, n int) *cop {
		return read(fmt.Sprintf("%d.Traversal of up to %d", i, n), func() string {
			out := []int{}
			os[i].visit(func(k int) bool { y(); out = append(out, k); return len(out) < n })
			return fmt.Sprint(out)
		}, func(st []int) string { return elems(get(st, i), n) })
	}
	size := func(i int) *cop {
		return read(fmt.Sprintf("%d.Size", i), func() string { return fmt.Sprint(os[i].size()) }, func(st []int) string { return fmt.Sprint(len(get(st, i))) })
	}
	c.fill = func() *cop { return insert(t.IntN(len(os))) }
	c.bulk = func() *cop { return insertKey(t.IntN(len(os)), filler(t, true)) }
	combine := func(i, j int) *cop {
		which := t.IntN(3)
		return read(fmt.Sprintf("%d.%s(%d)", i, []string{"Union", "Intersect", "Diff"}[which], j), func() string { return algebra(i, j, which) }, func(st []int) string {
			a, b := get(st, i), get(st, j)
			out := []int{}
			for len(a)+len(b) > 0 {
				inA := len(a) > 0 && (len(b) == 0 || a[0] <= b[0])
				inB := len(b) > 0 && (len(a) == 0 || b[0] <= a[0])
				var k int
				if inA {
					k, a = a[0], a[1:]
				}
				if inB {
					k, b = b[0], b[1:]
				}
				if which == 0 || which == 1 && inA && inB || which == 2 && inA && !inB {
					out = append(out, k)
				}
			}
			return fmt.Sprint(out)
		})
	}
	names := []string{"First", "Last", "Begin", "Find", "LowerBound", "UpperBound"}
	if algebra != nil { // both sets combined with each other while both change
		for i := 0; i < 2; i++ {
			c.roles = append(c.roles, func() *cop { return combine(i, 1-i) }, func() *cop { return insert(i) })
		}
	}
	c.gen = func() *cop {
		i := t.IntN(len(os))
		o := os[i]
		k := t.IntN(w)
		for {
			switch t.Pick(6, 4, 2, 2, 1, 2, 2, 2, 5, 2) {
			case 0:
				return insert(i)
			case 1:
				return write(fmt.Sprintf("%d.Erase(%d)", i, k), func() { o.erase(k) }, func(st []int) []int {
					s := get(st, i)
					lo, hi := at(s, k)
					if lo == hi {
						return st
					}
					return withSet(st, i, removeSlice(s, lo))
				})
			case 2:
				return read(fmt.Sprintf("%d.Contains(%d)", i, k), func() string { return yes(o.contains(k)) }, func(st []int) string { lo, hi := at(get(st, i), k); return yes(lo < hi) })
			case 3:
				return size(i)
			case 4:
				return write(fmt.Sprintf("%d.Clear", i), o.clear, func(st []int) []int { return withSet(st, i, nil) })
			case 5:
				n := 1 << 30
				if t.Bool(1, 3) {
					n = 1 + t.IntN(3)
				}
				return visit(i, n)
			case 6:
				return read(fmt.Sprintf("%d.String", i), func() string { return o.str() }, func(st []int) string { return listString(get(st, i)) })
			case 7:
				n := names[t.IntN(len(names))]
				f := o.valid[n]
				return read(fmt.Sprintf("%d.%s(%d) finds something", i, n, k), func() string { return yes(f(k)) }, func(st []int) string {
					s := get(st, i)
					lo, hi := at(s, k)
					switch n {
					case "Find":
						return yes(lo < hi)
					case "LowerBound":
						return yes(lo < len(s))
					case "UpperBound":
						return yes(hi < len(s))
					}
					return yes(len(s) > 0)
				})
			case 8:
				if algebra == nil {
					break
				}
				return combine(i, t.IntN(len(os)))
			case 9:
				if o.count == nil {
					break
				}
				if t.Bool(1, 2) {
					return read(fmt.Sprintf("%d.Count(%d)", i, k), func() string { return fmt.Sprint(o.count(k)) }, func(st []int) string { lo, hi := at(get(st, i), k); return fmt.Sprint(hi - lo) })
				}
				return write(fmt.Sprintf("%d.EraseAll(%d)", i, k), func() { o.eraseAll(k) }, func(st []int) []int {
					s := get(st, i)
					lo, hi := at(s, k)
					return withSet(st, i, append(cloneSlice(s[:lo]), s[hi:]...))
				})
			}
		}
	}
	c.final = func() (out []*cop) {
		for i := range os {
			out = append(out, visit(i, 1<<30), size(i))
		}
		return
	}
	c.init = withSet(nil, 0, nil)
	return c
}

func setsSys(t *T, y func()) *csys {
	opts := options(t, set.WithGoroutineSafe())
	var ss []*set.Set[int]
	var os []setOps
	for i := 0; i < 2; i++ {
		s := set.New[int](cmpYield(y), opts...)
		ss = append(ss, s)
		os = append(os, setOps{insert: s.Insert, erase: s.Erase, contains: s.Contains, size: s.Size, clear: s.Clear,
			visit: func(f func(int) bool) { s.Traversal(f) }, str: s.String, valid: map[string]func(int) bool{
				"Find": func(k int) bool { return s.Find(k).IsValid() }, "LowerBound": func(k int) bool { return s.LowerBound(k).IsValid() },
				"UpperBound": func(k int) bool { return s.UpperBound(k).IsValid() }, "Begin": func(int) bool { return s.Begin().IsValid() },
				"First": func(int) bool { return s.First().IsValid() }, "Last": func(int) bool { return s.Last().IsValid() }}})
	}
	return setSys(t, y, false, os, func(i, j, which int) string {
		var r *set.Set[int]
		switch which {
		case 0:
			r = ss[i].Union(ss[j])
		case 1:
			r = ss[i].Intersect(ss[j])
		default:
			r = ss[i].Diff(ss[j])
		}
		out := []int{}
		r.Traversal(func(k int) bool { out = append(out, k); return true })
		return fmt.Sprint(out)
	})
}

func multisetSys(t *T, y func()) *csys {
	s := set.NewMultiSet[int](cmpYield(y), options(t, set.WithGoroutineSafe())...)
	return setSys(t, y, true, []setOps{{insert: s.Insert, erase: s.Erase, eraseAll: s.EraseAll, count: s.Count, contains: s.Contains, size: s.Size, clear: s.Clear,
		visit: func(f func(int) bool) { s.Traversal(f) }, str: s.String, valid: map[string]func(int) bool{
			"Find": func(k int) bool { return s.Find(k).IsValid() }, "LowerBound": func(k int) bool { return s.LowerBound(k).IsValid() },
			"UpperBound": func(k int) bool { return s.UpperBound(k).IsValid() }, "Begin": func(int) bool { return s.Begin().IsValid() },
			"First": func(int) bool { return s.First().IsValid() }, "Last": func(int) bool { return s.Last().IsValid() }}}}, nil)
}

// ---- queue, stack, priority queue: the state is the elements in the order they were pushed

type lineOps struct {
	push             func(int)
	pop, front, back func() int // nil: not offered
	size             func() int
	empty            func() bool
	clear            func()
	str              func() string
}

// lineSys is a queue, stack or priority queue; first tells which element is served next.
func lineSys(t *T, o lineOps, elem func(n int) int, first func(st []int) int) *csys {
	n := 0
	c := &csys{}
	c.fill = func() *cop {
		n++
		v := elem(n)
		return write(fmt.Sprintf("Push(%d)", v), func() { o.push(v) }, func(st []int) []int { return append(cloneSlice(st), v) })
	}
	c.bulk = c.fill
	look := func(name string, f func() int, which func(st []int) int) *cop {
		return read(name, func() string { return fmt.Sprint(f()) }, func(st []int) string {
			if len(st) == 0 {
				return "panic"
			}
			return fmt.Sprint(st[which(st)])
		})
	}
	pop := func() *cop {
		return &cop{"Pop", func() string { return fmt.Sprint(o.pop()) }, func(st []int) ([]int, string) {
			if len(st) == 0 {
				return st, "panic"
			}
			i := first(st)
			return removeSlice(st, i), fmt.Sprint(st[i])
		}}
	}
	size := func() *cop {
		return read("Size", func() string { return fmt.Sprint(o.size()) }, func(st []int) string { return fmt.Sprint(len(st)) })
	}
	c.gen = func() *cop {
		for {
			switch t.Pick(6, 6, 2, 2, 1, 1, 1, 1) {
			case 0:
				return c.fill()
			case 1:
				return pop()
			case 2:
				return look("Front", o.front, first)
			case 3:
				if o.back != nil {
					return look("Back", o.back, func(st []int) int { return len(st) - 1 })
				}
			case 4:
				return size()
			case 5:
				return read("Empty", func() string { return yes(o.empty()) }, func(st []int) string { return yes(len(st) == 0) })
			case 6:
				return write("Clear", o.clear, func([]int) []int { return nil })
			case 7:
				if o.str != nil {
					return read("String", o.str, func(st []int) string { return listString(st) })
				}
			}
		}
	}
	c.final = func() (out []*cop) {
		out = append(out, size())
		for i := 0; i <= n; i++ {
			out = append(out, pop())
		}
		return
	}
	return c
}

func queueSys(t *T, y func()) *csys {
	opts := []queue.Option[int]{queue.WithGoroutineSafe[int]()}
	str := true
	switch t.IntN(5) {
	case 0:
		opts = append(opts, queue.WithListContainer[int]())
	case 1:
		opts = append(opts, queue.WithContainer[int](deque.New[int]()))
	case 2:
		opts = append(opts, queue.WithContainer[int](bidlist.New[int]()))
	case 3:
		opts = append(opts, queue.WithContainer[int](&ring[int]{yield: y}))
		str = false
	}
	if t.Bool(1, 2) {
		for i, j := 0, len(opts)-1; i < j; i, j = i+1, j-1 {
			opts[i], opts[j] = opts[j], opts[i]
		}
	}
	q := queue.New(opts...)
	o := lineOps{push: q.Push, pop: q.Pop, front: q.Front, back: q.Back, size: q.Size, empty: q.Empty, clear: q.Clear}
	if str {
		o.str = q.String
	}
	return lineSys(t, o, func(n int) int { return n }, func([]int) int { return 0 })
}

func stackSys(t *T, y func()) *csys {
	opts := []stack.Option[int]{stack.WithGoroutineSafe[int]()}
	str := true
	switch t.IntN(5) {
	case 0:
		opts = append(opts, stack.WithListContainer[int]())
	case 1:
		opts = append(opts, stack.WithContainer[int](deque.New[int]()))
	case 2:
		opts = append(opts, stack.WithContainer[int](bidlist.New[int]()))
	case 3:
		opts = append(opts, stack.WithContainer[int](&ring[int]{yield: y}))
		str = false
	}
	if t.Bool(1, 2) {
		for i, j := 0, len(opts)-1; i < j; i, j = i+1, j-1 {
			opts[i], opts[j] = opts[j], opts[i]
		}
	}
	s := stack.New(opts...)
	o := lineOps{push: s.Push, pop: s.Pop, front: s.Top, size: s.Size, empty: s.Empty, clear: s.Clear}
	if str {
		o.str = s.String
	}
	return lineSys(t, o, func(n int) int { return n }, func(st []int) int { return len(st) - 1 })
}

func pqSys(t *T, y func()) *csys {
	w := []int{1, 2, 4}[t.IntN(3)]
	q := priorityqueue.New(func(a, b int) int { y(); return cmpInt(a/1000, b/1000) }, options(t, priorityqueue.WithGoroutineSafe())...)
	return lineSys(t, lineOps{push: q.Push, pop: q.Pop, front: q.Top, size: q.Size, empty: q.Empty, clear: q.Clear},
		func(n int) int { return t.IntN(w)*1000 + n },
		func(st []int) int {
			best := 0
			for i, v := range st {
				if v/1000 < st[best]/1000 {
					best = i
				}
			}
			return best
		})
}

// ---- hash trie, bloom filter, ring

func hamtSys(t *T, y func()) *csys {
	h := hamt.New[int](options(t, hamt.WithGoroutineSafe())...)
	pool := hamtPool(t, 12)
	pool = append(pool, "a", "b", "c", "")
	for i := len(pool) - 1; i > 0; i-- {
		j := t.IntN(i + 1)
		pool[i], pool[j] = pool[j], pool[i]
	}
	names := map[string]int{}
	var ks []string
	for _, k := range pool {
		if _, ok := names[k]; !ok && len(ks) < 8 {
			names[k] = len(ks)
			ks = append(ks, k)
		}
	}
	for i := len(ks); i < 8; i++ {
		k := fmt.Sprintf("key %d", i)
		names[k] = i
		ks = append(ks, k)
	}
	no := func(k string) int {
		if i, ok := names[k]; ok {
			return i
		}
		i := -1
		fmt.Sscanf(k, "filler %d", &i)
		return i
	}
	name := func(i int) string {
		if i < len(ks) {
			return ks[i]
		}
		return fmt.Sprintf("filler %d", i)
	}
	bytes := t.Bool(1, 2)
	return kvSys(t, y, kvOps{insert: func(k, v int) { h.Insert([]byte(name(k)), v) }, get: func(k int) (int, error) { return h.Get([]byte(name(k))) },
		erase: func(k int) string { return yes(h.Erase([]byte(name(k)))) }, says: true,
		visit: func(f func(k, v int) bool) { h.Traversal(func(k hamt.Key, v int) bool { return f(no(string(k)), v) }) },
		keys: func() []int {
			out := []int{}
			if bytes {
				for _, k := range h.Keys() {
					out = append(out, no(string(k)))
				}
			} else {
				for _, k := range h.StringKeys() {
					out = append(out, no(k))
				}
			}
			return out
		}})
}

func bloomSys(t *T, y func()) *csys {
	mb, kb := uint64(64+t.IntN(2000)), uint64(1+t.IntN(4))
	if t.Bool(1, 12) {
		mb, kb = mb+uint64(t.IntN(200000)), kb+uint64(t.IntN(16))
	}
	opts := options(t, bloom.WithGoroutineSafe())
	var f *bloom.BloomFilter
	switch t.Pick(2, 1, 1) {
	case 0:
		f = bloom.New(mb, kb, opts...)
	case 1:
		f = bloom.NewFromData(append([]byte(nil), bloom.New(mb, kb).Data()...), opts...)
	default:
		c, p := uint64(10+t.IntN(200)), []float64{.5, .1, .01, .0001}[t.IntN(4)]
		mb, kb = bloom.EstimateParameters(c, p)
		f = bloom.NewWithEstimates(c, p, opts...)
	}
	n := 1 + t.IntN(5)
	var ks []string
	salt := t.IntN(1000)
	for i := 0; i < n; i++ {
		ks = append(ks, fmt.Sprintf("s%d-%d", i, salt))
	}
	for i, k := range ks { // false positives would blur the picture
		g := bloom.New(mb, kb)
		for j, l := range ks {
			if j != i {
				g.Add(l)
			}
		}
		if g.Contains(k) {
			t.Skip()
		}
	}
	has := func(st []int, i int) bool { return len(st) > 0 && st[0]>>i&1 == 1 }
	c := &csys{}
	add := func(i int) *cop {
		return write(fmt.Sprintf("Add(%q)", ks[i]), func() { f.Add(ks[i]) }, func(st []int) []int { return []int{st[0] | 1<<i} })
	}
	data := func() *cop {
		return read("contents of Data", func() string {
			d := f.Data()
			y()
			g := bloom.NewFromData(append([]byte(nil), d...))
			m := 0
			for i, k := range ks {
				if g.Contains(k) {
					m |= 1 << i
				}
			}
			return fmt.Sprintf("%b", m)
		}, func(st []int) string { return fmt.Sprintf("%b", st[0]) })
	}
	contains := func(i int) *cop {
		return read(fmt.Sprintf("Contains(%q)", ks[i]), func() string { return yes(f.Contains(ks[i])) }, func(st []int) string { return yes(has(st, i)) })
	}
	c.init = []int{0}
	c.fill = func() *cop { return add(t.IntN(n)) }
	c.gen = func() *cop {
		switch t.Pick(4, 4, 1) {
		case 0:
			return add(t.IntN(n))
		case 1:
			return contains(t.IntN(n))
		}
		return data()
	}
	c.final = func() (out []*cop) {
		for i := range ks {
			out = append(out, contains(i))
		}
		return append(out, data())
	}
	return c
}

func ketamaSys(t *T, y func()) *csys {
	reps := []int{1, 2, 5, 10}[t.IntN(4)]
	n := 1 + t.IntN(4)
	if t.Bool(1, 12) {
		reps += t.IntN(40)
		n += t.IntN(12)
	}
	r := ketama.New(options(t, ketama.WithGoroutineSafe(), ketama.WithReplicas(reps))...)
	node := func(i int) string { return fmt.Sprintf("node%d", i) }
	keys := []string{"", "k1", "k2", "another key"}
	refs := map[int]*ketama.Ketama{} // sequential rings of the subsets
	ref := func(mask int) *ketama.Ketama {
		if refs[mask] == nil {
			k := ketama.New(ketama.WithReplicas(reps))
			for i := 0; i < n; i++ {
				if mask>>i&1 == 1 {
					k.Add(node(i))
				}
			}
			refs[mask] = k
		}
		return refs[mask]
	}
	show := func(s string, ok bool) string { return fmt.Sprintf("%q %v", s, ok) }
	c := &csys{init: []int{0}}
	some := func() (ns []string, m int) {
		for i := 0; i < 1+sgn(t.Bool(1, 3)); i++ {
			k := t.IntN(n)
			ns = append(ns, node(k))
			m |= 1 << k
		}
		return
	}
	get := func(k string) *cop {
		return read(fmt.Sprintf("Get(%q)", k), func() string { return show(r.Get(k)) }, func(st []int) string { return show(ref(st[0]).Get(k)) })
	}
	empty := func() *cop {
		return read("Empty", func() string { return yes(r.Empty()) }, func(st []int) string { return yes(st[0] == 0) })
	}
	c.fill = func() *cop {
		ns, m := some()
		return write(fmt.Sprintf("Add%q", ns), func() { r.Add(ns...) }, func(st []int) []int { return []int{st[0] | m} })
	}
	c.gen = func() *cop {
		switch t.Pick(3, 3, 4, 1) {
		case 0:
			return c.fill()
		case 1:
			ns, m := some()
			return write(fmt.Sprintf("Remove%q", ns), func() { r.Remove(ns...) }, func(st []int) []int { return []int{st[0] &^ m} })
		case 2:
			return get(keys[t.IntN(len(keys))])
		}
		return empty()
	}
	c.final = func() (out []*cop) {
		for _, k := range keys {
			out = append(out, get(k))
		}
		return append(out, empty())
	}
	return c
}

var concKinds = map[string]func(*T, func()) *csys{
	"map": mapSys, "multimap": multimapSys, "sets": setsSys, "multiset": multisetSys, "skiplist": skipSys,
	"queue": queueSys, "stack": stackSys, "priority queue": pqSys,
	"hamt": hamtSys, "bloom filter": bloomSys, "ketama": ketamaSys,
}

type concMode int

const (
	controlled concMode = iota
	stamped
	racing
)

func runConc(kinds []string, mode concMode) func(t *T) {
	return func(t *T) {
		if mode == controlled && !schedOn {
			t.Failf("this binary is built without the scheduler")
		}
		kind := kinds[t.Variant(len(kinds))]
		var r runner
		on := false
		y := func() {
			if on {
				r.yield()
			}
		}
		if kind == "skiplist" && mode == controlled {
			pinRand(t)
		}
		c := concKinds[kind](t, y)
		st := cloneSlice(c.init)
		for i := t.Size(8); i > 0; i-- {
			op := c.fill()
			if t.Bool(1, 3) {
				op = c.gen()
			}
			var want string
			st, want = op.step(st)
			x := &ccall{op: op}
			x.exec()
			t.Log("first %s = %s", op.name, x.out)
			if x.out != want {
				t.Failf("before any concurrency %s gives %s %s, expected %s", op.name, x.out, x.note, want)
			}
		}
		if c.bulk != nil && t.Bool(1, 12) {
			n := 10 + t.IntN(180)
			for i := 0; i < n; i++ {
				op := c.bulk()
				op.run()
				st, _ = op.step(st)
			}
			t.Log("then %d fillers", n)
			t.Class("many elements")
		}
		nt, no := 2+t.Pick(2, 2, 1), 4
		if mode == racing && nt == 2 {
			no = 6
		}
		gen := func(int) *cop { return c.gen() }
		if c.roles != nil && t.Bool(1, 3) {
			nt, no = len(c.roles), 3
			gen = func(i int) *cop { return c.roles[i]() }
		}
		threads := make([][]*cop, nt)
		for i := range threads {
			c.own = i
			t.Repeat(1, no, func(int) { threads[i] = append(threads[i], gen(i)) })
			if len(threads[i]) == 0 {
				threads[i] = []*cop{gen(i)}
			}
		}
		switch mode {
		case controlled:
			r = newSched(t)
		case stamped:
			r = &free{t: t, stamp: true, gosch: []uint32{0, 2, 8}[t.IntN(3)]}
		default:
			r = &free{t: t, gosch: []uint32{0, 2, 8}[t.IntN(3)]}
		}
		final := c.final()
		if t.Tracing() {
			for i, ops := range threads {
				for _, o := range ops {
					t.Log("thread %d calls %s", i, o.name)
				}
			}
		}
		on = true
		overlap := trial(t, r, st, threads, final)
		on = false
		t.Class(kind)
		if overlap {
			t.NonTrivial()
		}
	}
}

func concPhases(kinds ...string) []pbt.Phase {
	return []pbt.Phase{
		{Name: "scheduled", Quick: 160000, Thorough: 1500000, Clock: true, Sched: true, Run: runConc(kinds, controlled)},
		{Name: "parallel", Quick: 20000, Thorough: 200000, Procs: 4, Workers: 4, NoRerun: true, Run: runConc(kinds, stamped)},
		{Name: "race detector", Quick: 12000, Thorough: 100000, Procs: 4, Workers: 4, NoRerun: true, Race: true, Run: runConc(kinds, racing)},
	}
}

func init() {
	const rule = "calls of different threads overlapped (under the race detector, where calls take no time stamps: all count as overlapping)"
	as := []string{"iterators returned by concurrent calls are only asked whether they are valid", "callbacks do not call the container", "schedules are sampled",
		"in phase scheduled one goroutine runs at a time and the switches are at lock operations (sync.RWMutex and sync.Mutex, through a build overlay), callbacks and calls"}
	pbt.Register(pbt.Prop{ID: "C40", Rule: rule, Assumptions: as, Phases: concPhases("map", "multimap", "sets", "multiset", "skiplist", "sets")})
	pbt.Register(pbt.Prop{ID: "C41", Rule: rule, Assumptions: as, Phases: concPhases("queue", "stack", "priority queue")})
	pbt.Register(pbt.Prop{ID: "C42", Rule: rule, Assumptions: as, Phases: concPhases("hamt", "bloom filter", "ketama", "ketama")})
}
