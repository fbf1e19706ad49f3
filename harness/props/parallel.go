package props

import (
	"fmt"
	"slices"
	"sort"
	"strings"
	"sync"

	"github.com/liyue201/gostl/algorithm"
	"github.com/liyue201/gostl/algorithm/hash"
	gsort "github.com/liyue201/gostl/algorithm/sort"
	"github.com/liyue201/gostl/ds/heap"
	"github.com/liyue201/gostl/ds/pair"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/utils/comparator"
	"verifharness/pbt"
)

// C49: whoever works on data of his own is not disturbed by the work of others on
// theirs, neither in parallel nor from within a callback.

var deskKinds = append(slices.Clone(shelfKinds), "algorithms", "heap", "algorithms", "deque", "skiplist", "hamt")

// algorithms is a shelf whose changes are made by the algorithms.
func (s *shelf) algorithms(n int) {
	vals := make([]int, n)
	for i := range vals {
		vals[i] = i * 37 % 101
	}
	c := newSeq([]string{"slice", "vector", "deque", "array"}[n%4], vals, n/3)
	full := func(a, b int) int { s.called(); return cmpInt(a, b) }
	coarse := func(a, b int) int { s.called(); return cmpInt(a/8, b/8) }
	s.do = func(op [3]int) {
		lo, hi := op[1]%(n+1), op[2]%(n+1)
		lo, hi = min(lo, hi), max(lo, hi)
		if op[0]%3 == 0 {
			lo, hi = 0, n
		}
		switch op[0] % 9 {
		case 0:
			gsort.Sort[int](c.iter(lo), c.iter(hi), full)
		case 1, 2:
			gsort.Stable[int](c.iter(lo), c.iter(hi), coarse)
		case 3:
			if lo < hi { // the order before and behind the nth is the algorithm's own business
				gsort.NthElement[int](c.iter(lo), c.iter(hi), op[2]%(hi-lo), full)
				gsort.Sort[int](c.iter(lo), c.iter(hi), full)
			}
		case 4:
			gsort.NextPermutation[int](c.iter(lo), c.iter(hi), full)
		case 5:
			algorithm.Reverse[int](c.iter(lo), c.iter(hi))
		case 6:
			gsort.Sort[int](c.iter(lo), c.iter(hi), comparator.Reverse(full))
		default:
			for i := lo; i < hi; i++ {
				c.set(i, (c.contents()[i]*31+op[1]+i)%97)
			}
		}
	}
	s.ask = func(q [3]int) string {
		first, last := c.iter(0), c.iter(n)
		switch q[0] % 6 {
		case 0:
			seed := []byte(fmt.Sprint(q[1], q[2]))
			return fmt.Sprint(hash.GenHashInts(seed, 1+q[1]%40), hash.Hash512(seed))
		case 1:
			a := cloneSlice(c.contents())
			sort.Ints(a)
			w := slice.NewSliceWrapper(a)
			return fmt.Sprint(gsort.LowerBound[int](w.Begin(), w.End(), q[2], full).Position(),
				gsort.UpperBound[int](w.Begin(), w.End(), q[2], full).Position(), gsort.BinarySearch[int](w.Begin(), w.End(), q[2], full))
		case 2:
			if n == 0 {
				return ""
			}
			return fmt.Sprint(algorithm.Count[int](first, last, q[2], coarse), algorithm.Find[int](first, last, q[2], coarse).Equal(last),
				algorithm.MaxElement[int](first, last, full).Value(), algorithm.MinElement[int](first, last, full).Value())
		case 3:
			a, b := fmt.Sprint(q[1]), fmt.Sprint(q[2])
			return fmt.Sprint(comparator.IntComparator(q[1], q[2]), comparator.StringComparator(a, b), comparator.Float64Comparator(float64(q[1]), float64(q[2])),
				comparator.OrderedTypeCmp(a, b), comparator.Reverse(full)(q[1], q[2]))
		case 4:
			p := pair.MakePair(q[1]%3, fmt.Sprint(q[2]%3))
			return fmt.Sprint(p.Fronts(), p.Backs(), p.Equal(pair.Pair{Front: q[2] % 3, Back: fmt.Sprint(q[1] % 3)}))
		}
		return fmt.Sprint(c.contents())
	}
}

// pile is a caller's collection kept as a heap.
type pile struct {
	s *shelf
	a []int
}

func (p *pile) Len() int           { return len(p.a) }
func (p *pile) Less(i, j int) bool { p.s.called(); return p.a[i] < p.a[j] }
func (p *pile) Swap(i, j int)      { p.a[i], p.a[j] = p.a[j], p.a[i] }
func (p *pile) Push(v int)         { p.a = append(p.a, v) }
func (p *pile) Pop() int {
	v := p.a[len(p.a)-1]
	p.a = p.a[:len(p.a)-1]
	return v
}

func (s *shelf) heap() {
	p := &pile{s: s}
	h := heap.Interface[int](p)
	// elements are named by their value, since their places are the heap's business
	at := func(n int) int {
		i := 0
		for k, v := range p.a {
			if v <= n && (p.a[i] > n || v > p.a[i]) {
				i = k
			}
		}
		return i
	}
	s.do = func(op [3]int) {
		switch k := op[0] % 7; {
		case k < 3 || len(p.a) == 0:
			heap.Push(h, op[1])
		case k == 3:
			heap.Pop(h)
		case k == 4:
			heap.Remove(h, at(op[1]))
		case k == 5:
			i := at(op[1])
			p.a[i] = op[2]
			heap.Fix(h, i)
		default:
			for i := range p.a {
				p.a[i] = (p.a[i]*31 + op[1]) % 5040
			}
			heap.Init(h)
		}
	}
	s.ask = func(q [3]int) string {
		a := cloneSlice(p.a)
		sort.Ints(a)
		if len(a) > 0 && p.a[0] != a[0] {
			return "the least is not in front"
		}
		return fmt.Sprint(a)
	}
}

// step is a change, or a read.
type step struct {
	read bool
	op   [3]int
}

// desk is a plan of what is done with a container of its own.
type desk struct {
	kind  string
	n     int
	safe  bool
	sh    *shared
	steps []step
	alone []string
}

func (d *desk) open() *shelf { return newShelfOf(d.kind, d.n, d.safe, d.sh) }

func (p step) on(s *shelf) (out string) {
	if p.read {
		return s.answer(p.op)
	}
	defer func() {
		if e := recover(); e != nil {
			out = fmt.Sprint("panic: ", e)
		}
	}()
	s.do(p.op)
	s.settle()
	return ""
}

func (d *desk) run() (out []string) {
	s := d.open()
	s.settle()
	for _, p := range d.steps {
		out = append(out, p.on(s))
	}
	return
}

// desks plans the work at a few desks and has each done alone.
func desks(t *T, most int) []*desk {
	safe := t.Bool(1, 4)
	first := deskKinds[t.Variant(len(deskKinds))]
	both := [2]*shared{newShared(safe, false), newShared(safe, true)}
	var ds []*desk
	for k := 2 + t.IntN(most-1); k > 0; k-- {
		kind := first
		if len(ds) > 0 && t.Bool(1, 3) {
			kind = deskKinds[t.IntN(len(deskKinds))]
		}
		d := &desk{kind: kind, n: t.Size(40), safe: safe, sh: both[0]}
		if t.Bool(1, 10) {
			d.n += 130 + t.IntN(200)
		}
		if strings.HasSuffix(kind, "on a list") {
			d.sh = both[1]
		}
		fill := drawn(t, 10+d.n)
		for _, op := range fill {
			d.steps = append(d.steps, step{false, op})
		}
		mixed := drawn(t, 30)
		for i, op := range mixed {
			d.steps = append(d.steps, step{i%2 == 0, op})
		}
		d.alone = d.run()
		t.Log("desk %d: %s (%d, safe %v), %d changes, then %d reads and changes by turns", len(ds), kind, d.n, safe, len(fill), len(mixed))
		t.Class(kind)
		ds = append(ds, d)
	}
	return ds
}

// differ tells what went otherwise than alone.
func (d *desk) differ(got []string) string {
	for i, g := range got {
		if i < len(d.alone) && g != d.alone[i] {
			what := "change"
			if d.steps[i].read {
				what = "read"
			}
			return fmt.Sprintf("%s: step %d, %s %v, gives %q; done alone it gives %q", d.kind, i, what, d.steps[i].op, g, d.alone[i])
		}
	}
	return ""
}

// sideBySide works at all desks in parallel.
func sideBySide(t *T) {
	ds := desks(t, 4)
	got := make([][]string, len(ds))
	var wg sync.WaitGroup
	start := make(chan bool)
	for i, d := range ds {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			got[i] = d.run()
		}()
	}
	close(start)
	wg.Wait()
	for i, d := range ds {
		if bad := d.differ(got[i]); bad != "" {
			t.Failf("desk %d of %d worked at in parallel: %s", i, len(ds), bad)
		}
	}
	t.NonTrivial()
}

// withinCallbacks works at a second desk from within the comparators, visitors and
// predicates called by the work at the first, and in between.
func withinCallbacks(t *T) {
	ds := desks(t, 3)
	ss := make([]*shelf, len(ds))
	got := make([][]string, len(ds))
	for i, d := range ds {
		ss[i] = d.open()
		ss[i].settle()
	}
	nested, depth := 0, 0
	rng := pbt.NewRng(t.Uniform64())
	every := []uint64{2, 10, 60, 400}[t.IntN(4)]
	var next func(i int)
	busy := make([]bool, len(ds))
	next = func(i int) { // one step at desk i
		k := len(got[i])
		if k == len(ds[i].steps) || busy[i] {
			return
		}
		busy[i] = true
		got[i] = append(got[i], "")
		got[i][k] = ds[i].steps[k].on(ss[i])
		busy[i] = false
	}
	for i := range ds {
		ss[i].hook = func() {
			if depth > 3 || rng.N(every) != 0 {
				return
			}
			depth++
			nested++
			j := (i + 1 + int(rng.N(uint64(len(ds)-1)))) % len(ds)
			for n := 1 + rng.N(3); n > 0; n-- {
				next(j)
			}
			depth--
		}
	}
	for left := true; left; {
		left = false
		for i := range ds {
			if len(got[i]) < len(ds[i].steps) && rng.N(3) > 0 {
				next(i)
			}
			left = left || len(got[i]) < len(ds[i].steps)
		}
	}
	for i, d := range ds {
		if bad := d.differ(got[i]); bad != "" {
			t.Failf("desk %d of %d, with work at the others in between and in callbacks: %s", i, len(ds), bad)
		}
	}
	t.ClassIf(nested > 0, "work within callbacks")
	if nested > 0 {
		t.NonTrivial()
	}
}

func init() {
	pbt.Register(pbt.Prop{
		ID:   "C49",
		Rule: "two or more containers or ranges worked on in parallel, or one from within a callback of another",
		Assumptions: []string{"expected answers are those of the same work done alone",
			"schedules under the race detector are those the runtime happens to take; a race is found in any schedule in which two of them touch the same state"},
		Phases: []pbt.Phase{
			{Name: "within callbacks", Quick: 60000, Thorough: 900000, Clock: true, Run: withinCallbacks},
			{Name: "side by side", Quick: 20000, Thorough: 200000, Procs: 4, Workers: 4, NoRerun: true, Run: sideBySide},
			{Name: "race detector", Quick: 6000, Thorough: 60000, Procs: 4, Workers: 4, NoRerun: true, Race: true, Run: sideBySide},
		},
	})
}
