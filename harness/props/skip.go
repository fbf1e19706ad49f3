package props

import (
	"errors"
	"math"
	"time"

	"github.com/liyue201/gostl/ds/skiplist"
	"verifharness/pbt"
)

// pinRand moves the fake clock, from which a skiplist seeds its level draws.
func pinRand(t *T) { time.Sleep(time.Duration(t.IntN(1_000_000)) * time.Second) }

// levelLimit draws a level limit; 0 is the default.
func levelLimit(t *T) int {
	if t.Bool(1, 4) {
		return t.Range(1, 64)
	}
	return []int{0, 1, 2, 3, 4, 10, 16, 32, 63, 64}[t.IntN(10)]
}

func skipOpts(limit int, safe bool) (opts []skiplist.Option) {
	if safe {
		opts = append(opts, skiplist.WithGoroutineSafe())
	}
	if limit > 0 {
		opts = append(opts, skiplist.WithMaxLevel(limit))
	}
	return opts
}

// ---- C10

type skipState[K any] struct {
	t  *T
	d  *dom[K]
	l  *skiplist.Skiplist[K, int]
	m  omodel[K]
	no int

	given given[K]
}

func (s *skipState[K]) pick() K {
	t := s.t
	if n := len(s.m.es); n > 0 && t.Bool(1, 2) {
		k := s.m.es[[]int{0, n - 1, t.IntN(n)}[t.Pick(1, 1, 4)]].k
		if t.Bool(1, 3) {
			return s.d.near(k)
		}
		return k
	}
	return s.d.gen()
}

func (s *skipState[K]) insert(k K) {
	s.no++
	s.t.Log("Insert(%v, %d)", k, s.no)
	s.l.Insert(k, s.no)
	if i := s.m.lower(k); s.m.has(k) {
		s.m.es[i].v = s.no
	} else {
		s.m.insert(k, s.no)
	}
}

func (s *skipState[K]) get(k K) {
	v, err := s.l.Get(k)
	s.t.Log("Get(%v) = %d, %v", k, v, err)
	if !s.m.has(k) {
		if !errors.Is(err, skiplist.ErrorNotFound) || v != 0 {
			s.t.Failf("Get(%v) = %d, %v; the key is not there", k, v, err)
		}
		return
	}
	if w := s.m.es[s.m.lower(k)].v; err != nil || v != w {
		s.t.Failf("Get(%v) = %d, %v; expected %d", k, v, err, w)
	}
}

func (s *skipState[K]) remove(k K) {
	ok := s.l.Remove(k)
	s.t.Log("Remove(%v) = %v", k, ok)
	if ok != s.m.has(k) {
		s.t.Failf("Remove(%v) = %v; expected %v", k, ok, !ok)
	}
	if ok {
		s.m.removeAt(s.m.lower(k))
	}
}

func (s *skipState[K]) length() {
	if n := s.l.Len(); n != len(s.m.es) {
		s.t.Failf("Len = %d, expected %d", n, len(s.m.es))
	}
}

func (s *skipState[K]) all() {
	t := s.t
	s.length()
	i := 0
	s.l.Traversal(func(k K, v int) bool {
		if i >= len(s.m.es) {
			t.Failf("Traversal visits %v=%d after all %d entries", k, v, i)
		}
		if e := s.m.es[i]; s.d.cmp(k, e.k) != 0 || v != e.v {
			t.Failf("Traversal: entry %d is %v=%d, expected %v=%d", i, k, v, e.k, e.v)
		}
		i++
		return true
	})
	if i != len(s.m.es) {
		t.Failf("Traversal visits %d of %d entries", i, len(s.m.es))
	}
	s.given.eq = func(a, b K) bool { return s.d.cmp(a, b) == 0 }
	s.given.verify(t)
	ks := s.l.Keys()
	s.given.keep("Keys()", ks)
	if len(ks) != len(s.m.es) {
		t.Failf("Keys gives %d keys, expected %d", len(ks), len(s.m.es))
	}
	for i, k := range ks {
		if s.d.cmp(k, s.m.es[i].k) != 0 {
			t.Failf("Keys: key %d is %v, expected %v", i, k, s.m.es[i].k)
		}
	}
	if len(ks) > 0 && t.Bool(1, 8) { // the slice is the caller's
		for i, k := range s.l.Keys() {
			if s.d.cmp(k, ks[i]) != 0 {
				t.Failf("Keys: key %d is %v the second time, expected %v", i, k, ks[i])
			}
		}
		o := s.l.Keys()
		for i := range o {
			o[i] = o[len(o)-1]
		}
	}
}

func (s *skipState[K]) step() {
	switch s.t.Pick(5, 4, 4, 1) {
	case 0:
		s.insert(s.pick())
	case 1:
		s.remove(s.pick())
	case 2:
		s.get(s.pick())
	case 3:
		s.all()
	}
	s.length()
}

// bulk inserts or removes a run of keys in a drawn order.
func (s *skipState[K]) bulk(n int) {
	t := s.t
	from, order, kind := t.IntN(n+1), t.IntN(4), t.IntN(4)
	rng := pbt.NewRng(t.Uniform64())
	t.Log("bulk of %d from %d, order %d, kind %d", n, from, order, kind)
	at := func(i int) int {
		switch order {
		case 1:
			return n - 1 - i
		case 2:
			return int(rng.N(uint64(n)))
		case 3:
			if i%2 == 0 {
				return i / 2
			}
			return n - 1 - i/2
		}
		return i
	}
	for i := 0; i < n; i++ {
		k := s.d.at(from + at(i))
		switch {
		case kind < 2:
			s.insert(k)
		case kind == 2:
			s.remove(k)
		default:
			s.get(k)
		}
	}
	s.all()
}

func skipHistory[K any](d *dom[K]) {
	t := d.t
	limit, safe := levelLimit(t), t.Bool(1, 2)
	opts := options(t, skipOpts(limit, safe)...)
	n := 1 + sgn(t.Bool(1, 4))
	var ss []*skipState[K]
	for i := 0; i < n; i++ { // several lists from the same options
		pinRand(t)
		ss = append(ss, &skipState[K]{t: t, d: d, l: skiplist.New[K, int](d.cmpFn(), opts...), m: omodel[K]{cmp: d.cmp}})
	}
	t.Log("keys %s, level limit %d, goroutine safe %v, %d lists", d.name, limit, safe, n)
	maxN, removed := 0, false
	body := func(s *skipState[K]) {
		before := len(s.m.es)
		s.step()
		removed = removed || len(s.m.es) < before
		maxN = max(maxN, len(s.m.es))
	}
	if t.Bool(1, 4) {
		top := 300
		if t.Thorough() {
			top = 3000
		}
		ss[0].bulk(1 + t.Size(top))
		maxN = len(ss[0].m.es)
	}
	t.Repeat(1, 120, func(int) {
		body(ss[t.IntN(n)])
		if t.Bool(1, 60) {
			ss[0].bulk(1 + t.Size(120))
		}
	})
	for _, s := range ss {
		s.all()
		for i := 0; i < 10; i++ {
			s.get(s.pick())
		}
	}
	t.ClassIf(limit == 1, "one level")
	t.ClassIf(limit >= 32, "level limit >= 32")
	t.ClassIf(maxN >= 100, "100 keys")
	if maxN >= 4 && removed {
		t.NonTrivial()
	}
}

// ---- C11

func runSkipCost(t *T) {
	pinRand(t)
	top := 4000
	if t.Thorough() {
		top = 30000
	}
	n := 60 + t.IntN(top)
	need := int(math.Ceil(math.Log2(float64(n))))
	limit := 0
	switch t.Pick(2, 2, 1, 1) {
	case 0:
		limit = need
	case 1:
		limit = t.Range(need, 64)
	case 2:
		limit = 64
	case 3:
		if n > 1000 {
			n = 1000 - t.IntN(500)
			need = 10
		}
	}
	calls, shown, lookup := 0, 0, 1
	stamp := make([]int, 2*n+1) // by key+1: the last lookup that compared it
	l := skiplist.New[int, int](func(a, b int) int {
		calls++
		for _, k := range [2]int{a, b} {
			if stamp[k+1] != lookup {
				stamp[k+1] = lookup
				shown++
			}
		}
		t.Tick()
		return cmpInt(a, b)
	}, skipOpts(limit, t.Bool(1, 4))...)
	order := t.IntN(6)
	rng := pbt.NewRng(t.Uniform64())
	keys := make([]int, n) // even keys; odd ones are absent
	for i := range keys {
		keys[i] = 2 * i
	}
	shuffle := func(a []int) {
		for i := len(a) - 1; i > 0; i-- {
			j := int(rng.N(uint64(i + 1)))
			a[i], a[j] = a[j], a[i]
		}
	}
	ins := cloneSlice(keys)
	switch order {
	case 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			ins[i], ins[j] = ins[j], ins[i]
		}
	case 2:
		shuffle(ins)
	case 3: // from both ends inwards
		for i := range ins {
			if i%2 == 0 {
				ins[i] = keys[i/2]
			} else {
				ins[i] = keys[n-1-i/2]
			}
		}
	case 4: // from the middle outwards
		for i := range ins {
			if i%2 == 0 {
				ins[n-1-i] = keys[i/2]
			} else {
				ins[n-1-i] = keys[n-1-i/2]
			}
		}
	case 5: // ascending blocks in random order
		ins = ins[:0]
		blocks := make([]int, (n+15)/16)
		for i := range blocks {
			blocks[i] = i
		}
		shuffle(blocks)
		for _, b := range blocks {
			ins = append(ins, keys[b*16:min(n, b*16+16)]...)
		}
	}
	for i, k := range ins {
		l.Insert(k, k)
		if i%7 == 3 && order%2 == 0 {
			l.Insert(k, k) // again
		}
	}
	live := keys
	thin := t.Pick(3, 2, 2, 1, 1)
	drop := func(f func(i int) bool) {
		var rest []int
		for i, k := range live {
			if f(i) {
				l.Remove(k)
			} else {
				rest = append(rest, k)
			}
		}
		live = rest
	}
	switch thin {
	case 1:
		p := rng.N(100)
		drop(func(int) bool { return rng.N(100) < p })
	case 2:
		q := 2 + int(rng.N(9))
		drop(func(i int) bool { return i%q != 0 })
	case 3:
		at := int(rng.N(uint64(n)))
		drop(func(i int) bool { return i < at })
	case 4: // remove and insert in turn
		gone := cloneSlice(live)
		shuffle(gone)
		for i, k := range gone[:len(gone)*3/4] {
			l.Remove(k)
			if i >= 5 {
				l.Insert(gone[i-5], 0)
			}
		}
		drop(func(int) bool { return false })
		live = live[:0]
		for _, k := range l.Keys() {
			live = append(live, k)
		}
	}
	m := len(live)
	if m == 0 {
		t.Skip()
	}
	const lookups = 400
	worst, total := 0, 0
	shown = 0
	for i := 0; i < lookups; i++ {
		lookup++
		k := live[rng.N(uint64(m))]
		if i%2 == 1 {
			k += 1 - 2*int(rng.N(2))
		}
		calls = 0
		l.Get(k)
		worst = max(worst, calls)
		total += calls
	}
	avg, keysAvg := float64(total)/lookups, float64(shown)/lookups-1 // but for the key looked up
	bound := costBound(m)
	t.Log("n=%d live=%d limit=%d order=%d thin=%d: %.1f comparisons with %.1f keys on average (worst %d), bound for keys %.1f", n, m, limit, order, thin, avg, keysAvg, worst, bound)
	if keysAvg > bound || avg > 4*bound {
		t.Failf("%d keys (of %d inserted), level limit %d, insertion order %d, removals %d: %.1f comparisons with %.1f keys per lookup on average, more than %.0f or %.0f", m, n, limit, order, thin, avg, keysAvg, 4*bound, bound)
	}
	t.ClassIf(thin > 0, "thinned")
	t.ClassIf(m >= 1000, "1000 keys")
	if float64(m)/2 > 1.5*bound { // a linear search would fail
		t.NonTrivial()
	}
}

// costBound is the average number of keys a lookup among n may compare with.
func costBound(n int) float64 { return 3*math.Log2(float64(n)+2) + 8 }

func init() {
	pbt.Register(pbt.Prop{
		ID:          "C10",
		Rule:        "at least 4 keys at some point and a successful removal",
		Assumptions: []string{"level limits 1 to 64", "level draws are pinned by the fake clock the seed is read from; without it they are the same draws of another seed", "which of several keys of equal order is kept is not claimed"},
		Phases: []pbt.Phase{{Name: "history", Quick: 450000, Thorough: 1500000, Clock: true, Run: func(t *T) {
			withDom(t, skipHistory[int], skipHistory[string], skipHistory[Key])
		}}},
	})
	pbt.Register(pbt.Prop{
		ID:          "C11",
		Rule:        "so many live keys that a linear search (half of them compared) would be more than half above the bound",
		Assumptions: []string{"level limit at least log2 of the number of keys inserted, or the default 10 with at most 1000 keys", "bound: 3*log2(n+2)+8 keys compared, and four times as many comparisons, on average over 400 lookups, half of them of absent keys"},
		Phases:      []pbt.Phase{{Name: "cost", Quick: 8000, Thorough: 40000, Clock: true, Run: runSkipCost}},
	})
}
