package props

import (
	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/stack"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/comparator"
	"verifharness/pbt"
)

// The printed form of containers too large to be printed in every history: nothing
// of it may depend on how long it gets.

const textBytes = "ab []%sd \x00\xff,"

// stringCase gives the contents: values, few or many digits each, and texts.
func stringCase(t *T) ([]int, []string) {
	n := 100 + t.Size(6000)
	if t.Bool(1, 3) {
		n = []int{255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097}[t.IntN(15)] + t.IntN(3) - 1
	}
	rng := pbt.NewRng(t.Uniform64())
	digits := []uint64{10, 1000, 1 << 20, 1 << 62}[t.IntN(4)]
	vals, texts := make([]int, n), make([]string, n/2)
	for i := range vals {
		vals[i] = int(rng.N(digits))
		if rng.N(4) == 0 {
			vals[i] = -vals[i]
		}
	}
	long := rng.N(3) == 0
	for i := range texts {
		b := make([]byte, rng.N(8))
		if long && rng.N(uint64(n)) < 4 {
			b = make([]byte, 1000+rng.N(5000))
		}
		for j := range b {
			b[j] = textBytes[rng.N(uint64(len(textBytes)))]
		}
		texts[i] = string(b)
	}
	t.Log("%d numbers below %d, %d texts, some of them long: %v", n, digits, len(texts), long)
	t.NonTrivial()
	return vals, texts
}

func sameText(t *T, what, got, want string) {
	if got == want {
		return
	}
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	cut := func(s string) string { return s[max(0, i-10):min(len(s), i+20)] }
	t.Failf("%s: String() gives %d bytes, expected %d; they differ at byte %d: ...%q..., expected ...%q...",
		what, len(got), len(want), i, cut(got), cut(want))
}

// stringsOf builds the container with make and compares its printed form before and
// after some elements are gone, which take removes from both.
func stringsOf[E any](t *T, what string, vs []E, mk func(vs []E) (str func() string, take func() []E)) {
	str, take := mk(vs)
	t.Log("%s of %d", what, len(vs))
	m := vs
	sameText(t, what, str(), listString(m))
	if take != nil {
		for i := t.IntN(40); i > 0; i-- {
			m = take()
		}
		sameText(t, what+", some elements removed", str(), listString(m))
	}
}

func stringsCheck[E comparable](t *T, id string, vs []E, cmp comparator.Comparator[E]) {
	vs = append([]E(nil), vs...)
	tail := func(f func(v E), pop func()) func() []E {
		m := vs
		for _, v := range vs {
			f(v)
		}
		return func() []E {
			if len(m) > 0 {
				pop()
				m = m[:len(m)-1]
			}
			return m
		}
	}
	head := func(f func(v E), pop func()) func() []E {
		m := vs
		for _, v := range vs {
			f(v)
		}
		return func() []E {
			if len(m) > 0 {
				pop()
				m = m[1:]
			}
			return m
		}
	}
	rev := func(f func(v E), pop func()) func() []E { // the last one in is shown first
		for i := len(vs) - 1; i >= 0; i-- {
			f(vs[i])
		}
		m := vs
		return func() []E {
			if len(m) > 0 {
				pop()
				m = m[1:]
			}
			return m
		}
	}
	switch id {
	case "C06":
		s := set.New(cmp)
		m := omodel[E]{cmp: cmp}
		for _, v := range vs {
			s.Insert(v)
			if !m.has(v) {
				m.insert(v, 0)
			}
		}
		sameText(t, "set", s.String(), listString(modelKeys(&m)))
	case "C08":
		s := set.NewMultiSet(cmp)
		m := omodel[E]{cmp: cmp}
		for _, v := range vs {
			s.Insert(v)
			m.insert(v, 0)
		}
		sameText(t, "multiset", s.String(), listString(modelKeys(&m)))
	case "C12":
		stringsOf(t, "deque", vs, func([]E) (func() string, func() []E) {
			d := deque.New[E]()
			if t.Bool(1, 2) {
				return d.String, tail(d.PushBack, func() { d.PopBack() })
			}
			return d.String, head(d.PushBack, func() { d.PopFront() })
		})
	case "C13":
		stringsOf(t, "vector", vs, func([]E) (func() string, func() []E) {
			v := vector.New[E]()
			return v.String, tail(v.PushBack, func() { v.PopBack() })
		})
	case "C14":
		a := array.New[E](len(vs))
		for i, v := range vs {
			a.Set(i, v)
		}
		sameText(t, "array", a.String(), listString(vs))
	case "C16":
		stringsOf(t, "bidlist", vs, func([]E) (func() string, func() []E) {
			l := bidlist.New[E]()
			if t.Bool(1, 2) {
				return l.String, tail(l.PushBack, func() { l.PopBack() })
			}
			return l.String, rev(l.PushFront, func() { l.PopFront() })
		})
	case "C17":
		stringsOf(t, "simplelist", vs, func([]E) (func() string, func() []E) {
			l := simplelist.New[E]()
			if t.Bool(1, 2) {
				return l.String, head(l.PushBack, func() { l.Remove(nil, l.FrontNode()) })
			}
			return l.String, rev(l.PushFront, func() { l.Remove(nil, l.FrontNode()) })
		})
	case "C18":
		stringsOf(t, "queue", vs, func([]E) (func() string, func() []E) {
			q := queue.New[E]()
			if t.Bool(1, 2) {
				q = queue.New[E](queue.WithListContainer[E]())
			}
			return q.String, head(q.Push, func() { q.Pop() })
		})
	case "C19":
		stringsOf(t, "stack", vs, func([]E) (func() string, func() []E) {
			s := stack.New[E]()
			if t.Bool(1, 2) {
				s = stack.New[E](stack.WithListContainer[E]())
			}
			return s.String, tail(s.Push, func() { s.Pop() })
		})
	}
}

func modelKeys[K any](m *omodel[K]) []K {
	ks := make([]K, len(m.es))
	for i, e := range m.es {
		ks[i] = e.k
	}
	return ks
}

func init() {
	for _, id := range []string{"C06", "C08", "C12", "C13", "C14", "C16", "C17", "C18", "C19"} {
		pbt.AddPhase(id, pbt.Phase{Name: "strings", Quick: 80, Thorough: 3000, Run: func(t *T) {
			vals, texts := stringCase(t)
			if t.Bool(1, 2) {
				stringsCheck(t, id, vals, comparator.IntComparator)
			} else {
				stringsCheck(t, id, texts, comparator.StringComparator)
			}
		}})
	}
}
