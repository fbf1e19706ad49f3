// Package pbt is a small property-based testing engine. Every random decision
// of a case is a recorded choice, so a case can be replayed and shrunk from the
// list of its choices alone.
package pbt

import (
	"fmt"
	"math/bits"
	"os"
	"runtime/debug"
	"strings"
)

// Rng is splitmix64.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }

func (r *Rng) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a value in [0, n); n > 0.
func (r *Rng) N(n uint64) uint64 {
	hi, _ := bits.Mul64(r.Next(), n)
	return hi
}

func mix(a, b uint64) uint64 {
	r := Rng{a ^ (b+0x9e3779b97f4a7c15)*0xd6e8feb86659fd93}
	r.Next()
	return r.Next()
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// failure is the panic value of a failed assertion.
type failure struct{ msg string }

// skipped is the panic value of a case that does not apply.
type skipped struct{}

// T is one case.
type T struct {
	rnd      *Rng // nil when replaying
	steer    bool // follow pre as far as it goes
	pre      []uint64
	pos      int
	rec      []uint64
	spans    []int // indexes into rec where a repeated step starts
	index    uint64
	thorough bool
	tracing  bool
	trace    []string
	traceF   *os.File
	choiceF  *os.File
	classes  []string
	nontriv  bool
	ticks    int
	budget   int
	cleanup  []func()
}

const defaultBudget = 30_000_000

func (t *T) choice(n uint64, gen func(*Rng) uint64) uint64 {
	var v uint64
	if t.steer {
		v = fresh
		if t.pos < len(t.pre) {
			v = t.pre[t.pos]
		}
		t.pos++
		if v == fresh {
			v = gen(t.rnd)
		}
		if n != 0 && v >= n {
			v %= n
		}
	} else if t.rnd == nil {
		if t.pos < len(t.pre) {
			v = t.pre[t.pos]
			if n != 0 && v >= n {
				v = n - 1
			}
		}
		t.pos++
	} else {
		v = gen(t.rnd)
		if n != 0 && v >= n {
			v = n - 1
		}
	}
	t.rec = append(t.rec, v)
	if t.choiceF != nil {
		fmt.Fprintf(t.choiceF, "%d\n", v)
	}
	return v
}

// IntN returns a uniform value in [0, n).
func (t *T) IntN(n int) int {
	if n <= 1 {
		return 0
	}
	return int(t.choice(uint64(n), func(r *Rng) uint64 { return r.N(uint64(n)) }))
}

// Range returns a uniform value in [lo, hi].
func (t *T) Range(lo, hi int) int { return lo + t.IntN(hi-lo+1) }

// U64 returns any 64-bit value, with small ones, extremes and powers of two frequent.
func (t *T) U64() uint64 {
	return t.choice(0, func(r *Rng) uint64 {
		switch r.N(6) {
		case 0:
			return r.N(4)
		case 1:
			return r.N(300)
		case 2:
			return (uint64(1) << r.N(64)) + r.N(3) - 1
		case 3:
			return ^uint64(0) - r.N(3)
		default:
			return r.Next()
		}
	})
}

// Uniform64 returns a uniform 64-bit value.
func (t *T) Uniform64() uint64 { return t.choice(0, func(r *Rng) uint64 { return r.Next() }) }

// Bool is true with probability num/den.
func (t *T) Bool(num, den int) bool {
	return t.choice(2, func(r *Rng) uint64 {
		if r.N(uint64(den)) < uint64(num) {
			return 1
		}
		return 0
	}) == 1
}

// Pick returns an index with probability proportional to its weight.
func (t *T) Pick(w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	return int(t.choice(uint64(len(w)), func(r *Rng) uint64 {
		k := int(r.N(uint64(sum)))
		for i, x := range w {
			if k < x {
				return uint64(i)
			}
			k -= x
		}
		return 0
	}))
}

// Variant returns a value in [0, n) that runs through all values in turn with the case number.
func (t *T) Variant(n int) int {
	if n <= 1 {
		return 0
	}
	return int(t.choice(uint64(n), func(r *Rng) uint64 { return t.index % uint64(n) }))
}

// Size returns a size in [0, max], small ones more often, max and its neighbourhood now and then.
func (t *T) Size(max int) int {
	if max <= 0 {
		return 0
	}
	return int(t.choice(uint64(max)+1, func(r *Rng) uint64 { return sizeDist(r, uint64(max)) }))
}

func sizeDist(r *Rng, max uint64) uint64 {
	m := max
	switch r.N(8) {
	case 0, 1, 2:
		m = min(max, 8)
	case 3, 4:
		m = min(max, 40)
	case 5:
		return max - r.N(max/8+1)
	}
	return r.N(m + 1)
}

// Repeat runs body a generated number of times between lo and hi (in a replay: as often as recorded).
func (t *T) Repeat(lo, hi int, body func(i int)) {
	n := -1
	if t.rnd != nil {
		n = lo + int(sizeDist(t.rnd, uint64(hi-lo)))
	}
	for i := 0; ; i++ {
		at := len(t.rec)
		more := t.choice(2, func(*Rng) uint64 {
			if i < n {
				return 1
			}
			return 0
		})
		if more == 0 {
			return
		}
		t.spans = append(t.spans, at)
		body(i)
	}
}

// RepeatN is Repeat with an exact number of rounds when generating.
func (t *T) RepeatN(n int, body func(i int)) { t.Repeat(n, n, body) }

// Index returns the case number (0 in a replay): use it only to seed choices.
func (t *T) Thorough() bool { return t.thorough }

// Failf ends the case as a violation.
func (t *T) Failf(format string, args ...any) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Skip drops the case.
func (t *T) Skip() { panic(skipped{}) }

// Check fails unless ok.
func (t *T) Check(ok bool, format string, args ...any) {
	if !ok {
		t.Failf(format, args...)
	}
}

// Tick counts one call of a caller-supplied function; a case that runs away is a violation.
func (t *T) Tick() {
	t.ticks++
	if t.ticks > t.budget {
		t.Failf("runaway: over %d calls of the caller's functions in one case", t.budget)
	}
}

// Log adds a line to the trace of the case.
func (t *T) Log(format string, args ...any) {
	if t.tracing {
		s := fmt.Sprintf(format, args...)
		if t.traceF != nil {
			fmt.Fprintln(t.traceF, s)
		}
		if len(t.trace) < 2000 {
			t.trace = append(t.trace, s)
		}
	}
}

// Tracing tells whether Log keeps its lines.
func (t *T) Tracing() bool { return t.tracing }

// Class counts the case under name (once per call; callers call it once per case and name).
func (t *T) Class(name string) {
	for _, c := range t.classes {
		if c == name {
			return
		}
	}
	t.classes = append(t.classes, name)
}

// ClassIf counts the case under name if ok.
func (t *T) ClassIf(ok bool, name string) {
	if ok {
		t.Class(name)
	}
}

// NonTrivial marks the case as non-trivial by the rule of its property.
func (t *T) NonTrivial() { t.nontriv = true }

// Try runs f and returns what it panicked with; violations pass through.
func Try(f func()) (p any) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case failure, skipped:
				panic(r)
			}
			p = r
		}
	}()
	f()
	return nil
}

// Panics runs f and tells whether it panicked.
func Panics(f func()) (yes bool) {
	done := false
	p := Try(func() { f(); done = true })
	_ = p
	return !done
}

type outcome struct {
	failed  bool
	skipped bool
	msg     string
	rec     []uint64
	spans   []int
	classes []string
	nontriv bool
	trace   []string
}

func runCase(t *T, run func(*T)) (o outcome) {
	t.budget = defaultBudget
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch v := r.(type) {
			case failure:
				o.failed, o.msg = true, v.msg
			case skipped:
				o.skipped = true
			default:
				o.failed = true
				o.msg = fmt.Sprintf("unexpected panic: %v\n%s", v, shortStack(debug.Stack()))
			}
		}()
		run(t)
	}()
	o.rec, o.spans, o.classes, o.nontriv, o.trace = t.rec, t.spans, t.classes, t.nontriv, t.trace
	return o
}

// shortStack keeps the frames of gostl and of the properties.
func shortStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		if (strings.Contains(lines[i], "liyue201/gostl") || strings.Contains(lines[i], "verifharness/props")) && strings.HasPrefix(lines[i+1], "\t") {
			f := lines[i]
			if k := strings.LastIndex(f, "("); k > 0 {
				f = f[:k]
			}
			out = append(out, "  at "+f+" "+strings.TrimSpace(lines[i+1]))
			if len(out) >= 12 {
				break
			}
		}
	}
	return strings.Join(out, "\n")
}
