package props

import (
	"bytes"
	"math"

	"github.com/liyue201/gostl/ds/pair"
	"github.com/liyue201/gostl/utils/comparator"
	"verifharness/pbt"
)

// ---- C01

// pat is a pattern of 64 bits with a companion pattern (imaginary parts) and bytes for strings.
type pat struct {
	u, w uint64
	s    string
}

func (p pat) float() float64 { return math.Float64frombits(p.u) }

// near draws a pattern related to p.
func (p pat) near(t *T, bits int) pat {
	q := p
	flip := func(u uint64) uint64 {
		switch t.IntN(7) {
		case 0:
			return u + 1
		case 1:
			return u - 1
		case 2:
			return u ^ 1<<t.IntN(bits)
		case 3:
			return u ^ 1<<(bits-1)
		case 4:
			return -u
		case 5:
			return t.U64()
		}
		return u
	}
	switch t.IntN(4) {
	case 0:
		q.u = flip(q.u)
	case 1:
		q.w = flip(q.w)
	case 2:
		q.u, q.w = flip(q.u), flip(q.w)
	}
	switch t.IntN(5) {
	case 4:
		if n := len(q.s); n > 0 { // differs near the end or is cut short
			if t.Bool(1, 3) {
				q.s = q.s[:n-1-t.IntN(min(n, 70))]
			} else {
				b := []byte(q.s)
				b[n-1-t.IntN(min(n, 70))]++
				q.s = string(b)
			}
		}
	case 0:
		q.s += string([]byte{byte(t.U64())})
	case 1:
		if len(q.s) > 0 {
			b := []byte(q.s)
			b[t.IntN(len(b))] ^= 1 << t.IntN(8)
			q.s = string(b)
		}
	case 2:
		q.s = genPatString(t)
	}
	return q
}

func genPatString(t *T) string {
	n := t.Size(20)
	if t.Bool(1, 8) {
		n = t.IntN(600)
		if t.Bool(1, 50) {
			n += 1 << t.IntN(17)
		}
		rng, fill := pbt.NewRng(t.Uniform64()), t.IntN(3)
		b := make([]byte, n)
		for i := range b {
			if fill == 0 {
				b[i] = byte(rng.N(256))
			} else {
				b[i] = byte(fill)
			}
		}
		return string(b)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(t.U64())
	}
	return string(b)
}

func genPat(t *T, float int) pat {
	part := func() uint64 {
		if float == 64 && t.Bool(1, 2) {
			return math.Float64bits([]float64{0, math.Copysign(0, -1), 1, -1, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, -math.MaxFloat64,
				math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, 1.5, math.Float64frombits(1<<63 | 0x7ff8<<48), math.Float64frombits(0x7ff0<<48 + 1)}[t.IntN(14)])
		}
		if float == 32 && t.Bool(1, 2) {
			return uint64([]uint32{0, 1 << 31, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 0x7f800001, 0x7f7fffff, 0xff7fffff, 1, 1<<31 + 1}[t.IntN(13)])
		}
		return t.U64()
	}
	return pat{part(), part(), genPatString(t)}
}

// fkey ranks a float of the given width by its bits: NaN lowest, both zeros equal.
func fkey(u uint64, bits int) int64 {
	mant, exp := 52, uint64(0x7ff)
	if bits == 32 {
		u = u & 0xffffffff
		mant, exp = 23, 0xff
	}
	neg := u>>(bits-1) == 1
	mag := u &^ (1 << (bits - 1))
	if mag > exp<<mant { // NaN
		return math.MinInt64
	}
	if neg {
		return -int64(mag)
	}
	return int64(mag)
}

func isNaNPat(u uint64, bits int) bool { return fkey(u, bits) == math.MinInt64 }

func cmpI64(a, b int64) int { return sgn(a > b) - sgn(a < b) }

// cmpBits compares two patterns as unsigned (or signed) numbers bit by bit.
func cmpBits(a, b uint64, bits int, signed bool) int {
	for i := bits - 1; i >= 0; i-- {
		x, y := int(a>>i&1), int(b>>i&1)
		if x != y {
			if signed && i == bits-1 {
				x, y = y, x
			}
			return x - y
		}
	}
	return 0
}

type (
	myInt    int32
	myFloat  float32
	myString string
	myPtr    uintptr
)

// cmpCase is a comparator with the order of the patterns its arguments are made of.
type cmpCase struct {
	name  string
	float int // floats of this width; 0: none
	noNaN bool
	bits  int
	call  func(a, b pat) int
	rev   func(a, b pat) int
	rev2  func(a, b pat) int
	want  func(a, b pat) int
}

func mkCmp[E any](name string, bits, float int, noNaN bool, cmp comparator.Comparator[E], mk func(pat) E, want func(a, b pat) int) cmpCase {
	r := comparator.Reverse(cmp)
	rr := comparator.Reverse(r)
	return cmpCase{name, float, noNaN, bits,
		func(a, b pat) int { return cmp(mk(a), mk(b)) },
		func(a, b pat) int { return r(mk(a), mk(b)) },
		func(a, b pat) int { return rr(mk(a), mk(b)) }, want}
}

func ints[E comparator.Integer](name string, bits int, signed bool, cmp comparator.Comparator[E]) []cmpCase {
	w := func(a, b pat) int { return cmpBits(a.u, b.u, bits, signed) }
	mk := func(p pat) E { return E(p.u) }
	out := []cmpCase{mkCmp("OrderedTypeCmp of "+name, bits, 0, false, comparator.OrderedTypeCmp[E], mk, w)}
	if cmp != nil {
		out = append(out, mkCmp(name, bits, 0, false, cmp, mk, w))
	}
	return out
}

func f32(u uint64) float32 { return math.Float32frombits(uint32(u)) }

var cmpCases = func() (out []cmpCase) {
	add := func(cs []cmpCase) { out = append(out, cs...) }
	add(ints("int", 64, true, comparator.IntComparator))
	add(ints("int8", 8, true, comparator.Int8Comparator))
	add(ints("int16", 16, true, comparator.Int16Comparator))
	add(ints("int32", 32, true, comparator.Int32Comparator))
	add(ints("int64", 64, true, comparator.Int64Comparator))
	add(ints("uint", 64, false, comparator.UintComparator))
	add(ints("uint8", 8, false, comparator.Uint8Comparator))
	add(ints("uint16", 16, false, comparator.Uint16Comparator))
	add(ints("uint32", 32, false, comparator.Uint32Comparator))
	add(ints("uint64", 64, false, comparator.Uint64Comparator))
	add(ints("uintptr", 64, false, comparator.UintptrComparator))
	add(ints[myInt]("a named int32", 32, true, nil))
	add(ints[myPtr]("a named uintptr", 64, false, nil))
	f := func(bits int) func(a, b pat) int {
		return func(a, b pat) int { return cmpI64(fkey(a.u, bits), fkey(b.u, bits)) }
	}
	c := func(bits int) func(a, b pat) int {
		return func(a, b pat) int {
			if r := cmpI64(fkey(a.u, bits), fkey(b.u, bits)); r != 0 {
				return r
			}
			return cmpI64(fkey(a.w, bits), fkey(b.w, bits))
		}
	}
	str := func(a, b pat) int { return bytes.Compare([]byte(a.s), []byte(b.s)) }
	add([]cmpCase{
		mkCmp("float32", 32, 32, false, comparator.Float32Comparator, func(p pat) float32 { return f32(p.u) }, f(32)),
		mkCmp("float64", 64, 64, false, comparator.Float64Comparator, pat.float, f(64)),
		mkCmp("OrderedTypeCmp of float32", 32, 32, true, comparator.OrderedTypeCmp[float32], func(p pat) float32 { return f32(p.u) }, f(32)),
		mkCmp("OrderedTypeCmp of a named float32", 32, 32, true, comparator.OrderedTypeCmp[myFloat], func(p pat) myFloat { return myFloat(f32(p.u)) }, f(32)),
		mkCmp("OrderedTypeCmp of float64", 64, 64, true, comparator.OrderedTypeCmp[float64], pat.float, f(64)),
		mkCmp("complex64", 32, 32, true, comparator.Complex64Comparator, func(p pat) complex64 { return complex(f32(p.u), f32(p.w)) }, c(32)),
		mkCmp("complex128", 64, 64, true, comparator.Complex128Comparator, func(p pat) complex128 { return complex(p.float(), math.Float64frombits(p.w)) }, c(64)),
		mkCmp("string", 64, 0, false, comparator.StringComparator, func(p pat) string { return p.s }, str),
		mkCmp("OrderedTypeCmp of string", 64, 0, false, comparator.OrderedTypeCmp[string], func(p pat) string { return p.s }, str),
		mkCmp("OrderedTypeCmp of a named string", 64, 0, false, comparator.OrderedTypeCmp[myString], func(p pat) myString { return myString(p.s) }, str),
		mkCmp("bool", 64, 0, false, comparator.BoolComparator, func(p pat) bool { return p.u&1 == 1 }, func(a, b pat) int { return int(a.u&1) - int(b.u&1) }),
		mkCmp("a caller's comparator", 64, 0, false, func(a, b pat) int { return cmpBits(a.w, b.w, 64, false) }, func(p pat) pat { return p }, func(a, b pat) int { return cmpBits(a.w, b.w, 64, false) }),
	})
	return
}()

func (c *cmpCase) usable(p pat) bool {
	return !c.noNaN || !isNaNPat(p.u, c.bits) && !isNaNPat(p.w, c.bits)
}

func (c *cmpCase) one(t *T, a, b pat) int {
	w := c.want(a, b)
	if g := c.call(a, b); g != w {
		t.Failf("%s comparator of %#x, %#x and %#x, %#x (strings %q, %q) = %d, expected %d", c.name, a.u, a.w, b.u, b.w, a.s, b.s, g, w)
	}
	if g := c.rev(a, b); g != -w {
		t.Failf("reversed %s comparator of %#x, %#x and %#x, %#x (strings %q, %q) = %d, expected %d", c.name, a.u, a.w, b.u, b.w, a.s, b.s, g, -w)
	}
	if g := c.rev2(a, b); g != w {
		t.Failf("twice reversed %s comparator of %#x, %#x and %#x, %#x (strings %q, %q) = %d, expected %d", c.name, a.u, a.w, b.u, b.w, a.s, b.s, g, w)
	}
	return w
}

func runCompare(t *T) {
	c := &cmpCases[t.Variant(len(cmpCases))]
	ps := []pat{genPat(t, c.float)}
	t.Repeat(2, 6, func(int) {
		if t.Bool(1, 3) {
			ps = append(ps, genPat(t, c.float))
		} else {
			ps = append(ps, ps[t.IntN(len(ps))].near(t, c.bits))
		}
	})
	seen := [3]bool{}
	for _, a := range ps {
		for _, b := range ps {
			if c.usable(a) && c.usable(b) {
				seen[c.one(t, a, b)+1] = true
			}
		}
		t.ClassIf(c.float > 0 && !c.noNaN && isNaNPat(a.u, c.bits), "NaN")
	}
	t.Log("%s: %v", c.name, ps)
	t.Class(c.name)
	if seen[0] && seen[1] && seen[2] {
		t.NonTrivial()
	}
}

// runBytes compares one 8-bit value with all others.
func runBytes(t *T) {
	a := t.Variant(256)
	k := t.IntN(4)
	for i := range cmpCases {
		c := &cmpCases[i]
		if c.bits != 8 {
			continue
		}
		for b := 0; b < 256; b++ {
			c.one(t, pat{u: uint64(a) | uint64(k)<<8}, pat{u: uint64(b)})
		}
	}
	t.Log("%d", a)
	t.NonTrivial()
}

// ---- C44

type pt struct {
	X int
	Y string
}

// pval describes a value: equal descriptions make equal values, different ones different values.
type pval struct{ typ, id int }

const pvalTypes = 21

var pptrs = [4]*int{new(int), new(int), new(int), new(int)}
var pchans = [4]chan int{make(chan int), make(chan int), make(chan int), make(chan int)}

func (p pval) value() any {
	i := p.id
	switch p.typ {
	case 0:
		return nil
	case 1:
		return i
	case 2:
		return int64(i)
	case 3:
		return uint(i)
	case 4:
		return uint8(i)
	case 5:
		return rune(i)
	case 6:
		return float64(i)
	case 7:
		return float32(i)
	case 8:
		return []string{"", "a", "a\x00", "b"}[i]
	case 9:
		return myString([]string{"", "a", "a\x00", "b"}[i])
	case 10:
		return i&1 == 1
	case 11:
		return pt{i & 1, []string{"", "x"}[i>>1]}
	case 12:
		return &pt{i, ""} // a new pointer each time: equal to itself only
	case 13:
		return pptrs[i]
	case 14:
		return pchans[i]
	case 15:
		return [2]int{i & 1, i >> 1}
	case 16:
		return complex(float64(i&1), float64(i>>1))
	case 17:
		return pair.Pair{Front: i & 1, Back: i >> 1}
	case 18:
		return math.NaN()
	case 19:
		return (*int)(nil)
	default:
		return [1]any{i}
	}
}

func (p pval) norm() pval {
	switch p.typ {
	case 0, 18, 19:
		p.id = 0
	case 10:
		p.id &= 1
	}
	return p
}

type pmodel struct {
	fd, bd pval
	f, b   any
}

func (a pmodel) equal(b pmodel) bool {
	eq := func(x, y pval, vx, vy any) bool {
		if x.typ != y.typ || x.typ == 18 {
			return false
		}
		if x.typ == 12 {
			return vx.(*pt) == vy.(*pt)
		}
		return x.norm() == y.norm()
	}
	return eq(a.fd, b.fd, a.f, b.f) && eq(a.bd, b.bd, a.b, b.b)
}

func identical(x, y any) bool {
	if f, ok := x.(float64); ok && f != f {
		g, ok := y.(float64)
		return ok && g != g
	}
	return x == y
}

func runPair(t *T) {
	var ps []*pair.Pair
	var ms []pmodel
	pool := []pval{}
	gen := func() pval {
		if len(pool) > 0 && t.Bool(2, 3) {
			p := pool[t.IntN(len(pool))]
			switch t.IntN(4) {
			case 0:
				p.id = t.IntN(4)
			case 1:
				p.typ = t.IntN(pvalTypes)
			}
			return p
		}
		p := pval{t.IntN(pvalTypes), t.IntN(4)}
		pool = append(pool, p)
		return p
	}
	same, diff := false, false
	t.Repeat(1, 12, func(int) {
		m := pmodel{fd: gen(), bd: gen()}
		if len(ms) > 0 && t.Bool(1, 2) { // half of another pair
			o := ms[t.IntN(len(ms))]
			k := t.IntN(3)
			m.f, m.b = m.fd.value(), m.bd.value()
			if k != 0 {
				m.fd, m.f = o.fd, o.f
			}
			if k != 1 {
				m.bd, m.b = o.bd, o.b
			}
		} else {
			m.f, m.b = m.fd.value(), m.bd.value()
		}
		at := len(ps)
		switch k := t.Pick(4, 2, 3, 2); {
		case k == 0 || len(ps) == 0 && k > 1:
			ps, ms = append(ps, pair.MakePair(m.f, m.b)), append(ms, m)
		case k == 1:
			ps, ms = append(ps, new(pair.Pair)), append(ms, m)
			ps[at].New(m.f, m.b)
		case k == 2:
			at = t.IntN(len(ps))
			ps[at].New(m.f, m.b)
			ms[at] = m
		case k == 3: // a copy stays as it is when the original changes
			i := t.IntN(len(ps))
			c := *ps[i]
			ps, ms = append(ps, &c), append(ms, ms[i])
			ps[i].New(m.f, m.b)
			ms[i] = m
		}
		t.Log("pair %d: (%T %v, %T %v)", at, m.f, m.f, m.b, m.b)
		for i, p := range ps {
			if f, b := p.Fronts(), p.Backs(); !identical(f, ms[i].f) || !identical(b, ms[i].b) || !identical(p.Front, ms[i].f) || !identical(p.Back, ms[i].b) {
				t.Failf("pair %d holds (%T %v, %T %v), expected (%T %v, %T %v)", i, f, f, b, b, ms[i].f, ms[i].f, ms[i].b, ms[i].b)
			}
			for j, q := range ps {
				w := ms[i].equal(ms[j])
				if p.Equal(*q) != w {
					t.Failf("pair (%T %v, %T %v) equals (%T %v, %T %v): %v", p.Front, p.Front, p.Back, p.Back, q.Front, q.Front, q.Back, q.Back, !w)
				}
				same = same || i != j && w
				diff = diff || !w
			}
		}
	})
	t.ClassIf(same, "two equal pairs")
	if same && diff {
		t.NonTrivial()
	}
}

func init() {
	pbt.Register(pbt.Prop{
		ID:          "C01",
		Rule:        "values that compare below, equal and above (bytes: each value with all others)",
		Assumptions: []string{"no NaN for the complex and the generic comparator", "the wrapped comparator returns -1, 0 or 1, as its type documents"},
		Phases: []pbt.Phase{{Name: "values", Quick: 1000000, Thorough: 20000000, Run: runCompare},
			{Name: "all bytes", Quick: 1024, Thorough: 1024, Run: runBytes}},
	})
	pbt.Register(pbt.Prop{
		ID:          "C44",
		Rule:        "two pairs that are equal and two that are not",
		Assumptions: []string{"dynamic types are comparable", "NaN is unequal to itself, as in Go"},
		Phases:      []pbt.Phase{{Name: "pairs", Quick: 1200000, Thorough: 10000000, Run: runPair}},
	})
}
