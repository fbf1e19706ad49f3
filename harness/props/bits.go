package props

import (
	"bytes"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"runtime/debug"

	"github.com/liyue201/gostl/algorithm/hash"
	"github.com/liyue201/gostl/ds/bitmap"
	"github.com/liyue201/gostl/ds/bloomfilter"
	"verifharness/pbt"
)

// ---- C22: bitmap

type bstate struct {
	b    *bitmap.Bitmap
	size uint64
	set  map[uint64]bool
}

func roundUp8(n uint64) uint64 { return (n + 7) / 8 * 8 }

func (s *bstate) check(t *T) {
	if s.b.Size() != s.size {
		t.Failf("Size() = %d, expected %d", s.b.Size(), s.size)
	}
	if s.size <= 1200 {
		for i := uint64(0); i < s.size+9; i++ {
			if g := s.b.IsSet(i); g != s.set[i] {
				t.Failf("IsSet(%d) = %v of %d bits, expected %v", i, g, s.size, s.set[i])
			}
		}
	} else {
		for i := range s.set {
			for _, j := range []uint64{i - 1, i, i + 1, i ^ 8, i ^ 64} {
				if g := s.b.IsSet(j); g != s.set[j] {
					t.Failf("IsSet(%d) = %v of %d bits, expected %v", j, g, s.size, s.set[j])
				}
			}
		}
	}
}

func runBitmap(t *T) {
	big := t.Bool(1, 20)
	size := func() uint64 {
		if big {
			return uint64(t.Size(300000))
		}
		return uint64(t.Size(300))
	}
	n := size()
	s := &bstate{bitmap.New(n), roundUp8(n), map[uint64]bool{}}
	t.Log("bitmap of %d bits", n)
	bit := func() uint64 {
		switch t.Pick(6, 3, 1, 1, 1) {
		case 1: // at the edges of bytes
			return min(uint64(t.Size(int(s.size/8)))*8+uint64(t.IntN(3))-1, s.size+8)
		case 2: // at and past the end
			return s.size + uint64(t.IntN(20)) - 4
		case 3: // far past the end
			return t.U64() | 1<<uint(20+t.IntN(44))
		case 4: // aliasing an existing position modulo a power of two
			return uint64(t.IntN(int(s.size)+1)) + 1<<uint(20+t.IntN(44))
		}
		return uint64(t.IntN(int(s.size) + 1))
	}
	resized, cleared, unset, refused := 0, 0, 0, 0
	s.check(t)
	t.Repeat(1, 60, func(int) {
		switch t.Pick(10, 6, 1, 3, 2, 1) {
		case 0:
			p := bit()
			in := p < s.size
			t.Log("Set %d", p)
			if g := s.b.Set(p); g != in {
				t.Failf("Set(%d) of %d bits = %v", p, s.size, g)
			}
			if in {
				s.set[p] = true
			} else {
				refused++
			}
		case 1:
			p := bit()
			if len(s.set) > 0 && t.Bool(2, 3) { // a set one: the k-th above p
				best, found := uint64(0), false
				for q := range s.set {
					if !found || q-p < best-p {
						best, found = q, true
					}
				}
				p = best
			}
			in := p < s.size
			t.Log("Unset %d", p)
			if g := s.b.Unset(p); g != in {
				t.Failf("Unset(%d) of %d bits = %v", p, s.size, g)
			}
			if s.set[p] {
				unset++
			}
			delete(s.set, p)
			if !in {
				refused++
			}
		case 2:
			if t.Bool(1, 2) {
				t.Log("Clear")
				s.b.Clear()
				s.set = map[uint64]bool{}
				cleared++
			}
		case 3:
			n := size()
			if t.Bool(1, 2) {
				n = s.size + uint64(t.IntN(24)) - min(s.size, uint64(t.IntN(24)))
			}
			t.Log("Resize %d", n)
			s.b.Resize(n)
			s.size = roundUp8(n)
			for p := range s.set {
				if p >= s.size {
					delete(s.set, p)
				}
			}
			resized++
		case 4:
			t.Log("rebuild from the exported data")
			r := &bstate{bitmap.NewFromData(append([]byte(nil), s.b.Data()...)), s.size, s.set}
			r.check(t)
			if t.Bool(1, 2) {
				s = r
			}
		case 5: // a run
			from := bit()
			for k := 1 + t.Size(40); k > 0; k-- {
				if s.b.Set(from) {
					s.set[from] = true
				}
				from += 3
			}
			t.Log("Set a run up to %d", from)
		}
		for p := range s.set {
			if p >= s.size {
				t.Failf("Set(%d) of %d bits was accepted", p, s.size)
			}
		}
		s.check(t)
	})
	t.ClassIf(resized > 0, "resized")
	t.ClassIf(cleared > 0, "cleared")
	t.ClassIf(refused > 0, "position past the end")
	if len(s.set) > 0 && (unset > 0 || resized > 0) {
		t.NonTrivial()
	}
}

// ---- C23: bloom filter

type filter struct {
	name  string
	f     *bloom.BloomFilter
	added map[string]bool
	snap  []bool // answers on the pool, when nothing was added since
}

func runBloom(t *T) {
	var m, k uint64
	switch t.Pick(2, 5, 4, 2) {
	case 0:
		m = 1 + uint64(t.IntN(9))
	case 1:
		m = 1 + uint64(t.IntN(500))
	case 2:
		m = 1 + uint64(t.IntN(5000))
	default:
		m = 1 + uint64(t.IntN(200000))
	}
	k = []uint64{1, 2, 3, 7, 8, 9, 16, 17, 40}[t.IntN(9)]
	poolSize := 40
	if t.Bool(1, 12) { // more hashes than a byte counts
		k = 60 + uint64(t.IntN(600))
		m = 1 + uint64(t.IntN(2000))
		poolSize = 8
	}
	mkOpts := func() []bloom.Option {
		if t.Bool(1, 2) {
			return []bloom.Option{bloom.WithGoroutineSafe()}
		}
		return nil
	}
	var f *bloom.BloomFilter
	if t.Bool(1, 4) {
		n := 1 + t.Size(300)
		p := math.Pow(10, -float64(1+t.IntN(50))/10)
		t.Log("filter for %d values at rate %g", n, p)
		f = bloom.NewWithEstimates(uint64(n), p, mkOpts()...)
	} else {
		t.Log("filter of %d bits with %d hashes", m, k)
		f = bloom.New(m, k, mkOpts()...)
	}
	var pool []string
	seed := t.Uniform64()
	r := pbt.NewRng(seed)
	for i := 0; i < poolSize; i++ {
		b := make([]byte, r.N(12))
		if i == poolSize-1 {
			b = make([]byte, 300)
		}
		for j := range b {
			b[j] = byte(r.Next())
		}
		pool = append(pool, string(b))
	}
	pool[0] = ""
	pool[1] = "\x00"
	pool[2] = pool[3] + "x"
	t.Log("pool of %d strings from seed %d", len(pool), seed)
	fs := []*filter{{name: "filter 0", f: f, added: map[string]bool{}}}
	answers := func(f *filter) []bool {
		out := make([]bool, len(pool))
		for i, s := range pool {
			out[i] = f.f.Contains(s)
			if f.added[s] && !out[i] {
				t.Failf("%s does not contain the added string %q", f.name, s)
			}
			if len(f.added) == 0 && out[i] {
				t.Failf("%s contains %q although nothing was added", f.name, s)
			}
		}
		return out
	}
	refresh := func(f *filter) { f.snap = answers(f) }
	refresh(fs[0])
	rebuilt, divergent, fpos := 0, 0, false
	copyOf := func(f *filter, name string) *filter {
		g := &filter{name: name, f: bloom.NewFromData(f.f.Data(), mkOpts()...), added: map[string]bool{}}
		for s := range f.added {
			g.added[s] = true
		}
		g.snap = cloneSlice(f.snap)
		return g
	}
	t.Repeat(1, 16, func(int) {
		f := fs[t.IntN(len(fs))]
		switch t.Pick(6, 3, 3) {
		case 0:
			s := pool[t.IntN(len(pool))]
			t.Log("%s: add %q", f.name, s)
			f.f.Add(s)
			f.added[s] = true
			refresh(f)
			divergent++
		case 1:
			if len(fs) < 4 {
				g := copyOf(f, fmt.Sprintf("filter %d", len(fs)))
				t.Log("%s: rebuilt from the data of %s", g.name, f.name)
				fs = append(fs, g)
				rebuilt++
			}
		case 2: // a twin that gets the same additions
			g := copyOf(f, "a twin of "+f.name)
			t.Log("a twin of %s, then the same additions to both", f.name)
			rebuilt++
			for i := 1 + t.IntN(4); i > 0; i-- {
				s := pool[t.IntN(len(pool))]
				t.Log("  add %q", s)
				f.f.Add(s)
				f.added[s] = true
				if now := answers(g); !eqSlice(now, g.snap) {
					t.Failf("an addition to %s changed the answers of a filter rebuilt from its data", f.name)
				}
				g.f.Add(s)
				g.added[s] = true
				refresh(f)
				refresh(g)
				if !eqSlice(f.snap, g.snap) {
					t.Failf("%s and a filter rebuilt from its data answer differently after the same additions", f.name)
				}
			}
			if !bytes.Equal(f.f.Data(), g.f.Data()) {
				t.Failf("%s and a filter rebuilt from its data export differently after the same additions", f.name)
			}
		}
		for _, g := range fs {
			now := answers(g)
			if !eqSlice(now, g.snap) {
				for i := range now {
					if now[i] != g.snap[i] {
						t.Failf("%s answers %v for %q, before it was %v, and nothing was added to it since", g.name, now[i], pool[i], g.snap[i])
					}
				}
			}
		}
	})
	no := 0
	for _, f := range fs {
		for i, y := range f.snap {
			if y && !f.added[pool[i]] {
				fpos = true
			}
			if !y {
				no++
			}
		}
	}
	t.ClassIf(rebuilt > 0, "rebuilt")
	t.ClassIf(fpos, "a false positive preserved")
	if divergent > 0 && rebuilt > 0 && no > 0 {
		t.NonTrivial()
	}
}

// ---- C24: false-positive rate

func popcount(b []byte) int {
	n := 0
	for _, x := range b {
		n += bits.OnesCount8(x)
	}
	return n
}

var rates = []float64{0.5, 0.3, 0.1, 0.05, 0.01, 1e-3, 1e-4, 1e-5}

func runEstimates(t *T) {
	n := uint64(50 + t.Size(100000000))
	p := rates[t.IntN(len(rates))] * (1 - float64(t.IntN(100))/200)
	p = math.Max(p, 1e-5)
	m, k := bloom.EstimateParameters(n, p)
	rate := math.Pow(1-math.Exp(-float64(k)*float64(n)/float64(m)), float64(k))
	best := -float64(n) * math.Log(p) / (math.Ln2 * math.Ln2)
	t.Log("n %d p %g: m %d k %d, formula gives %g", n, p, m, k, rate)
	if rate > 1.3*p {
		t.Failf("EstimateParameters(%d, %g) = %d, %d, which gives a rate of %g", n, p, m, k, rate)
	}
	if float64(m) > 1.05*best+64 {
		t.Failf("EstimateParameters(%d, %g) = %d, %d: the formula needs %.0f bits only", n, p, m, k, best)
	}
	t.NonTrivial()
}

func runRate(t *T) {
	p := rates[t.Variant(len(rates))]
	n := []int{60, 150, 400, 1000, 3000}[t.IntN(5)]
	q := 4000 + int(math.Min(20/p, 120000))
	if t.Thorough() {
		n = []int{60, 400, 2000, 10000, 50000}[t.IntN(5)]
		q *= 4
	}
	seed := t.Uniform64()
	family := t.IntN(3)
	mk := func(i int, in bool) string {
		side := "b"
		if in {
			side = "a"
		}
		switch family {
		case 0:
			return fmt.Sprintf("%s%d/%d", side, seed, i)
		case 1: // side hidden at the end
			return fmt.Sprintf("key-%d-%d%s", i, seed%1000000, side)
		default:
			r := pbt.NewRng(seed ^ uint64(i)*2 ^ uint64(sgn(in)))
			b := make([]byte, 24)
			for j := range b {
				b[j] = byte(r.Next())
			}
			return string(b)
		}
	}
	f := bloom.NewWithEstimates(uint64(n), p)
	empty := popcount(f.Data())
	m, k := bloom.EstimateParameters(uint64(n), p)
	if size := len(f.Data()) * 8; float64(size) > 1.05*float64(m)+1024 {
		t.Failf("the filter for %d values at rate %g takes %d bits, the estimate is %d", n, p, size, m)
	}
	for i := 0; i < n; i++ {
		f.Add(mk(i, true))
	}
	fill := float64(popcount(f.Data()) - empty)
	// expected number of bits set by n*k independent positions out of m
	expect := float64(m) * (1 - math.Exp(-float64(n)*float64(k)/float64(m)))
	sd := math.Sqrt(float64(m)) / 2
	fp := 0
	for i := 0; i < q; i++ {
		if f.Contains(mk(i, false)) {
			fp++
		}
	}
	factor := 1.5
	if n < 200 {
		factor = 2
	}
	limit := factor*p*float64(q) + 6*math.Sqrt(factor*p*float64(q)) + 4
	t.Log("n %d, rate %g, family %d: %d of %d absent strings reported, limit %.0f; %.0f bits set, expected %.0f", n, p, family, fp, q, limit, fill, expect)
	if float64(fp) > limit {
		t.Failf("a filter for %d values at rate %g wrongly reports %d of %d absent strings (rate %.3g)", n, p, fp, q, float64(fp)/float64(q))
	}
	if fill < expect-6*sd-2 || fill > expect+6*sd+2 {
		t.Failf("%d values with %d hashes set %.0f of %d bits, %.0f expected of independent positions", n, k, fill, m, expect)
	}
	t.Class(fmt.Sprintf("rate %g", p))
	t.NonTrivial()
}

// bits set by single values in a roomy filter
func runMarks(t *T) {
	k := 1 + t.IntN(40)
	m := 100000 + t.IntN(400000)
	f := bloom.New(uint64(m), uint64(k))
	seed := t.Uniform64()
	vals := 1 + t.IntN(20)
	before := popcount(f.Data())
	lost := 0
	for i := 0; i < vals; i++ {
		f.Add(fmt.Sprintf("%d:%d", seed, i))
		now := popcount(f.Data())
		if now-before > k {
			t.Failf("adding one value to a filter with %d hashes sets %d bits", k, now-before)
		}
		lost += k - (now - before)
		before = now
	}
	limit := 3 + 2*(vals*k)*(vals*k)/m
	t.Log("k %d m %d, %d values: %d coincidences, limit %d", k, m, vals, lost, limit)
	if lost > limit {
		t.Failf("%d values with %d hashes each in %d bits leave %d bits unmarked", vals, k, m, lost)
	}
	if k > 1 {
		t.NonTrivial()
	}
}

// positions in large filters, which must use all their bits
func runLarge(t *T) {
	sizes := []int{24, 26, 28, 30, 31, 32, 33}
	m := uint64(1) << sizes[t.Variant(len(sizes))]
	m -= t.U64() % (m / 8)
	k := 4 + t.IntN(6)
	f := bloom.New(m, uint64(k))
	seed := t.Uniform64()
	vals := 2000 / k
	t.Log("m %d, k %d, %d values", m, k, vals)
	for i := 0; i < vals; i++ {
		f.Add(fmt.Sprintf("%d:%d", seed, i))
		if !f.Contains(fmt.Sprintf("%d:%d", seed, i)) {
			t.Failf("the filter reports value %d as absent right after it was added", i)
		}
	}
	data := f.Data()
	const parts = 8
	n := len(data) / parts
	for i := 0; i < parts; i++ {
		c := 0
		for b := data[i*n : (i+1)*n]; len(b) >= 8; b = b[8:] {
			c += bits.OnesCount64(binary.LittleEndian.Uint64(b))
		}
		want := float64(vals*k) / parts
		if math.Abs(float64(c)-want) > 7*math.Sqrt(want)+80 {
			t.Failf("part %d of %d of a filter of %d bits holds %d of about %d bits set, expected %.0f", i, parts, m, c, vals*k, want)
		}
	}
	data = nil
	debug.FreeOSMemory()
	t.NonTrivial()
}

// ---- C25: hash generation

func runHashInts(t *T) {
	mkSeed := func() []byte {
		b := make([]byte, t.Size(300))
		r := pbt.NewRng(t.Uniform64())
		for i := range b {
			b[i] = byte(r.Next())
		}
		return b
	}
	a := mkSeed()
	var b []byte
	switch rel := t.IntN(6); rel {
	case 0:
		b = mkSeed()
	case 1: // longer by a zero byte
		b = append(append([]byte(nil), a...), 0)
	case 2:
		b = append([]byte{0}, a...)
	case 3: // one bit flipped
		b = append([]byte(nil), a...)
		if len(b) > 0 {
			b[t.IntN(len(b))] ^= 1 << t.IntN(8)
		}
	case 4:
		b = append([]byte(nil), a...)
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
	case 5: // shorter by a byte
		if len(a) > 0 {
			b = append([]byte(nil), a[:len(a)-1]...)
		}
	}
	n := t.Size(70)
	if t.Bool(1, 30) {
		n = t.Size(3000)
	}
	t.Log("seeds %x and %x, %d values", a, b, n)
	var given, kept [][]uint64
	gen := func(seed []byte, n int) []uint64 {
		// spare capacity beyond the seed must not be written either
		s := make([]byte, len(seed)+16)
		copy(s, seed)
		for i := len(seed); i < len(s); i++ {
			s[i] = 0xA5
		}
		out := hash.GenHashInts(s[:len(seed)], n)
		if !bytes.Equal(s[:len(seed)], seed) {
			t.Failf("GenHashInts changed its seed")
		}
		for _, x := range s[len(seed):] {
			if x != 0xA5 {
				t.Failf("GenHashInts wrote behind its seed")
			}
		}
		if len(out) != n {
			t.Failf("GenHashInts(seed, %d) gives %d values", n, len(out))
		}
		given, kept = append(given, out), append(kept, append([]uint64(nil), out...))
		return kept[len(kept)-1]
	}
	grow := func() { // the caller may append to what it was given
		for _, g := range given {
			_ = append(g, 0xBAD, 0xBAD, 0xBAD, 0xBAD, 0xBAD, 0xBAD, 0xBAD, 0xBAD)
		}
	}
	later := func() { // values given earlier stay what they were
		for i, g := range given {
			if !eqSlice(g, kept[i]) {
				t.Failf("the %d values given by call %d of %d changed later", len(g), i, len(given))
			}
		}
	}
	va := gen(a, n)
	if !eqSlice(va, gen(a, n)) {
		t.Failf("GenHashInts gives other values the second time")
	}
	for i := 0; i < 3; i++ {
		m := t.IntN(n + 1)
		if !eqSlice(gen(a, m), va[:m]) {
			t.Failf("the first %d of %d values are not the %d values produced on their own", m, n, m)
		}
	}
	grow()
	later()
	if t.Bool(1, 2) { // the values are the caller's
		for _, g := range given {
			for i := range g {
				g[i] = ^g[i]
			}
		}
		given, kept = nil, nil
		if !eqSlice(va, gen(a, n)) {
			t.Failf("GenHashInts gives other values after the ones given before were written to")
		}
	}
	seen := map[uint64]int{}
	for i, v := range va {
		if j, dup := seen[v]; dup {
			t.Failf("values %d and %d of %d are equal", j, i, n)
		}
		seen[v] = i
	}
	if !bytes.Equal(a, b) {
		vb := gen(b, n)
		for i := range vb {
			if j, dup := seen[vb[i]]; dup {
				t.Failf("value %d of one seed is value %d of another", i, j)
			}
		}
		if n > 0 {
			t.NonTrivial()
		}
	}
	later()
	want := sha512.Sum512(a)
	g := hash.Hash512(a)
	other := hash.Hash512(b)
	if !bytes.Equal(g, want[:]) {
		t.Failf("Hash512(%x) is not its SHA-512", a)
	}
	want = sha512.Sum512(b)
	if !bytes.Equal(other, want[:]) {
		t.Failf("Hash512(%x) is not its SHA-512", b)
	}
	t.ClassIf(n > 8, "more than eight values")
}

func init() {
	pbt.Register(pbt.Prop{ID: "C22",
		Rule:        "cases are histories of sets, unsets, runs, clears, resizes and rebuilds from exported data over sizes up to 300 bits (some up to 300000) with positions inside, at byte edges, at and far past the end; every position is compared with a set after each step. Non-trivial: bits are set at the end and something was unset or resized.",
		Assumptions: []string{"sizes are such that size+7 does not overflow"},
		Phases:      []pbt.Phase{{Name: "history", Quick: 900000, Thorough: 5000000, Run: runBitmap}}})
	pbt.Register(pbt.Prop{ID: "C23",
		Rule:        "cases are histories of additions to and rebuilds of up to four filters (1 to 200000 bits, 1 to 40 hashes, or estimated sizes) with answers on a pool of forty strings checked after each step. Non-trivial: something was added, a filter was rebuilt, and some string is reported absent.",
		Assumptions: []string{"exported data is not shared between two rebuilt filters"},
		Phases:      []pbt.Phase{{Name: "history", Quick: 12000, Thorough: 500000, Run: runBloom}}})
	pbt.Register(pbt.Prop{ID: "C24",
		Rule:        "cases fill a filter sized for n values at one of eight rates with n strings and ask it for thousands of absent ones (count bounded by 1.5 times the rate, twice for small n, plus six standard deviations; bits set compared with the expectation for independent positions), draw parameters for the estimate, count the bits single values set, and count the bits set in each eighth of filters of up to eight thousand million bits. Every case is non-trivial except those with one hash function.",
		Assumptions: []string{"SHA-512 values behave as independent uniform numbers"},
		Phases: []pbt.Phase{{Name: "estimates", Quick: 900000, Thorough: 2000000, Run: runEstimates},
			{Name: "rate", Quick: 96, Thorough: 1200, Run: runRate},
			{Name: "marks", Quick: 300, Thorough: 10000, Run: runMarks},
			{Name: "large", Quick: 7, Thorough: 35, Run: runLarge, Workers: 1}}})
	pbt.Register(pbt.Prop{ID: "C25",
		Rule:        "cases are pairs of related seeds (0 to 300 bytes; prefixed, extended by a zero byte, one bit flipped, reversed) and counts up to 70, some up to 3000. Non-trivial: two different seeds and a count above zero.",
		Assumptions: []string{"no seed is the digest of the other"},
		Phases:      []pbt.Phase{{Name: "seeds", Quick: 450000, Thorough: 2000000, Run: runHashInts}}})
}
