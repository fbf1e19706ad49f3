package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"

	"github.com/liyue201/gostl/ds/hamt"
	"verifharness/pbt"
)

func fnvHash(k string) uint64 {
	h := fnv.New64()
	h.Write([]byte(k))
	return h.Sum64()
}

func block(x uint64) string { return string(binary.LittleEndian.AppendUint64(nil, x)) }

// fnvKeys multiplies the pairs of a chain out: keys sharing the low bits of their hashes.
func fnvKeys(prefixes []string, pairs [][2]uint64) []string {
	keys := prefixes
	for _, p := range pairs {
		var next []string
		for _, k := range keys {
			next = append(next, k+block(p[0]), k+block(p[1]))
		}
		keys = next
	}
	return keys
}

// hamtPool draws a pool of keys with engineered hash agreements.
func hamtPool(t *T, limit int) []string {
	var pool []string
	suffix := func() string { return []string{"", "", "x", "\x00", "longer suffix"}[t.IntN(5)] }
	addAll := func(keys []string) {
		s := suffix()
		for _, k := range keys {
			if t.Bool(3, 4) {
				pool = append(pool, k+s)
			}
		}
	}
	full := fnvChains[len(fnvChains)-1].pairs
	t.Repeat(1, 4, func(int) {
		switch t.Pick(3, 3, 4, 2, 2, 1, 2) {
		case 0: // full collisions
			addAll(fnvKeys([]string{""}, full[:1+t.IntN(3)]))
		case 1: // agreeing in some levels
			c := fnvChains[t.IntN(len(fnvChains)-1)]
			addAll(fnvKeys([]string{""}, c.pairs[:1+t.IntN(3)]))
		case 2: // groups of full collisions that agree in some levels
			c := fnvAfter[t.IntN(len(fnvAfter))]
			addAll(fnvKeys(fnvKeys([]string{""}, full[:1]), c.pairs[:1+t.IntN(2)]))
		case 6: // larger groups of full collisions that agree in some levels
			n := 2 + t.IntN(2)
			c := fnvDeep[n-2][t.IntN(len(fnvDeep[n-2]))]
			addAll(fnvKeys(fnvKeys([]string{""}, full[:n]), c.pairs))
		case 3: // short keys
			pool = append(pool, "")
			for i := 0; i < 6; i++ {
				pool = append(pool, string([]byte{byte(t.IntN(256))})+suffix())
			}
		case 4: // many unrelated keys
			n := t.Size(limit)
			seed := t.IntN(1 << 20)
			for i := 0; i < n; i++ {
				pool = append(pool, fmt.Sprintf("%d-%d", seed, i))
			}
		case 5: // the same key with zero bytes added
			k := ""
			for i := 0; i < 8; i++ {
				pool = append(pool, k)
				k += "\x00"
			}
		}
	})
	return pool
}

type hstate struct {
	t    *T
	h    *hamt.Hamt[int]
	m    map[string]int
	pool []string

	given    given[hamt.Key]
	givenStr given[string]
}

// ask makes one call with k as its key, a part of a longer slice of the caller's whose
// other bytes, before and behind the key, are not the library's to write.
func (s *hstate) ask(what, k string, call func(hamt.Key)) hamt.Key {
	const guard = "\xa5\x5a\xa5\x5a\xa5\x5a\xa5\x5a"
	buf := make([]byte, 0, len(k)+16)
	buf = append(append(append(buf, guard...), k...), guard...)
	q := hamt.Key(buf[8 : 8+len(k)])
	call(q)
	if string(q) != k {
		s.t.Failf("%s(%q) changed its key to %q", what, k, string(q))
	}
	if string(buf[:8]) != guard || string(buf[8+len(k):]) != guard {
		s.t.Failf("%s(%q) wrote beside its key: %x", what, k, buf)
	}
	return q
}

func (s *hstate) get(k string) {
	var v int
	var err error
	var q []byte
	if k == "" && s.t.Bool(1, 2) {
		v, err = s.h.Get(nil)
	} else {
		q = s.ask("Get", k, func(q hamt.Key) { v, err = s.h.Get(q) })
	}
	w, ok := s.m[k]
	if (err == nil) != ok || ok && v != w || err != nil && !errors.Is(err, hamt.ErrorNotFound) {
		s.t.Failf("Get(%q) = %d, %v; expected %d, found %v; %d entries", k, v, err, w, ok, len(s.m))
	}
	if len(q) > 0 { // the caller may reuse its slice
		q[0] ^= 0xff
	}
}

func (s *hstate) enumerate() {
	t := s.t
	seen := map[string]bool{}
	once := func(what, k string) {
		if _, ok := s.m[k]; !ok {
			t.Failf("%s gives %q, which is not in the trie", what, k)
		}
		if seen[k] {
			t.Failf("%s gives %q twice", what, k)
		}
		seen[k] = true
	}
	all := func(what string) {
		if len(seen) != len(s.m) {
			for k := range s.m {
				if !seen[k] {
					t.Failf("%s misses an entry: %d of %d given", what, len(seen), len(s.m))
				}
			}
		}
		clear(seen)
	}
	s.given.eq = func(a, b hamt.Key) bool { return bytes.Equal(a, b) }
	s.givenStr.eq = func(a, b string) bool { return a == b }
	s.given.verify(t)
	s.givenStr.verify(t)
	ks, strs := s.h.Keys(), s.h.StringKeys()
	s.given.keep("Keys()", ks)
	s.givenStr.keep("StringKeys()", strs)
	for _, k := range ks {
		once("Keys", string(k))
	}
	all("Keys")
	for _, k := range strs {
		once("StringKeys", k)
	}
	all("StringKeys")
	if len(ks) > 0 && t.Bool(1, 4) { // the slices are the caller's
		clear(s.h.Keys())
		clear(s.h.StringKeys())
	}
	s.h.Traversal(func(k hamt.Key, v int) bool {
		once("the traversal", string(k))
		if v != s.m[string(k)] {
			t.Failf("the traversal gives %q: %d, expected %d", string(k), v, s.m[string(k)])
		}
		return true
	})
	all("the traversal")
}

func (s *hstate) stops() {
	t := s.t
	n := len(s.m)
	for i := 0; i < 3; i++ {
		stop := 1 + t.IntN(n+1)
		calls := 0
		s.h.Traversal(func(k hamt.Key, v int) bool {
			calls++
			if calls > stop {
				t.Failf("the traversal goes on after the visitor returned false at call %d of %d", stop, n)
			}
			return calls < stop
		})
		if calls != min(stop, n) {
			t.Failf("the traversal makes %d calls when stopped at call %d of %d", calls, stop, n)
		}
	}
}

func runHamt(t *T, enum bool, limit int) {
	var o []hamt.Option
	if t.Bool(1, 3) {
		o = append(o, hamt.WithGoroutineSafe())
	}
	s := &hstate{t: t, h: hamt.New[int](o...), m: map[string]int{}, pool: hamtPool(t, limit)}
	if len(s.pool) == 0 {
		t.Skip()
	}
	erased, maxN, depth, fullMates := 0, 0, 0, false
	key := func() string { return s.pool[t.IntN(len(s.pool))] }
	rounds := 60
	insert := func(k string, v int) {
		s.ask("Insert", k, func(q hamt.Key) { s.h.Insert(q, v) })
		s.m[k] = v
	}
	erase := func(k string) {
		_, ok := s.m[k]
		var g bool
		s.ask("Erase", k, func(q hamt.Key) { g = s.h.Erase(q) })
		if g != ok {
			t.Failf("Erase(%q) = %v, expected %v", k, g, ok)
		}
		if ok {
			erased++
		}
		delete(s.m, k)
	}
	ctr := 0
	t.Repeat(1, rounds, func(int) {
		switch t.Pick(10, 8, 1, 1) {
		case 0:
			k := key()
			v := 0
			if !t.Bool(1, 10) {
				ctr++
				v = ctr
			}
			t.Log("insert %q: %d (hash %016x)", k, v, fnvHash(k))
			insert(k, v)
		case 1:
			k := key()
			t.Log("erase %q (hash %016x)", k, fnvHash(k))
			erase(k)
		case 2: // most of the pool
			den := 1 + t.IntN(4)
			r := pbt.NewRng(uint64(t.IntN(1 << 16)))
			t.Log("insert %d in %d of the pool", den, den+1)
			for _, k := range s.pool {
				if r.N(uint64(den)+1) > 0 {
					ctr++
					insert(k, ctr)
				}
			}
		case 3:
			den := t.IntN(4)
			r := pbt.NewRng(uint64(t.IntN(1 << 16)))
			t.Log("erase %d in %d of the pool", den, den+1)
			for _, k := range s.pool {
				if r.N(uint64(den)+1) > 0 {
					erase(k)
				}
			}
		}
		maxN = max(maxN, len(s.m))
		if enum {
			if len(s.m) < 60 || t.Bool(1, 8) {
				s.enumerate()
				s.stops()
			}
			return
		}
		if len(s.pool) < 60 || t.Bool(1, 8) {
			for _, k := range s.pool {
				s.get(k)
			}
		} else {
			for i := 0; i < 20; i++ {
				s.get(key())
			}
		}
		if t.Bool(1, 10) {
			s.get(key() + "?")
		}
	})
	for _, k := range s.pool {
		s.get(k)
	}
	s.enumerate()
	for i, a := range s.pool {
		if i >= 40 {
			break
		}
		for j, b := range s.pool[:i] {
			if j < 40 && a != b {
				ha, hb := fnvHash(a), fnvHash(b)
				if ha == hb {
					fullMates = true
				} else {
					d := 0
					for (ha^hb)&63 == 0 {
						ha, hb, d = ha>>6, hb>>6, d+1
					}
					depth = max(depth, d)
				}
			}
		}
	}
	t.ClassIf(fullMates, "equal hashes")
	t.ClassIf(depth >= 5, "hashes agreeing in five or more levels")
	t.ClassIf(maxN >= 300, "300 or more entries")
	if erased > 0 && maxN >= 3 && (fullMates || depth >= 2) {
		t.NonTrivial()
	}
}

func init() {
	rule := "cases are histories of insertions, replacements and erasures, single and of most of a pool of keys: random ones, short and binary ones, and keys engineered (FNV-1 collision search) to agree in 1 to 10 trie levels or in the whole hash, also groups of full collisions below shared levels; "
	pbt.Register(pbt.Prop{ID: "C26",
		Rule:        rule + "every pool key is looked up after each step. Non-trivial: something was erased, three or more entries were held, and pool hashes agree in two or more levels or completely.",
		Assumptions: []string{"a key slice is not changed by the caller after Insert"},
		Phases: []pbt.Phase{{Name: "history", Quick: 720000, Thorough: 5000000, Run: func(t *T) { runHamt(t, false, 60) }},
			{Name: "large", Quick: 4000, Thorough: 200000, Run: func(t *T) { runHamt(t, false, 2000) }}}})
	pbt.Register(pbt.Prop{ID: "C27",
		Rule:        rule + "the key lists and full and stopped traversals are compared with a dictionary after each step. Non-trivial as in C26.",
		Assumptions: []string{"a key slice is not changed by the caller after Insert"},
		Phases: []pbt.Phase{{Name: "history", Quick: 450000, Thorough: 2500000, Run: func(t *T) { runHamt(t, true, 60) }},
			{Name: "large", Quick: 2000, Thorough: 100000, Run: func(t *T) { runHamt(t, true, 2000) }}}})
}
