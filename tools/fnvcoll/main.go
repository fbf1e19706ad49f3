// Command fnvcoll searches keys whose 64-bit FNV-1 hashes agree in their low L
// bits (all of them for L = 64), by random walks with distinguished points.
// It wrote harness/props/fnv_corpus.go; the checks do not run it.
//
// A pair found from a state stays a collision of the same low bits after any
// common suffix, and pairs found one after the other multiply (2, 4, 8 keys).
package main

import (
	"fmt"
	"math/bits"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
)

const prime = 1099511628211
const basis = 14695981039346656037

func step(h uint64, x uint64) uint64 {
	for i := 0; i < 8; i++ {
		h = h*prime ^ (x & 255)
		x >>= 8
	}
	return h
}

// find gives two different blocks whose hashes from state s agree in the low L bits.
func find(s uint64, L int) (uint64, uint64) {
	mask := ^uint64(0) >> (64 - L)
	d := max(0, L/2-12)
	dmask := uint64(1)<<d - 1
	var mu sync.Mutex
	seen := map[uint64][2]uint64{} // distinguished point -> start, length
	var a, b uint64
	var done atomic.Bool
	var wg sync.WaitGroup
	var starts atomic.Uint64
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !done.Load() {
				start := bits.RotateLeft64((starts.Add(1)+uint64(L)*7919)*0x9e3779b97f4a7c15, 17)
				x, n := start, uint64(0)
				for n < 64<<d {
					x = step(s, x) & mask
					n++
					if x&dmask == 0 {
						break
					}
				}
				if x&dmask != 0 {
					continue
				}
				mu.Lock()
				old, ok := seen[x]
				seen[x] = [2]uint64{start, n}
				mu.Unlock()
				if !ok || old[0] == start {
					continue
				}
				p, pn, q, qn := start, n, old[0], old[1]
				for ; pn > qn; pn-- {
					p = step(s, p) & mask
				}
				for ; qn > pn; qn-- {
					q = step(s, q) & mask
				}
				if p == q {
					continue
				}
				for {
					p2, q2 := step(s, p), step(s, q)
					if p2&mask == q2&mask {
						if L < 64 && (p2>>L)&63 == (q2>>L)&63 {
							break // they agree in the next level too
						}
						mu.Lock()
						if !done.Load() {
							a, b = p, q
							done.Store(true)
						}
						mu.Unlock()
						break
					}
					p, q = p2&mask, q2&mask
				}
			}
		}()
	}
	wg.Wait()
	return a, b
}

func main() {
	out := os.Stdout
	fmt.Fprintln(out, "package props\n\n// Written by tools/fnvcoll: pairs of eight-byte blocks (little endian) whose FNV-1\n// hashes agree in the low bits, each found from the state after the first blocks\n// of the pairs before it.\n\ntype fnvChain struct {\n\tbits  int\n\tpairs [][2]uint64\n}\n\nvar fnvChains = []fnvChain{")
	chain := func(s uint64, L, n int) uint64 {
		fmt.Fprintf(out, "\t{%d, [][2]uint64{", L)
		for i := 0; i < n; i++ {
			a, b := find(s, L)
			if i > 0 {
				fmt.Fprint(out, ", ")
			}
			fmt.Fprintf(out, "{%#x, %#x}", a, b)
			s = step(s, a)
		}
		fmt.Fprintln(out, "}},")
		return s
	}
	var first uint64
	for L := 6; L <= 60; L += 6 {
		chain(basis, L, 3)
	}
	a, b := find(basis, 64)
	first = step(basis, a)
	if first != step(basis, b) {
		panic("no collision")
	}
	fmt.Fprintf(out, "\t{64, [][2]uint64{{%#x, %#x}", a, b)
	s := first
	var after []uint64 // the states after two and three full collisions
	for i := 0; i < 2; i++ {
		c, d := find(s, 64)
		fmt.Fprintf(out, ", {%#x, %#x}", c, d)
		s = step(s, c)
		after = append(after, s)
	}
	fmt.Fprintln(out, "}},\n}\n\n// pairs found from the state after the first full collision\nvar fnvAfter = []fnvChain{")
	for L := 6; L <= 60; L += 6 {
		chain(first, L, 2)
	}
	fmt.Fprintln(out, "}\n\n// pairs found from the states after two and after three full collisions\nvar fnvDeep = [][]fnvChain{")
	for _, s := range after {
		fmt.Fprintln(out, "{")
		for L := 6; L <= 60; L += 6 {
			chain(s, L, 1)
		}
		fmt.Fprintln(out, "},")
	}
	fmt.Fprintln(out, "}")
}
