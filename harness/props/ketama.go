package props

import (
	"fmt"
	"math"

	"github.com/liyue201/gostl/ds/ketama"
	"verifharness/pbt"
)

func newRing(t *T, r int, safe bool) *ketama.Ketama {
	var o []ketama.Option
	if r != 0 { // 0: the default
		o = append(o, ketama.WithReplicas(r))
	}
	if safe {
		o = append(o, ketama.WithGoroutineSafe())
	}
	return ketama.New(options(t, o...)...)
}

// names draws distinct names.
func names(t *T, n int) []string {
	style := t.IntN(4)
	seed := t.IntN(1 << 24)
	r := pbt.NewRng(uint64(seed))
	var out []string
	seen := map[string]bool{}
	if style == 3 {
		out, seen[""] = append(out, ""), true
	}
	for i := 0; len(out) < n; i++ {
		var s string
		switch style {
		case 0:
			s = fmt.Sprintf("node%d", i+seed)
		case 1:
			s = fmt.Sprintf("10.%d.0.%d:%d", seed%200, i%250, 6000+i/250)
		case 2:
			s = fmt.Sprintf("%d", (i+1)*(seed%977+1))
		default:
			b := make([]byte, 1+r.N(6))
			for j := range b {
				b[j] = byte(r.Next())
			}
			s = string(b)
		}
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

// ask asks the ring, which holds the nodes of set.
func ask(t *T, k *ketama.Ketama, key string, set map[string]bool) string {
	n, ok := k.Get(key)
	if ok != (len(set) > 0) {
		t.Failf("Get(%q) finds a node: %v, with %d nodes present", key, ok, len(set))
	}
	if ok && !set[n] {
		t.Failf("Get(%q) gives %q, which is not a node", key, n)
	}
	return n
}

func runRing(t *T) {
	r := []int{1, 2, 3, 7, 8, 9, 0, 17, 40, 150}[t.Pick(6, 3, 2, 1, 2, 2, 3, 2, 2, 1)]
	all := names(t, 8+t.IntN(8))
	nodes := all[:3+t.IntN(6)]
	keys := append([]string(nil), all...)
	for i := 0; i < 12; i++ {
		keys = append(keys, fmt.Sprintf("key/%d", t.IntN(1<<30)))
	}
	k := newRing(t, r, t.Bool(1, 3))
	set := map[string]bool{}
	t.Log("ring with %d replicas (0: default), nodes %q", r, nodes)
	cur := map[string]string{}
	refresh := func(what string, moved func(key, from, to string) bool) {
		if k.Empty() != (len(set) == 0) {
			t.Failf("after %s: Empty() = %v with %d nodes", what, k.Empty(), len(set))
		}
		for _, key := range keys {
			n := ask(t, k, key, set)
			if from, had := cur[key]; had && from != n && len(set) > 0 && !moved(key, from, n) {
				t.Failf("%s moves key %q from %q to %q", what, key, from, n)
			}
			cur[key] = n
			if len(set) == 0 {
				delete(cur, key)
			}
			if set[key] && n != key {
				t.Failf("after %s: key %q is a node's name but maps to %q", what, key, n)
			}
		}
	}
	removed, repeated, maxN := 0, 0, 0
	t.Repeat(1, 14, func(int) {
		n := nodes[t.IntN(len(nodes))]
		switch t.Pick(6, 4, 2, 2) {
		case 0:
			if set[n] {
				repeated++
			}
			t.Log("add %q", n)
			k.Add(n)
			was := set[n]
			set[n] = true
			refresh(fmt.Sprintf("adding %q", n), func(_, _, to string) bool { return to == n && !was })
		case 1:
			if !set[n] {
				repeated++
			}
			t.Log("remove %q", n)
			k.Remove(n)
			was := set[n]
			delete(set, n)
			refresh(fmt.Sprintf("removing %q", n), func(_, from, _ string) bool { return was && from == n })
			removed++
		default: // several at once
			add := t.Bool(1, 2)
			var some []string
			in := map[string]bool{}
			for i := t.IntN(4); i >= 0; i-- {
				s := nodes[t.IntN(len(nodes))]
				some = append(some, s)
				in[s] = true
			}
			t.Log("several, added %v: %q", add, some)
			if add {
				k.Add(some...)
				for s := range in {
					set[s] = true
				}
				refresh("adding several", func(_, _, to string) bool { return in[to] })
			} else {
				k.Remove(some...)
				for s := range in {
					delete(set, s)
				}
				refresh("removing several", func(_, from, _ string) bool { return in[from] })
				removed++
			}
		}
		maxN = max(maxN, len(set))
	})
	// the same nodes in another order, and pairwise
	f := newRing(t, r, t.Bool(1, 3))
	var present []string
	for _, n := range nodes {
		if set[n] {
			present = append(present, n)
		}
	}
	for i := len(present) - 1; i > 0; i-- {
		j := t.IntN(i + 1)
		present[i], present[j] = present[j], present[i]
	}
	for _, n := range present {
		f.Add(n)
	}
	for _, key := range keys {
		if a, b := ask(t, k, key, set), ask(t, f, key, set); a != b {
			t.Failf("key %q maps to %q, but to %q in a ring made afresh of the same nodes %q", key, a, b, present)
		}
	}
	for i, a := range present {
		for _, b := range present[:i] {
			p := newRing(t, r, false)
			p.Add(a, b)
			two := map[string]bool{a: true, b: true}
			for _, key := range keys {
				n := ask(t, k, key, set)
				if g := ask(t, p, key, two); (n == a || n == b) && g != n {
					t.Failf("key %q maps to %q among %q, but to %q when only %q and %q are there", key, n, present, g, a, b)
				}
			}
		}
	}
	// leave one by one
	for len(present) > 0 {
		n := present[0]
		present = present[1:]
		k.Remove(n)
		delete(set, n)
		refresh(fmt.Sprintf("removing %q", n), func(_, from, _ string) bool { return from == n })
	}
	t.ClassIf(r == 1, "one replica")
	t.ClassIf(r > 8, "more than eight replicas")
	t.ClassIf(repeated > 0, "repeated additions or removals")
	if maxN >= 2 && removed > 0 {
		t.NonTrivial()
	}
}

// one ring of all names tells their cyclic order; every other ring must follow it
func runCircle(t *T) {
	all := names(t, 3+t.Size(30))
	k := newRing(t, 1, t.Bool(1, 3))
	k.Add(all...)
	set := map[string]bool{}
	for _, n := range all {
		set[n] = true
	}
	succ := map[string]string{}
	for _, n := range all {
		if g := ask(t, k, n, set); g != n {
			t.Failf("the name of node %q maps to %q", n, g)
		}
		k.Remove(n)
		delete(set, n)
		succ[n] = ask(t, k, n, set)
		k.Add(n)
		set[n] = true
	}
	order := []string{all[0]}
	for n := succ[all[0]]; n != all[0]; n = succ[n] {
		order = append(order, n)
		if len(order) > len(all) {
			break
		}
	}
	if len(order) != len(all) {
		t.Failf("the next nodes clockwise of %d nodes do not form one circle: %d reached from %q", len(all), len(order), all[0])
	}
	t.Log("circle of %d: %q", len(order), order)
	// one replica: the first member at or after the key
	t.Repeat(1, 4, func(int) {
		s := newRing(t, 1, false)
		in := map[string]bool{}
		for _, n := range all {
			if t.Bool(1, 3) {
				s.Add(n)
				in[n] = true
			}
		}
		if len(in) == 0 {
			s.Add(order[0])
			in[order[0]] = true
		}
		for i, key := range order {
			want := ""
			for j := 0; j < len(order); j++ {
				if n := order[(i+j)%len(order)]; in[n] {
					want = n
					break
				}
			}
			if g := ask(t, s, key, in); g != want {
				t.Failf("among %d of %d nodes key %q maps to %q, the first clockwise is %q", len(in), len(all), key, g, want)
			}
		}
	})
	// more replicas: the keys of one point are neighbours on the circle
	r := 1 + t.IntN(3)
	n := 2 + t.IntN(2)
	s := newRing(t, r, false)
	in := map[string]bool{}
	for _, x := range names(t, n) {
		s.Add("other " + x)
		in["other "+x] = true
	}
	changes := 0
	for i, key := range order {
		if ask(t, s, key, in) != ask(t, s, order[(i+1)%len(order)], in) {
			changes++
		}
	}
	if changes > n*r {
		t.Failf("going round the circle the node changes %d times, with %d nodes of %d points", changes, n, r)
	}
	t.NonTrivial()
}

// ---- C29: balance

func runSpread(t *T) {
	r := []int{4, 16, 64, 300}[t.Variant(4)]
	n := []int{3, 5, 12}[t.IntN(3)]
	rings := 96/n + 1
	q := 6000
	if r > 100 {
		q = 16000
	}
	if t.Thorough() {
		rings *= 3
		q *= 2
	}
	seed := t.IntN(1 << 30)
	sum := 0.0
	worst := 0.0
	expect := float64(n-1)/float64(n*r+1) + float64(n-1)/float64(q)
	for i := 0; i < rings; i++ {
		nodes := names(t, n)
		k := newRing(t, r, false)
		k.Add(nodes...)
		count := map[string]int{}
		for j := 0; j < q; j++ {
			x, ok := k.Get(fmt.Sprintf("k%d-%d-%d", seed, i, j))
			if !ok {
				t.Failf("a ring of %d nodes gives none", n)
			}
			count[x]++
		}
		total := 0
		for _, x := range nodes {
			c := count[x]
			total += c
			dev := float64(c)*float64(n)/float64(q) - 1
			sum += dev * dev
			worst = math.Max(worst, math.Abs(dev))
		}
		if total != q {
			t.Failf("keys go to nodes that were not added")
		}
	}
	got := sum / float64(rings*n) / expect
	t.Log("%d rings of %d nodes with %d replicas: squared deviation %.2f times the expected, largest %.1f%%", rings, n, r, got, worst*100)
	if got > 2.4 {
		t.Failf("%d rings of %d nodes with %d replicas: the squared deviation of the shares is %.2f times that of %d independent points per node (largest deviation %.0f%%)", rings, n, r, got, r, worst*100)
	}
	if r >= 300 && worst > 8*math.Sqrt(expect) {
		t.Failf("with %d replicas a node's share deviates by %.0f%%", r, worst*100)
	}
	t.Class(fmt.Sprintf("%d replicas", r))
	t.NonTrivial()
}

func init() {
	pbt.Register(pbt.Prop{ID: "C28",
		Rule:        "cases are histories of additions and removals (repeated, absent, several at once) on rings of 1 to 150 replicas: answers before and after each step are compared (only allowed moves), at the end with a ring made afresh in another order and with the rings of each pair of nodes; and circles: the successor relation among names, found with one replica, must be one cycle that every subset of nodes follows. Non-trivial: two nodes present at once and something removed, or any circle.",
		Assumptions: []string{"at least one replica", "no two 64-bit points coincide (probability about 2^-50 per run)"},
		Phases: []pbt.Phase{{Name: "history", Quick: 72000, Thorough: 300000, Run: runRing},
			{Name: "circle", Quick: 12000, Thorough: 150000, Run: runCircle}}})
	pbt.Register(pbt.Prop{ID: "C29",
		Rule:        "cases measure the shares of some hundred nodes in rings of 3, 5 or 12 nodes with 4, 16, 64 or 300 replicas over thousands of keys each; the mean squared relative deviation may be 2.4 times that of independent uniform points, and with 300 replicas no share may be eight standard deviations off. Every case is non-trivial.",
		Assumptions: []string{"SHA-512 values behave as independent uniform numbers"},
		Phases:      []pbt.Phase{{Name: "shares", Quick: 64, Thorough: 1600, Run: runSpread}}})
}
