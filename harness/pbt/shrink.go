package pbt

import "time"

func trim(c []uint64) []uint64 {
	n := len(c)
	for n > 0 && c[n-1] == 0 {
		n--
	}
	return c[:n]
}

func less(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// shrinker minimises a failing list of choices. try returns whether the
// candidate still fails, and the choices and spans the run really used.
type shrinker struct {
	best     []uint64
	spans    []int
	try      func([]uint64) (bool, []uint64, []int)
	improved func([]uint64)
	left     int
	deadline time.Time
}

func (s *shrinker) attempt(c []uint64) bool {
	if s.left <= 0 || time.Now().After(s.deadline) {
		s.left = 0
		return false
	}
	c = trim(c)
	if !less(c, s.best) {
		return false
	}
	s.left--
	ok, rec, spans := s.try(c)
	if !ok {
		return false
	}
	rec = trim(rec)
	if !less(rec, s.best) {
		rec = c
		if !less(rec, s.best) {
			return false
		}
	}
	s.best = append([]uint64(nil), rec...)
	s.spans = nil
	for _, x := range spans {
		if x < len(s.best) {
			s.spans = append(s.spans, x)
		}
	}
	if s.improved != nil {
		s.improved(s.best)
	}
	return true
}

func without(c []uint64, i, j int) []uint64 {
	r := make([]uint64, 0, len(c))
	r = append(r, c[:i]...)
	return append(r, c[j:]...)
}

func (s *shrinker) run() {
	for s.left > 0 {
		before := s.best
		s.dropSpans()
		s.dropChunks()
		s.lower()
		if !less(s.best, before) {
			return
		}
	}
}

func (s *shrinker) dropSpans() {
	for k := len(s.spans) / 2; k >= 1; k /= 2 {
		for i := len(s.spans) - k; i >= 0 && s.left > 0; i-- {
			if i+k > len(s.spans) {
				continue
			}
			from, to := s.spans[i], len(s.best)
			if i+k < len(s.spans) {
				to = s.spans[i+k]
			}
			if from > len(s.best) || to > len(s.best) || from >= to {
				continue
			}
			if s.attempt(without(s.best, from, to)) {
				i = min(i, len(s.spans)-k+1)
			}
		}
	}
}

func (s *shrinker) dropChunks() {
	for k := 32; k >= 1; k /= 2 {
		for i := len(s.best) - k; i >= 0 && s.left > 0; i-- {
			if i+k > len(s.best) {
				continue
			}
			s.attempt(without(s.best, i, i+k))
		}
	}
}

func (s *shrinker) lower() {
	for i := 0; i < len(s.best) && s.left > 0; i++ {
		set := func(v uint64) bool {
			if i >= len(s.best) || v >= s.best[i] {
				return false
			}
			c := append([]uint64(nil), s.best...)
			c[i] = v
			return s.attempt(c)
		}
		if s.best[i] == 0 || set(0) {
			continue
		}
		lo, hi := uint64(0), s.best[i]
		for lo+1 < hi && s.left > 0 {
			m := lo + (hi-lo)/2
			if set(m) {
				if i >= len(s.best) {
					break
				}
				hi = s.best[i]
			} else {
				lo = m
			}
		}
	}
}
