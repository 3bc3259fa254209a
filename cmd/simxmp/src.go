package main

import "sort"

// Choices: every nondeterministic decision of a simulated run comes from here.

// Src is a source of choices. Recorded choices replay exactly; a choice of 0
// is always the simplest alternative, so minimisation shortens and zeroes.
type Src struct {
	rec       []uint32
	replay    []uint32
	replaying bool
	rng       uint64
}

func mix64(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func strHash(s string) uint64 {
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return mix64(h)
}

// N returns a choice in [0,n).
func (s *Src) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if s.replaying {
		if len(s.rec) < len(s.replay) {
			v = s.replay[len(s.rec)] % uint32(n)
		}
	} else {
		s.rng += 0x9e3779b97f4a7c15
		v = uint32(mix64(s.rng) >> 16 % uint64(n))
	}
	s.rec = append(s.rec, v)
	return int(v)
}

// Chance is true with probability num/den; the simple answer is false.
func (s *Src) Chance(num, den int) bool { return s.N(den) >= den-num }

// Range returns a choice in [lo,hi].
func (s *Src) Range(lo, hi int) int { return lo + s.N(hi-lo+1) }

// Small returns a choice in [0,n) biased towards 0.
func (s *Src) Small(n int) int {
	if n <= 1 {
		return 0
	}
	m := n
	switch s.N(3) {
	case 0:
		m = 1 + n/8
	case 1:
		m = 1 + n/2
	}
	if m > n {
		m = n
	}
	return s.N(m)
}

// Perm returns a permutation.
func (s *Src) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + s.N(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func pick[T any](s *Src, l []T) T { return l[s.N(len(l))] }

func sortStrings(l []string) { sort.Strings(l) }
