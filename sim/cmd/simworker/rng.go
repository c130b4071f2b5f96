package main

// Rng is the one source of randomness; everything a case contains is drawn
// from a generator seeded by (property, seed number).
type Rng struct{ s uint64 }

func NewRng(parts ...uint64) *Rng {
	r := &Rng{0x243f6a8885a308d3}
	for _, p := range parts {
		r.s = r.U64() ^ p
		r.s = r.U64()
	}
	return r
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number in [0, n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// R returns a number in [lo, hi].
func (r *Rng) R(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P is true in p of 100 cases.
func (r *Rng) P(p int) bool { return r.N(100) < p }

func (r *Rng) Pick(s ...string) string { return s[r.N(len(s))] }
func (r *Rng) PickI(s ...int) int      { return s[r.N(len(s))] }

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}
