package main

// Deterministic randomness: every choice derives from VERIF_SEED and the case index.

func mix64(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

type rng struct{ s uint64 }

func newRng(parts ...uint64) *rng {
	s := uint64(0x1234567)
	for _, p := range parts {
		s = mix64(s ^ p)
	}
	return &rng{s}
}

func (r *rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix64(r.s)
}

func (r *rng) n(n int) int { return int(r.u64() % uint64(n)) }

func (r *rng) chance(num, den int) bool { return r.n(den) < num }

func (r *rng) pick(xs ...int) int { return xs[r.n(len(xs))] }

func (r *rng) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.n(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}
