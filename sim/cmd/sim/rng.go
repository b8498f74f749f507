package main

// Rng is splitmix64: every choice of a simulated execution is drawn from one.
type Rng struct{ s uint64 }

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func newRng(parts ...uint64) *Rng {
	h := uint64(0x243f6a8885a308d3)
	for _, p := range parts {
		h = mix(h ^ p)
	}
	return &Rng{h}
}

func strSeed(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

//
//go:norace
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// N returns a number in [0,n).
//
//go:norace
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a number in [a,b].
func (r *Rng) Range(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability p percent.
//
//go:norace
func (r *Rng) P(p int) bool { return r.N(100) < p }

func pick[T any](r *Rng, l ...T) T { return l[r.N(len(l))] }
