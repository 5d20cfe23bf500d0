package main

// Rng is the only source of randomness of the simulator (splitmix64).
type Rng struct{ s uint64 }

// NewRng mixes the seed first: neighbouring seeds must not share their sequence.
func NewRng(seed uint64) *Rng {
	a := Rng{seed ^ 0x5851f42d4c957f2d}
	b := Rng{a.U() ^ seed<<32}
	return &Rng{b.U()}
}

func (r *Rng) U() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U() % uint64(n))
}

func (r *Rng) Range(a, b int) int { return a + r.N(b-a+1) }

func (r *Rng) P(num, den int) bool { return r.N(den) < num }

func pick[T any](r *Rng, v ...T) T { return v[r.N(len(v))] }
