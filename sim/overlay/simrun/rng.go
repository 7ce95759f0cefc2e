package main

// Rng is the simulator's only source of choices.
type Rng struct{ s uint64 }

func NewRng(parts ...uint64) *Rng {
	r := &Rng{0x243f6a8885a308d3}
	for _, p := range parts {
		r.s ^= p * 0x9e3779b97f4a7c15
		r.U()
	}
	return r
}

func (r *Rng) U() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U() % uint64(n))
}

// In returns a number in [a, b].
func (r *Rng) In(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability pct/100.
func (r *Rng) P(pct int) bool { return r.N(100) < pct }

func pick[T any](r *Rng, xs ...T) T { return xs[r.N(len(xs))] }

// Log returns a number in [1, max], small ones being likelier (log-uniform).
func (r *Rng) Log(max int) int {
	b := 0
	for 1<<b < max {
		b++
	}
	n := 1 + int(r.U()%(uint64(1)<<uint(r.In(0, b))))
	if n > max {
		n = max
	}
	return n
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}
