package main

// Deterministic splitmix64-based PRNG. Every random choice of every workload
// is a function of (VERIF_SEED, workload name, case index) and of nothing else.
type Rng struct{ s uint64 }

func hashStr(s string) uint64 {
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func NewRng(seed uint64, name string, idx int) *Rng {
	r := &Rng{s: seed*0x9E3779B97F4A7C15 ^ hashStr(name) ^ (uint64(idx)+1)*0xD1B54A32D192ED03}
	r.U64()
	r.U64()
	return r
}

func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N returns a value in [0,n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In returns a value in [lo,hi].
func (r *Rng) In(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P is true with probability pct/100.
func (r *Rng) P(pct int) bool { return r.N(100) < pct }

func (r *Rng) Pick(ss []string) string { return ss[r.N(len(ss))] }

func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// W picks an index with the given weights.
func (r *Rng) W(ws ...int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	x := r.N(t)
	for i, w := range ws {
		if x < w {
			return i
		}
		x -= w
	}
	return len(ws) - 1
}
