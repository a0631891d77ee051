package simrt

// Rng is the only source of randomness: splitmix64, a pure function of its seed.
type Rng struct{ S uint64 }

func NewRng(seed uint64) *Rng { return &Rng{S: seed} }

// Mix derives an independent seed from a seed and labels.
func Mix(seed uint64, labels ...uint64) uint64 {
	r := Rng{S: seed}
	v := r.Next()
	for _, l := range labels {
		r.S = v ^ (l * 0x9e3779b97f4a7c15)
		v = r.Next()
	}
	return v
}

// HashString is FNV-1a.
func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func (r *Rng) Next() uint64 {
	r.S += 0x9e3779b97f4a7c15
	z := r.S
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a number in [0,n).
func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

// Range returns a number in [lo,hi].
func (r *Rng) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

// P is true with probability num/den.
func (r *Rng) P(num, den int) bool { return r.Intn(den) < num }

// Geo is geometric-like with the given mean (at least 1).
func (r *Rng) Geo(mean int) int {
	if mean <= 1 {
		return 1
	}
	n := 1
	for n < mean*20 && r.Intn(mean) != 0 {
		n++
	}
	return n
}
